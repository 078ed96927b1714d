"""C13: tables report count, error and profile statistics of the right bins."""
import itertools

from props.lib import *

BOUNDS = ("histograms with 0-3 axes of every kind (dense, sparse, both), unweighted, weighted, filtered, with 0-2 profiles; arbitrary contents of two bins at a time (sums in [-8,8] on a grid of 1/16; sum of weights not negative, a spread that is not negative), the others holding fixed different numbers; "
          "every combination of count, effcount, error, recarray, columns and choice and order of profiles; normalised tables of every axis kind with arbitrary positive contents; fills of 2-3 equal arbitrary values with floating-point rounding")
ASSUMPTIONS = ["exact real arithmetic except in the configurations about rounding", "bins with a negative sum of weights (possible with negative weights only) are not constrained",
               "normalised: the existing test fixes heights proportional to count/width that add up to one over the finite bins; the docstring reads differently (see DESIGN.md)"]
OPTS = {"witnesses": 2, "query_ms": 3000}
OPTS_QUICK = {"budget_s": 120}

HISTS = {
    "none": ([["profile", "y"]], {}),
    "none w": ([["profile", "y"], ["profile", "x + z"]], {"weight": "w"}),
    "bin": ([["bin", "x", 2, 0.0, 2.0], ["profile", "y"], ["profile", "2*z"]], {}),
    "bin w": ([["bin", "x", 2, 0.0, 2.0, {"underflow": False, "closedlow": False}], ["profile", "y"], ["profile", "2*z"]], {"weight": "w"}),
    "split filter": ([["split", "x", [0.0, 1.0, 3.0], {"nanflow": False}], ["profile", "y"]], {"filter": "y < 3"}),
    "int both": ([["intbin", "n", 0, 2], ["profile", "y"]], {"weight": "w", "filter": "y < 3"}),
    "cut": ([["cut", "p"]], {"weight": "w"}),
    "2d": ([["bin", "x", 2, 0.0, 2.0], ["cut", "p"], ["profile", "y"]], {}),
    "2d w": ([["cut", "p"], ["split", "x", [0.0, 1.0]], ["profile", "y"]], {"weight": "w"}),
    "3d w": ([["cut", "p"], ["split", "x", [0.0, 1.0], {"nanflow": False}], ["cut", "q"], ["profile", "y"]], {"weight": 2}),
    "cat": ([["groupby", "g"], ["profile", "y"]], {}),
    "cat bin w": ([["groupby", "g"], ["bin", "x", 2, 0.0, 2.0], ["profile", "y"]], {"weight": "w"}),
    "cats w": ([["groupbin", "x", 1.0], ["groupby", "g"], ["profile", "y"], ["profile", "2*z"]], {"weight": "w"}),
}
NORM = {
    "split": [["split", "x", [0.0, 4.0, 6.0, 7.0]]], "bin": [["bin", "x", 3, 0.0, 6.0]], "no flow": [["bin", "x", 3, 0.0, 6.0, {"underflow": False, "overflow": False, "nanflow": False}]], "int": [["intbin", "n", 0, 2]], "cut": [["cut", "p"]],
    "no over": [["split", "x", [0.0, 4.0, 6.0], {"overflow": False}]], "no under": [["bin", "x", 2, 0.0, 6.0, {"underflow": False}]],
    "bin x cut": [["bin", "x", 2, 0.0, 4.0], ["cut", "p"]], "split x bin": [["split", "x", [0.0, 1.0, 3.0]], ["bin", "y", 2, 0.0, 4.0]], "bin x split": [["bin", "y", 2, 0.0, 4.0], ["split", "x", [0.0, 1.0, 3.0]]],
    "split x split": [["split", "x", [0.0, 1.0, 3.0]], ["split", "y", [0.0, 2.0, 7.0, 8.0], {"underflow": False}]], "split x split same": [["split", "x", [0.0, 1.0, 3.0]], ["split", "y", [0.0, 2.0, 7.0]]], "split x cut x int": [["split", "x", [0.0, 1.0, 3.0], {"nanflow": False}], ["cut", "p"], ["intbin", "n", 0, 1]],
    "cat x split": [["groupby", "g"], ["split", "x", [0.0, 1.0, 3.0]]], "catbin x bin": [["groupbin", "y", 2.0], ["bin", "x", 2, 0.0, 1.0]], "catbin x catbin": [["groupbin", "y", 2.0], ["groupbin", "x", 4.0]], "catbin x cat x catbin x bin": [["groupbin", "y", 2.0], ["groupby", "g"], ["groupbin", "n", 4.0], ["bin", "x", 2, 0.0, 1.0]], "cat": [["groupby", "g"]],
}


def configs(tier):
    out = []
    for hn in sorted(HISTS):
        axes, opts = HISTS[hn]
        for which in range(3 if tier == "quick" else 6):
            out.append({"name": "%s cells %d" % (hn, which), "k": "table", "h": hn, "which": which, "seconds": 60 if tier == "quick" else 900})
        out.append({"name": "%s unfilled" % hn, "k": "unfilled", "h": hn})
        out.append({"name": "%s filled" % hn, "k": "filled", "h": hn})
    for n in sorted(NORM):
        for w in ("", "w"):
            out.append({"name": "normalized %s %s" % (n, w), "k": "norm", "h": n, "w": w})
    for w in ("", "w"):
        for n in (2, 3):
            out.append({"name": "spread of %d equal values %s" % (n, w), "k": "equal", "n": n, "w": w})
    out.append({"name": "refused", "k": "refused"})
    return out


def data(ctx, **kw):
    d = {"x": [0.5, 1.5], "y": [1.0, 2.0], "z": [1.0, -1.0], "w": [1.0, 2.0], "n": [0, 1], "p": [True, False], "q": [True, True], "g": ["a", "b"]}
    d.update(kw)
    return dict((n, ctx.array(v)) for n, v in d.items())


def contents(ctx, h, which):
    """fixed different numbers in every bin, arbitrary ones in two of them; returns what every bin holds"""
    h.fill(data(ctx, g=["b", "b"], x=[1.5, 1.5]))       # categories do not come in alphabetical order
    h.fill(data(ctx))
    cols = columns(h)
    todo = []
    for key, arr in sorted(blocks(h).items(), key=lambda kv: [str(k) for k in kv[0]]):
        for idx in ndindex(ctx.shape(arr)[:-1]):
            todo.append((key, arr, idx))
    pick = set([(which * 2) % len(todo), (which * 3 + 1) % len(todo)])
    out = {}
    for i, (key, arr, idx) in enumerate(todo):
        if i in pick:
            s = ctx.real("sumw%d" % i, 0, 8, 4)
            c = {"sumw": s}
            if "sumw2" in cols:
                c["sumw2"] = ctx.real("sumw2%d" % i, 0, 8, 4)
                ctx.assume(ctx.iff(ctx.lt(0.0, s), ctx.lt(0.0, c["sumw2"])))
            for j in range(len(h._profile)):
                a, b = ctx.real("sumwx%d_%d" % (j, i), -8, 8, 4), ctx.real("sumwx2%d_%d" % (j, i), 0, 64, 4)
                ctx.assume(ctx.le(a * a, b * s))
                c["sumwx%d" % j], c["sumwx2%d" % j] = a, b
        else:
            s = float(i % 3 + (i % 2) * 2)
            c = {"sumw": s, "sumw2": s * (1.0 if i % 4 else 2.0)}
            for j in range(len(h._profile)):
                m = float(i + 1 + j) / 4.0
                c["sumwx%d" % j], c["sumwx2%d" % j] = s * m, s * (m * m + (0.25 if i % 5 else 0.0))
        for n, j in cols.items():
            arr[idx + (j,)] = c[n]
        out[key + idx] = c
    return out


def label(ctx, h, p):
    return str(p.expr)


def wanted(ctx, h, c):
    """column name -> predicate on the reported number, from the sums of one bin"""
    weighted = h._weightparsed is not None
    sumw = c["sumw"]
    some = ctx.lt(0.0, sumw)
    w2 = c["sumw2"] if weighted else sumw
    out = {"count()": lambda v: ctx.same(v, sumw), "err(count())": lambda v: ctx.land(ctx.le(0.0, v), ctx.close(v * v, w2)),
           "effcount()": lambda v: ctx.close(v * w2, ctx.ite(some, sumw * sumw, 0.0))}
    for i, p in enumerate(h._profile):
        s1, s2 = c["sumwx%d" % i], c["sumwx2%d" % i]
        out[label(ctx, h, p)] = lambda v, s1=s1: ctx.close(v * sumw, ctx.ite(some, s1, 0.0))
        # err^2 * effcount = spread^2, all multiplied by powers of sumw so that nothing is divided
        out["err(%s)" % label(ctx, h, p)] = lambda v, s1=s1, s2=s2: ctx.land(ctx.le(0.0, v), ctx.ite(some, ctx.close(v * v * sumw * sumw * sumw * sumw, (s2 * sumw - s1 * s1) * w2, scale=64.0), ctx.eq(v, 0.0)))
    return out


def rows(ctx, h, table):
    """(group keys and indexes) -> row"""
    out = {}

    def rec(t, key):
        if isinstance(t, dict):
            for k in t:
                rec(t[k], key + (k,))
        else:
            out[key] = t
    rec(table, ())
    return out


def checktable(ctx, h, want, prof, opts):
    """one combination of options, in all three forms"""
    names = []
    if opts["count"]:
        names.append("count()")
        if opts["error"]:
            names.append("err(count())")
    if opts["effcount"]:
        names.append("effcount()")
    for p in prof:
        names.append(label(ctx, h, p))
        if opts["error"]:
            names.append("err(%s)" % label(ctx, h, p))
    if not names:
        return
    msg = "table(%s)" % ", ".join([label(ctx, h, p) for p in prof] + ["%s=%s" % kv for kv in sorted(opts.items())])
    plain, cols = h.table(*prof, recarray=False, columns=True, **opts)
    ctx.check(sorted(cols) == sorted(names), "%s: the columns are %r" % (msg, cols))
    again = h.table(*[label(ctx, h, p) for p in prof], recarray=False, **opts)
    rec = h.table(*prof, **opts)
    rec2, cols2 = h.table(*prof, columns=True, **opts)
    ctx.check(list(cols2) == list(cols), "%s: the same columns in both forms" % msg)
    a, b, c, d = rows(ctx, h, plain), rows(ctx, h, again), rows(ctx, h, rec), rows(ctx, h, rec2)
    shape = tuple(h._shape[:-1])
    for t in (a, b, c, d):
        ctx.check(sorted(t, key=repr) == sorted(set(k[:len(h._group)] for k in want), key=repr), "%s: one block per category" % msg)
    for key in a:
        ctx.check(ctx.shape(a[key]) == shape + (len(cols),) and ctx.shape(b[key]) == shape + (len(cols),) and ctx.shape(c[key]) == shape and ctx.shape(d[key]) == shape, "%s: one row per bin, one column per quantity" % msg)
        for idx in ndindex(shape):
            for n in names:
                v = ctx.scalar(a[key][idx + (cols.index(n),)])
                ctx.check(want[key + idx][n](v), "%s: %s at %r is %s" % (msg, n, key + idx, show(ctx, v)))
                for o in (ctx.scalar(b[key][idx + (cols.index(n),)]), ctx.scalar(c[key][n][idx]), ctx.scalar(d[key][n][idx])):
                    ctx.check(ctx.same(v, o), "%s: %s at %r is the same in all forms" % (msg, n, key + idx))


def combos(h):
    for c, f, e in itertools.product((True, False), repeat=3):
        for k in range(len(h._profile) + 1):
            for prof in itertools.permutations(h._profile, k):
                yield list(prof), {"count": c, "effcount": f, "error": e}


def run(ctx, cfg):
    return globals()["t_" + cfg["k"]](ctx, cfg)


def t_table(ctx, cfg):
    ctx.ideal()
    axes, opts = HISTS[cfg["h"]]
    h = mkhist(ctx, axes, **opts)
    cs = contents(ctx, h, cfg["which"])
    want = dict((k, wanted(ctx, h, c)) for k, c in cs.items())
    before = frozen(ctx, h)
    for prof, o in combos(h):
        checktable(ctx, h, want, prof, o)
    checkfrozen(ctx, h, before, "making tables")
    # the defaults
    t, cols = h.table(columns=True)
    ctx.check(sorted(cols) == ["count()", "err(count())"], "count and error by default")


def t_unfilled(ctx, cfg):
    ctx.ideal()
    axes, opts = HISTS[cfg["h"]]
    h = mkhist(ctx, axes, **opts)
    t = rows(ctx, h, h.table(*h._profile, effcount=True, recarray=False))
    if h._group:
        ctx.check(t == {}, "no categories")
    else:
        for v in ctx.snapshot(t[()]):
            ctx.check(ctx.eq(v, 0.0), "nothing counted")


def t_filled(ctx, cfg):
    """from entries to table: the row of the bin an entry belongs to"""
    ctx.ideal()
    axes, opts = HISTS[cfg["h"]]
    h = mkhist(ctx, axes, **opts)
    ws, ys, zs = [[ctx.real("%s%d" % (n, i), lo, 3, 2) for i in range(2)] for n, lo in (("w", 0.25), ("y", -3), ("z", -3))]
    d = dict(x=[0.5, 0.5], n=[1, 1], p=[True, True], q=[True, True], g=["a", "a"], y=ys, w=ws, z=zs)
    h.fill(dict((n, ctx.array(v)) for n, v in d.items()))
    one = 1.0 if h._weightparsed is None or (opts.get("weight") is None) else 2.0 if opts.get("weight") == 2 else None
    w = [one if one is not None else x for x in ws]
    if "filter" in opts:
        w = [ctx.ite(ctx.lt(y, 3.0), a, 0.0) for a, y in zip(w, ys)]
    q = {"y": ys, "2*z": [2.0 * z for z in zs], "x + z": [0.5 + z for z in zs]}
    c = {"sumw": w[0] + w[1], "sumw2": w[0] * w[0] + w[1] * w[1]}
    for i, p in enumerate(h._profile):
        v = q[label(ctx, h, p)]
        c["sumwx%d" % i], c["sumwx2%d" % i] = w[0] * v[0] + w[1] * v[1], w[0] * v[0] * v[0] + w[1] * v[1] * v[1]
    cols = ["count()", "err(count())", "effcount()"] + [f % label(ctx, h, p) for p in h._profile for f in ("%s", "err(%s)")]
    t = rows(ctx, h, h.table(*h._profile, effcount=True))
    where = {"x": 0.5, "n": 1, "p": True, "q": True, "g": "a"}
    zero = dict((k, 0.0) for k in c)
    want1, want0 = wanted(ctx, h, c), wanted(ctx, h, zero)
    for key, arr in t.items():
        shape = tuple(h._shape[:-1])
        pub = [ax.keys() for ax in h._fixed]
        for idx in ndindex(shape):
            here = all(isin(ctx, where[ax.expr], pub[j][idx[j]]) for j, ax in enumerate(h._fixed))
            for n in cols:
                if here and n.startswith("err(") and n != "err(count())":
                    continue         # the nonlinear part is decided with arbitrary sums
                v = ctx.scalar(arr[n][idx])
                ctx.check((want1 if here else want0)[n](v), "%s in the row of %r is %s" % (n, [pub[j][idx[j]] for j in range(len(idx))], show(ctx, v)))


def isin(ctx, v, key):
    if isinstance(v, bool):
        return str(key) in ("pass", "p", "q") if not isinstance(key, bool) else key == v
    return bool(inkey(ctx, v, key)[0])


def t_norm(ctx, cfg):
    ctx.ideal()
    axes = NORM[cfg["h"]]
    h = mkhist(ctx, axes, **({"weight": "w"} if cfg["w"] else {}))
    d = data(ctx, y=[1.0, 3.0])
    h.fill(d)
    cols = columns(h)
    got = {}
    i = 0
    for key, arr in sorted(blocks(h).items(), key=lambda kv: [str(k) for k in kv[0]]):
        for idx in ndindex(ctx.shape(arr)[:-1]):
            v = ctx.real("c%d" % i, 0.25, 4, 2) if i % 3 == 1 and i < 12 else float(i % 4 + 1)
            arr[idx + (cols["sumw"],)] = v
            if cfg["w"]:
                arr[idx + (cols["sumw2"],)] = v * 2.0
            got[key + idx] = v
            i += 1
    density = {}
    for k, v in got.items():
        vol = 1.0
        for ax, i in zip(h._fixed, k[len(h._group):]):
            pub = ax.keys()[i]
            if isinstance(pub, ctx.hb.axis.IntervalNaN) or str(pub) == "NaN":
                vol = INF
            elif isinstance(pub, ctx.hb.axis.Interval):
                vol *= float(pub.high) - float(pub.low)
        density[k] = 0.0 if vol == INF else v / vol
    total = ctx.sum(density.values())
    plain, columns_ = h.table(normalized=True, recarray=False, columns=True)
    for key, arr in rows(ctx, h, plain).items():
        for idx in ndindex(tuple(h._shape[:-1])):
            v = ctx.scalar(arr[idx + (columns_.index("count()"),)])
            ctx.check(ctx.close(v * total, density[key + idx], tol=1e-8), "normalized count at %r is %s" % (key + idx, show(ctx, v)))
            e = ctx.scalar(arr[idx + (columns_.index("err(count())"),)])
            # the relative error is that of the count: err/height = sqrt(v)/v (or sqrt(2v)/v)
            f = 2.0 if cfg["w"] else 1.0
            ctx.check(ctx.land(ctx.le(0.0, e), ctx.close(e * e * got[key + idx], f * v * v, tol=1e-8)), "normalized error at %r is %s" % (key + idx, show(ctx, e)))


def t_equal(ctx, cfg):
    """equal values have no spread: the error is zero but for rounding, so never undefined"""
    hb = ctx.hb
    n = cfg["n"]
    h = hb.Hist(hb.bin("x", 1, 0, 1), hb.profile("y"), **({"weight": "w"} if cfg["w"] else {}))
    y = ctx.real("y", -3, 3, 40)
    # rounding is over-approximated: a counterexample of the solver is looked for among its neighbours on the real code
    for v in [y] if ctx.symbolic else [y + 0.1 * k for k in range(12)]:
        h.clear()
        h.fill(x=ctx.array([0.5] * n), y=ctx.array([v] * n), w=ctx.array([0.375] * n))
        e = ctx.scalar(h.table("y")["err(y)"][1])
        ctx.check(ctx.lnot(ctx.isnan(e)), "the error of the mean of %d equal values is a number" % n)


def t_refused(ctx, cfg):
    hb = ctx.hb
    h = hb.Hist(hb.bin("x", 2, 0, 2), hb.profile("y"))
    h.fill(data(ctx))
    before = frozen(ctx, h)
    raises(ctx, lambda: h.table("z"), IndexError, "no such profile")
    raises(ctx, lambda: h.table("x"), IndexError, "not a profile")
    raises(ctx, lambda: h.table(hb.profile("z")), IndexError, "no such profile axis")
    raises(ctx, lambda: h.table(nosuch=True), TypeError, "unknown option")
    checkfrozen(ctx, h, before, "refused tables")
