"""C14: fractions compare passing with all entries bin by bin."""
import itertools
import math

from props.lib import *

BOUNDS = ("histograms with 1-3 cuts next to 0-2 other axes (dense before, between and after the cuts, sparse, both), with and without profiles, unweighted, weighted, filtered; arbitrary contents of every bin that is summed over (sums of weights in [0,8] on a grid of 2**-14, one denominator at a time, the other bins holding fixed different numbers; for the errors the total of that denominator is fixed and the passing part arbitrary); "
          "every choice and order of cuts, count on and off, error None, normal and wilson, one and several confidence levels (ten levels from 0.01 to 0.999999 on small counts), both forms of the result; from entries with arbitrary values to the fraction")
ASSUMPTIONS = ["exact real arithmetic; weights are not negative, so that 0 <= passing <= total; with weights the error formulas use the total weight, as documented for counts"]
OPTS = {"witnesses": 2, "query_ms": 3000}
OPTS_QUICK = {"budget_s": 150}

HISTS = {
    "one": ([["cut", "p"]], {}),
    "one w": ([["cut", "x < y"], ["profile", "z"]], {"weight": "w"}),
    "two": ([["cut", "p"], ["cut", "q"]], {}),
    "two w": ([["cut", "p"], ["cut", "x < y"], ["profile", "z"]], {"weight": "w", "filter": "z < 9"}),
    "three": ([["cut", "p"], ["cut", "q"], ["cut", "x < y"]], {}),
    "after": ([["split", "x", [0.0], {"nanflow": False}], ["cut", "p"]], {}),
    "before": ([["cut", "p"], ["split", "x", [0.0], {"nanflow": False}]], {"filter": "z < 9"}),
    "around": ([["cut", "p"], ["split", "x", [0.0], {"nanflow": False}], ["cut", "q"], ["profile", "z"]], {"weight": "w"}),
    "between": ([["split", "x", [0.0], {"nanflow": False}], ["cut", "p"], ["cut", "q"], ["bin", "y", 2, 0.0, 2.0, {"underflow": False, "overflow": False, "nanflow": False}]], {}),
    "flow": ([["bin", "x", 1, 0.0, 2.0], ["cut", "p"], ["profile", "z"], ["profile", "y"]], {"weight": "w"}),
    "cat": ([["groupby", "g"], ["cut", "p"]], {}),
    "cat w": ([["groupby", "g"], ["cut", "p"], ["split", "x", [0.0], {"nanflow": False}], ["profile", "z"]], {"weight": "w"}),
    "cats": ([["groupby", "g"], ["groupbin", "y", 1.0], ["cut", "p"], ["cut", "q"]], {}),
}
ERRORS = [None, "normal", "wilson"]
LEVELS = [None, 0.95, 0.9, [0.95, 0.5]]


def configs(tier):
    out = []
    for hn in sorted(HISTS):
        for which in range(6 if tier != "quick" or hn == "three" else 2):
            for err in ERRORS:
                out.append({"name": "%s %s %d" % (hn, err, which), "k": "fraction", "h": hn, "which": which, "of": 6 if hn == "three" else 1, "error": err, "seconds": 60 if tier == "quick" else 600})
        out.append({"name": "%s entries" % hn, "k": "entries", "h": hn})
        out.append({"name": "%s unfilled" % hn, "k": "unfilled", "h": hn})
    out.append({"name": "refused", "k": "refused"})
    out.append({"name": "columns", "k": "columns"})
    for err in ("normal", "wilson"):
        out.append({"name": "levels %s" % err, "k": "levels", "error": err})
    return out


def data(ctx, **kw):
    d = {"x": [-0.5, 1.5], "y": [1.0, 2.0], "z": [1.0, -1.0], "w": [1.0, 2.0], "p": [True, False], "q": [True, True], "g": ["a", "b"]}
    d.update(kw)
    return dict((n, ctx.array(v)) for n, v in d.items())


def cutaxes(ctx, h):
    return [i for i, x in enumerate(h._fixed) if isinstance(x, ctx.hb.cut)]


def contents(ctx, h, which):
    h.fill(data(ctx, g=["b", "b"], y=[2.0, 2.0]))       # categories do not come in alphabetical order
    h.fill(data(ctx))
    cols = columns(h)
    cuts = cutaxes(ctx, h)
    groups = {}
    for key, arr in sorted(blocks(h).items(), key=lambda kv: [str(k) for k in kv[0]]):
        for idx in ndindex(ctx.shape(arr)[:-1]):
            groups.setdefault((key,) + tuple(i for j, i in enumerate(idx) if j not in cuts), []).append((key, arr, idx))
    out = {}
    moves = choices(h, ctx)[which % len(choices(h, ctx))][0]
    picked = sorted(groups, key=str)[which % len(groups)]
    for gi, (g, members) in enumerate(sorted(groups.items(), key=lambda kv: str(kv[0]))):
        v = ctx.real("v", 0, 4, 4) if g == picked else None
        for m, (key, arr, idx) in enumerate(members):
            if g != picked:
                c = float((gi * 3 + m * m) % 5)
            elif ctx.cfg["error"] is None:
                c = ctx.real("c%d" % m, 0, 8, 14) if m < 4 else float(m % 3)
            else:
                # the total is fixed, the part that passes is arbitrary
                one = [idx[j] for j in cuts]
                c = v if not any(one) else 4.0 + which - v if one == [1 if h._fixed[j] is moves else 0 for j in cuts] else 0.25 * m
            for name, j in cols.items():
                arr[idx + (j,)] = c if name == "sumw" else c * 3.0 if name == "sumw2" else 100.0 + j
            out[key + idx] = c
    return out


def sums(ctx, h, values, cuts):
    """what the fraction is made of: the key of the denominator bin -> (all, [passing each cut])"""
    ng = len(h._group)
    nums = [h._fixed.index(c) for c in cuts]
    out = {}
    for k, v in values.items():
        g, idx = k[:ng], k[ng:]
        rest = g + tuple(i for j, i in enumerate(idx) if j not in nums)
        tot, parts = out.get(rest, (0.0, [0.0] * len(cuts)))
        out[rest] = (tot + v, [p + v if idx[n] == 1 else p for p, n in zip(parts, nums)])
    return out


def sigmas(level):
    """level = erf(s/sqrt(2)), by bisection"""
    lo, hi = 0.0, 10.0
    for i in range(80):
        mid = 0.5 * (lo + hi)
        if math.erf(mid / math.sqrt(2)) < level:
            lo = mid
        else:
            hi = mid
    return lo


def leaves(t):
    out = {}

    def rec(t, key):
        if isinstance(t, dict):
            for k in t:
                rec(t[k], key + (k,))
        else:
            out[key] = t
    rec(t, ())
    return out


def examine(ctx, h, want, cuts, opts):
    names = [str(c.expr) for c in cuts]
    msg = "fraction(%s)" % ", ".join(names + ["%s=%r" % kv for kv in sorted(opts.items())])
    kw = dict((k, v) for k, v in opts.items() if v is not None or k == "error")
    error, level = opts.get("error", "normal"), opts.get("level")
    one = math.erf(math.sqrt(0.5))
    levels = [one] if level is None else [level] if isinstance(level, float) else list(level)
    # every square root is a variable of its own: with errors, one form of the result at a time
    forms = [(True, True), (False, True), (True, False), (False, False)]
    for byname, rec in forms if not error else [forms[opts.get("form", 0) % 4]]:
        args = names if byname else cuts
        t, cols = h.fraction(*args, recarray=rec, columns=True, **dict((k, v) for k, v in kw.items() if k != "form"))
        ctx.check(len(cols) == (1 if opts.get("count", True) else 0) + len(cuts) * (1 + (len(levels) if error else 0)), "%s: columns %r" % (msg, cols))
        if not error:
            u = leaves(h.fraction(*args, **dict(kw) if rec else dict(kw, recarray=False)))
            for key, v in leaves(t).items():
                for j, n in enumerate(cols):
                    for idx in ndindex(tuple(x.totbins for x in h._fixed if x not in cuts)):
                        ctx.check(ctx.same(*[ctx.scalar(o[key][n][idx] if rec else o[key][idx + (j,)]) for o in (leaves(t), u)]), "%s: the same without columns" % msg)
        verify(ctx, h, want, cuts, names, opts, error, levels, t, cols, rec, msg)


def verify(ctx, h, want, cuts, names, opts, error, levels, t, cols, rec, msg):
    rest = [x for x in h._fixed if x not in cuts]
    shape = tuple(x.totbins for x in rest)
    a = leaves(t)
    ctx.check(sorted(map(repr, a)) == sorted(set(repr(k[:len(h._group)]) for k in want)), "%s: one block per category" % msg)
    for key in a:
        ctx.check(ctx.shape(a[key]) == (shape if rec else shape + (len(cols),)), "%s: one row per bin" % msg)
        for idx in ndindex(shape):
            tot, parts = want[key + idx]
            some = ctx.lt(0.0, tot)
            at = "at %r" % (key + idx,)
            vals = [ctx.scalar(a[key][n][idx] if rec else a[key][idx + (j,)]) for j, n in enumerate(cols)]
            if opts.get("count", True):
                v = vals[cols.index("count()")]
                ctx.check(ctx.same(v, tot), "%s: count %s is %s" % (msg, at, show(ctx, v)))
            for n, passing in zip(names, parts):
                j = cols.index(n)
                p = vals[j]
                ctx.check(ctx.close(p * tot, ctx.ite(some, passing, 0.0)), "%s: %s %s is %s" % (msg, n, at, show(ctx, p)))
                for l, lev in enumerate(levels if error else []):
                    z = sigmas(lev)
                    u = vals[j + 1 + l]
                    if error == "normal":
                        # (u/z)^2 = p (1 - p) / total, without dividing
                        ok = ctx.close(u * u * tot * tot * tot, z * z * passing * (tot - passing), tol=1e-6, scale=16.0)
                    else:
                        # upper end of Wilson's interval: the larger solution of (u - p)^2 = z^2 u (1 - u) / total
                        f = u * tot - passing
                        ok = ctx.land(ctx.close(f * f, z * z * u * (1.0 - u) * tot, tol=1e-6, scale=16.0), ctx.le(passing - 1e-6, u * tot))
                    ctx.check(ctx.ite(some, ctx.land(ctx.le(-1e-9, u), ok), ctx.eq(u, 0.0)), "%s: error of %s at level %g %s is %s" % (msg, n, lev, at, show(ctx, u)))


def run(ctx, cfg):
    ctx.ideal()
    return globals()["t_" + cfg["k"]](ctx, cfg)


def mk(ctx, cfg):
    axes, opts = HISTS[cfg["h"]]
    return mkhist(ctx, axes, **opts)


def choices(h, ctx):
    cuts = [h._fixed[i] for i in cutaxes(ctx, h)]
    out = [list(c) for k in range(1, len(cuts) + 1) for c in itertools.permutations(cuts, k) if k < 3 or c[0] is cuts[2]]
    # one choice of everything first
    return out[-1:] + out[:-1]


def t_fraction(ctx, cfg):
    h = mk(ctx, cfg)
    values = contents(ctx, h, cfg["which"])
    before = frozen(ctx, h)
    for i, cuts in enumerate(choices(h, ctx)):
        want = sums(ctx, h, values, cuts)
        if cfg["error"] is None and i % cfg["of"] == cfg["which"] % cfg["of"]:
            for count in (True, False):
                examine(ctx, h, want, cuts, {"count": count, "error": None})
        elif cfg["error"]:
            # all levels need their own square roots: one (or two) at a time
            if i == cfg["which"] % len(choices(h, ctx)):
                examine(ctx, h, want, cuts, {"form": cfg["which"], "error": cfg["error"], "level": LEVELS[(sorted(HISTS).index(cfg["h"]) + cfg["which"]) % len(LEVELS)], "count": i % 2 == 0})
    checkfrozen(ctx, h, before, "taking fractions")


def t_unfilled(ctx, cfg):
    h = mk(ctx, cfg)
    cuts = [h._fixed[i] for i in cutaxes(ctx, h)]
    t = leaves(h.fraction(*cuts, recarray=False))
    if h._group:
        ctx.check(t == {}, "no categories")
    else:
        for v in ctx.snapshot(t[()]):
            ctx.check(ctx.eq(v, 0.0), "nothing counted")


def t_entries(ctx, cfg):
    """from entries to the fraction"""
    h = mk(ctx, cfg)
    axes, opts = HISTS[cfg["h"]]
    ps, qs = [ctx.boolean("p%d" % i) for i in range(2)], [ctx.boolean("q%d" % i) for i in range(2)]
    ys, ws = [ctx.real("y%d" % i, 1.0, 2.0, 4) for i in range(2)], [ctx.real("w%d" % i, 0.25, 3, 2) for i in range(2)]
    if any(a[0] == "groupbin" for a in axes):
        ys = [1.5, 1.5]
    h.fill(x=ctx.array([1.5, 1.5]), y=ctx.array(ys), z=ctx.array([1.0, 1.0]), w=ctx.array(ws), p=ctx.array(ps), q=ctx.array(qs), g=ctx.array(["a", "a"]))
    w = ws if opts.get("weight") == "w" else [1.0, 1.0]
    cuts = [h._fixed[i] for i in cutaxes(ctx, h)]
    one = {"p": ps, "q": qs, "x < y": [ctx.lt(1.5, y) for y in ys]}
    t, cols = h.fraction(*cuts, recarray=False, columns=True, error=None)
    rest = [x for x in h._fixed if x not in cuts]
    total = w[0] + w[1]
    for key, arr in leaves(t).items():
        for idx in ndindex(tuple(x.totbins for x in rest)):
            ins = [inkey(ctx, {"x": 1.5, "y": None}.get(ax.expr) if ax.expr != "y" else ys[0], ax.keys()[i])[0] for ax, i in zip(rest, idx)]
            if any(ax.expr == "y" for ax in rest):
                # both entries in the same bin of y for simplicity
                ctx.assume(ctx.lt(ys[0], 1.5) if False else ctx.eq(ys[0], ys[1]))
            here = ctx.land(True, *ins)
            n = ctx.scalar(arr[idx + (cols.index("count()"),)])
            ctx.check(ctx.same(n, ctx.ite(here, total, 0.0)), "count in bin %r" % (idx,))
            for c in cuts:
                p = ctx.scalar(arr[idx + (cols.index(str(c.expr)),)])
                passing = ctx.sum([ctx.ite(b, v, 0.0) for b, v in zip(one[c.expr], w)])
                ctx.check(ctx.close(p * total, ctx.ite(here, passing, 0.0)), "fraction of %s in bin %r" % (c.expr, idx))


def t_columns(ctx, cfg):
    hb = ctx.hb
    h = hb.Hist(hb.cut("p"), hb.cut("x < y"))
    a, b = ctx.int("a", 0, 4), ctx.int("b", 0, 4)
    h.fill(data(ctx))
    t, cols = h.fraction("p", "y > x", columns=True)
    ctx.check(cols[0] == "count()" and cols[1] == "p" and cols[3] == "x < y" and cols[2] == "err(p)" and cols[4] == "err(x < y)", "named columns: %r" % (cols,))
    t, cols = h.fraction("p", columns=True, level=[0.5, 0.95])
    ctx.check(len(set(cols)) == 4 and cols[1] == "p" and "0.5" in cols[2] and "0.95" in cols[3], "named levels: %r" % (cols,))
    t, cols = h.fraction(columns=True)
    ctx.check(cols == ["count()"], "no cuts: %r" % (cols,))


def t_levels(ctx, cfg):
    """one bin with some entries passing: the error at every confidence level"""
    hb = ctx.hb
    n, m = ctx.choose("n", [1, 2, 5]), ctx.choose("m", [1, 3])
    k = ctx.boolean("k") if cfg["error"] == "normal" else ctx.choose("k", [True, False])
    h = hb.Hist(hb.cut("p"))
    h.fill(p=ctx.array([True] * n + [False] * m + [k]))
    passing = n + ctx.ite(k, 1.0, 0.0)
    tot = n + m + 1.0
    levels = [0.01, 0.2, 0.5, math.erf(math.sqrt(0.5)), 0.9, 0.954499736103642, 0.99, 0.9973002039367398, 0.9999, 0.999999]
    t = h.fraction("p", error=cfg["error"], level=levels, recarray=False)
    p = ctx.scalar(t[1])
    ctx.check(ctx.close(p * tot, passing), "fraction")
    for i, lev in enumerate(levels):
        z = sigmas(lev)
        u = ctx.scalar(t[2 + i])
        if cfg["error"] == "normal":
            ok = ctx.close(u * u * tot * tot * tot, z * z * passing * (tot - passing), tol=1e-6, scale=16.0)
        else:
            f = u * tot - passing
            ok = ctx.land(ctx.close(f * f, z * z * u * (1.0 - u) * tot, tol=1e-6, scale=16.0), ctx.le(passing - 1e-6, u * tot))
        ctx.check(ctx.land(ctx.le(-1e-9, u), ok), "error at level %g is %s" % (lev, show(ctx, u)))
        alone = ctx.scalar(h.fraction("p", error=cfg["error"], level=lev, recarray=False)[2])
        ctx.check(ctx.close(alone, u), "the same error when only level %g is asked for" % lev)


def t_refused(ctx, cfg):
    hb = ctx.hb
    h = hb.Hist(hb.cut("p"), hb.bin("x", 2, 0, 2), hb.profile("y"))
    h.fill(data(ctx))
    before = frozen(ctx, h)
    raises(ctx, lambda: h.fraction("q"), IndexError, "no such cut")
    raises(ctx, lambda: h.fraction("x"), IndexError, "not a cut")
    raises(ctx, lambda: h.fraction(h.axis["x"]), IndexError, "not a cut axis")
    raises(ctx, lambda: h.fraction("p", nosuch=True), TypeError, "unknown option")
    raises(ctx, lambda: h.fraction("p", error="nosuch"), (ValueError, TypeError), "unknown method")
    for m in ("clopper-pearson", "agresti-coull", "feldman-cousins", "jeffrey", "bayesian-uniform"):
        raises(ctx, lambda: h.fraction("p", error=m), NotImplementedError, "%s is not implemented" % m)
    checkfrozen(ctx, h, before, "refused fractions")
