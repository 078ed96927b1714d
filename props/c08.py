"""C08: projecting or dropping axes equals filling the smaller histogram directly."""
from props.lib import *

BOUNDS = ("histograms of 1 to 3 binning axes (every kind; up to two sparse axes; 1-3 categories each) and 0 to 3 profiles, weighted, filtered or plain; every subset of axes kept; "
          "(a) arbitrary contents in every column of every bin (multiples of 1/16 in [-8,8]), (b) 1 to 2 entries of arbitrary data compared with a direct fill; unfilled and empty histograms; axes named by expression, object or position")
ASSUMPTIONS = ["data that fall into a switched-off flow bin of a removed axis are not held by the histogram and are not expected in the projection",
               "a histogram without any axis, weight or profile has no field to take the number of entries from; it is not compared with",
               "contents and sums are exactly representable (multiples of 1/256 below 2**20)"]
OPTS = {"witnesses": 3}

BINX, BINY, CUT, SPL, INT = ["bin", "x", 2, 0.0, 2.0], ["bin", "y", 1, 0.0, 1.0, {"underflow": False, "nanflow": False}], ["cut", "p"], ["split", "y", [0.0, 1.0], {"overflow": False}], ["intbin", "i", 0, 1]
G, K, GB = ["groupby", "g"], ["groupby", "k"], ["groupbin", "b", 1.0]
Z, Q, R = ["profile", "z"], ["profile", "q"], ["profile", "z + q"]
AXES = {
    "bin": ([BINX], {}), "bin+bin+cut": ([BINX, BINY, CUT], {}), "split+intbin": ([SPL, INT], {"weight": "w"}), "bin+cut+profile": ([BINX, CUT, Z], {"weight": "w"}),
    "cut+3 profiles": ([CUT, Z, Q, R], {"weight": "w"}), "2 profiles": ([Z, Q], {}), "3 profiles": ([Z, Q, R], {}), "cut+2 profiles filter": ([CUT, Z, Q], {"filter": "x > 0"}),
    "bin+2 profiles weight filter": ([BINY, Q, Z], {"filter": "x > 0", "weight": "w"}),
    "groupby": ([G], {}), "groupby+bin": ([G, BINX], {"weight": "w"}), "groupby+groupby": ([G, K], {}), "groupby+groupby+cut+profile": ([G, K, CUT, Z], {"weight": "w"}), "groupbin+cut": ([GB, CUT], {}),
    "groupby+groupbin": ([G, GB], {"weight": "w"}), "groupbin+groupby+profile": ([GB, K, Z], {}), "cut+groupby order": ([CUT, G, Z], {}),
}
Q3 = 0.75
CATS = {"g": ["a", "b", "c", "d", "a b", "", "A", "e", "f"], "k": ["u", "v"], "b": [0.5, 1.5, NAN, -3.5, 2.5, 10.5, 11.5, 12.5, -20.0]}


def subsets(n):
    return [[i for i in range(n) if m >> i & 1] for m in range(2 ** n)]


def configs(tier):
    out = []
    for nm, (axes, opts) in AXES.items():
        binning = [a for a in ordered(axes) if a[0] != "profile"]
        profs = [a for a in axes if a[0] == "profile"]
        groups = [a for a in binning if a[0].startswith("group")]
        fills = [None]
        if len(groups) == 1:
            fills = [1, 2, 3, 0, 5, 9] if len(binning) == 1 or tier != "quick" else [1, 2, 3, 0, 5]
        elif len(groups) == 2:
            fills = [[[0, 0]], [[0, 0], [1, 0]], [[0, 0], [0, 1]], [[0, 0], [1, 1], [2, 0]], [[0, 0], [1, 0], [2, 1], [2, 0]], [], [[0, 0], [1, 1], [3, 0], [4, 0], [5, 1], [4, 1]]] + ([[[0, 0], [1, 2]], [[1, 2], [0, 0], [0, 1]]] if groups[1][0] == "groupbin" else []) + ([[[2, 0], [0, 1]]] if groups[0][0] == "groupbin" else [])
        for keep in subsets(len(binning)):
            for f in fills:
                out.append({"name": "%s keep %s content %s" % (nm, keep, f), "h": nm, "k": "arb", "keep": keep, "fills": f})
            for n in (1, 2) if tier == "quick" else (1, 2, 3):
                if not keep and not profs and not opts:
                    continue
                if n > 1 and len(binning) - len(groups) > 1 and tier == "quick":
                    continue
                out.append({"name": "%s keep %s data n=%d" % (nm, keep, n), "h": nm, "k": "data", "keep": keep, "n": n, "cost": n, "seconds": 120})
        for gone in subsets(len(profs)):
            if gone:
                for f in fills:
                    out.append({"name": "%s drop %s content %s" % (nm, gone, f), "h": nm, "k": "arb", "drop": gone, "fills": f})
                out.append({"name": "%s drop %s data" % (nm, gone), "h": nm, "k": "data", "drop": gone, "n": 1})
    out.append({"name": "addressing", "k": "address"})
    out.append({"name": "refused", "k": "refused"})
    out.append({"name": "unfilled", "k": "unfilled"})
    return out


def ordered(axes):
    return [a for a in axes if a[0].startswith("group")] + [a for a in axes if not a[0].startswith("group") and a[0] != "profile"] + [a for a in axes if a[0] == "profile"]


def mk(ctx, cfg, axes):
    return mkhist(ctx, axes, **AXES[cfg["h"]][1])


def entry(ctx, cfg, i):
    e = {"w": ctx.real("w%d" % i, -4, 4, 2)}
    for a in AXES[cfg["h"]][0]:
        n = a[1]
        if a[0] == "profile":
            for q in ("z", "q"):
                if q in n:
                    e[q] = e.get(q, None) or ctx.real("%s%d" % (q, i), -4, 4, 2)
        elif a[0] == "groupby":
            e[n] = ctx.choose("%s%d" % (n, i), CATS[n][:2])
        elif a[0] == "groupbin":
            e[n] = ctx.real("%s%d" % (n, i), 0, 2, 2, nan=True)
        elif a[0] == "cut":
            e[n] = ctx.boolean("%s%d" % (n, i))
        elif a[0] == "intbin":
            e[n] = ctx.int("%s%d" % (n, i), -2, 3)
        elif n == "y" and "keep" in cfg and not any(ordered(AXES[cfg["h"]][0])[j] is a for j in cfg["keep"]):
            e[n] = ctx.real("%s%d" % (n, i), 0, Q3, 2)     # an axis with switched-off flow bins does not hold what falls there
        else:
            e[n] = ctx.real("%s%d" % (n, i), -4, 4, 2, nan=True)
    if AXES[cfg["h"]][1].get("filter"):
        e["x"] = e.get("x", ctx.real("x%d" % i, -4, 4, 2))
    return e


def run(ctx, cfg):
    hb = ctx.hb
    if cfg["k"] == "address":
        mkall = lambda: arbitrary(ctx, mkhist(ctx, [BINX, CUT, Z, Q], weight="w"), "a")
        h = mkall()
        want = h.project(h.axis[0])
        for how in ("x", 0, hb.bin("x", 2, 0.0, 2.0), ctx.np.int64(0)):
            checksame(ctx, h.project(how), want, "project addressed by %r" % (how,))
        want = h.project(h.axis[0], h.axis[1])
        for how in (("x", "p"), ("p", "x"), (1, 0), ("p", 0), ("x", "p", "x")):
            got = h.project(*how)
            checksame(ctx, got, want, "project addressed by %r" % (how,))
            ctx.check([repr(x) for x in got.axis] == [repr(x) for x in want.axis], "axis order does not depend on the order of the arguments")
        want = h.drop(h.axis[2])
        for how in ("z", 2, hb.profile("z")):
            checksame(ctx, h.drop(how), want, "drop addressed by %r" % (how,))
        return
    if cfg["k"] == "refused":
        h = arbitrary(ctx, mkhist(ctx, [BINX, CUT, Z]), "a")
        before = frozen(ctx, h)
        for what, fn in (("unknown axis", lambda: h.project("y")), ("other binning", lambda: h.project(hb.bin("x", 3, 0.0, 2.0))), ("project onto a profile", lambda: h.project("z")), ("drop nothing", lambda: h.drop()),
                         ("drop a binning axis", lambda: h.drop("x")), ("drop a binning axis by position", lambda: h.drop(0)), ("drop unknown", lambda: h.drop("q")), ("position out of range", lambda: h.project(7))):
            raises(ctx, fn, (IndexError,), "%s is refused" % what)
        checkfrozen(ctx, h, before, "refused operations change nothing")
        return
    if cfg["k"] == "unfilled":
        for axes in ([BINX, CUT, Z], [G, K, CUT, Z]):
            h = mkhist(ctx, axes)
            p = h.project("p")
            ctx.check(p._content is None and [repr(x) for x in p.axis] == [repr(mkaxis(ctx, CUT)), repr(mkaxis(ctx, Z))], "projection of an unfilled histogram is unfilled")
            d = h.drop("z")
            ctx.check(d._content is None and len(d._profile) == 0, "dropping from an unfilled histogram")
            w = {"x": ctx.real("x", -4, 4, 2), "p": ctx.boolean("p"), "z": ctx.real("z", -4, 4, 2), "g": "a", "k": "u"}
            data = dict((n, ctx.array([v])) for n, v in w.items())
            for d, axes2 in ((p, [CUT, Z]), (d, [a for a in axes if a is not Z])):
                ref = mkhist(ctx, axes2)
                ref.fill(data)
                d.fill(data)
                checksame(ctx, d, ref, "filling the projection of an unfilled histogram")
        return
    axes = ordered(AXES[cfg["h"]][0])
    binning = [a for a in axes if a[0] != "profile"]
    profs = [a for a in axes if a[0] == "profile"]
    h = mk(ctx, cfg, AXES[cfg["h"]][0])

    def reduce(h):
        if "keep" in cfg:
            return h.project(*[binning[i][1] for i in cfg["keep"]])
        return h.drop(*[profs[i][1] for i in cfg["drop"]])
    left = [binning[i] for i in cfg["keep"]] + profs if "keep" in cfg else binning + [a for i, a in enumerate(profs) if i not in cfg["drop"]]
    if cfg["k"] == "data":
        if len([a for a in binning if not a[0].startswith("group")]) > 1 or cfg["n"] > 1:
            ctx.fork_index()
        es = [entry(ctx, cfg, i) for i in range(cfg["n"])]
        data = dict((n, ctx.array([e[n] for e in es])) for n in es[0])
        h.fill(data)
        ref = mk(ctx, cfg, left)
        ref.fill(data)
        got = reduce(h)
        ctx.check([repr(x) for x in got.axis] == [repr(x) for x in ref.axis], "the remaining axes")
        checksame(ctx, got, ref, "equals direct filling")
        ctx.check(set(map(str, blocks(got))) == set(map(str, blocks(ref))), "same categories as direct filling")
        # and it goes on filling like the directly declared one
        more = dict((n, ctx.array(["a" if n == "g" else "u" if n == "k" else True if n == "p" else 0.5])) for n in es[0])
        more["i"] = ctx.array([1])
        got.fill(more)
        ref.fill(more)
        checksame(ctx, got, ref, "equals direct filling, also after a further fill")
        return
    fills = None
    f = cfg["fills"]
    if f is not None:
        groups = [a for a in binning if a[0].startswith("group")]
        if isinstance(f, int):
            f = [[i] for i in range(f)]
        fills = []
        for ks in f:
            d = {"x": 0.5, "y": 0.5, "p": True, "z": 1.0, "q": 1.0, "w": 1.0, "i": 0}
            d.update(dict((a[1], CATS[a[1]][k]) for a, k in zip(groups, ks)))
            fills.append(dict((n, ctx.array([v])) for n, v in d.items()))
    if fills == []:
        h._prefill()
    else:
        arbitrary(ctx, h, "c", fills)
    gone = [repr(binning[i][1]) for i in range(len(binning)) if "keep" in cfg and i not in cfg["keep"]]
    if "keep" in cfg:
        want = without(ctx, labelled(ctx, h), gone)
        got = reduce(h)
    else:
        names = dict((repr(a[1]), i) for i, a in enumerate(profs))
        want = {}
        for k, c in labelled(ctx, h).items():
            d = dict((n, c[n]) for n in c if n in ("sumw", "sumw2"))
            for j, i in enumerate(i for i in range(len(profs)) if i not in cfg["drop"]):
                d["sumwx%d" % j], d["sumwx2%d" % j] = c["sumwx%d" % i], c["sumwx2%d" % i]
            want[k] = d
        got = reduce(h)
    ctx.check([repr(x) for x in got.axis] == [repr(mkaxis(ctx, a)) for a in left], "the remaining axes")
    checkcells(ctx, labelled(ctx, got), want, "sum over the removed axes" if "keep" in cfg else "the remaining columns")
    ctx.check(got._weightoriginal == h._weightoriginal and got._filteroriginal == h._filteroriginal, "weight and filter are kept")
    for key, arr in blocks(got).items():
        ctx.check(len(key) == len(got._group) and ctx.shape(arr) == tuple(got._shape), "contents have the shape of the axes")
    ctx.check(got._content is not None, "a filled histogram stays filled")
    if not got._group:
        ctx.check(list(blocks(got)) == [()], "a projection without sparse axes has an array for content")
    again = mk(ctx, cfg, left)
    again._content = got._content
    ctx.check(columns(again) == columns(got), "columns in the places a direct declaration has them")
