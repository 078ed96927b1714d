"""C09: rebinning equals filling with the coarser binning."""
from props.lib import *

BOUNDS = ("1 to 2 entries of arbitrary value (multiples of 1/16, NaN, infinities; integers for intbin), weight and profiled value; bin (up to 4 bins), split (up to 4 edges), intbin (up to 5 values), groupbin axes in every flow/closure setting; "
          "every subset of the edges (and new edges that are themselves symbolic), every factor up to one more than the number of bins; other axes before and after (up to three group axes); arbitrary contents summed over unions of bins")
ASSUMPTIONS = ["bin edges are exactly representable; intbin axes are filled with integers", "a factor that does not divide the number of bins leaves a narrower last bin"]
OPTS = {"witnesses": 3}


def fname(f):
    return "".join(k[0].upper() if f.get(k) else "_" for k in ("underflow", "overflow", "nanflow", "closedlow") if k in f)


FLAGS = [{"underflow": u, "overflow": o, "nanflow": n, "closedlow": c} for u in (True, False) for o in (True, False) for n in (True, False) for c in (True, False)]


def subsets(xs):
    return [[x for i, x in enumerate(xs) if m >> i & 1] for m in range(1, 2 ** len(xs))]


def configs(tier):
    out = []
    for f in FLAGS:
        nm = fname(f)
        for kind, spec, edges in (("bin", ["bin", "x", 3, -1.0, 2.0, f], [-1.0, 0.0, 1.0, 2.0]), ("split", ["split", "x", [-1.0, 0.5, 2.0], f], [-1.0, 0.5, 2.0])):
            for es in subsets(edges):
                if len(es) == 1 and not (f["underflow"] or f["overflow"] or f["nanflow"]):
                    continue
                out.append({"name": "%s %s to %s" % (kind, nm, es), "axes": [spec], "edges": es, "coarse": ["split", "x", es, f], "n": 1})
            for factor in range(1, len(edges) + 1):
                es = edges[0:-1:factor] + edges[-1:]
                out.append({"name": "%s %s by %d" % (kind, nm, factor), "axes": [spec], "factor": factor, "coarse": ["split", "x", es, f], "n": 1})
            out.append({"name": "%s %s to symbolic edges" % (kind, nm), "axes": [spec], "symedges": 2, "n": 1, "f": f, "old": edges, "cost": 2})
    for c in (True, False):
        for n in (True, False):
            for o in (0.0, 0.5):
                f = {"nanflow": n, "closedlow": c, "origin": o}
                for factor in (1, 2, 3, 4):
                    for ne in (1, 2):
                        out.append({"name": "groupbin %s origin %s by %d n=%d" % (fname(f), o, factor, ne), "axes": [["groupbin", "x", 1.0, f]], "factor": factor, "coarse": ["groupbin", "x", 1.0 * factor, f], "n": ne, "range": 6 if ne == 1 else 4})
    for w, o in ((0.1, 0.0), (0.1, 0.3), (0.3, 0.0), (0.7, -0.2)):
        for factor in (2, 3, 5):
            out.append({"name": "groupbin width %g origin %g by %d, entries mid-bin" % (w, o, factor), "k": "mid", "w": w, "o": o, "factor": factor})
    for c in (True, False):
        f = {"closedlow": c}
        out.append({"name": "groupbin width 1/8 %s by 3" % fname(f), "axes": [["groupbin", "x", 0.125, f]], "factor": 3, "coarse": ["groupbin", "x", 0.375, f], "n": 1, "range": 1})
        out.append({"name": "groupby+groupbin+cut %s by 2" % fname(f), "axes": [["groupby", "g"], ["groupbin", "x", 1.0, f], ["cut", "p"], ["profile", "z"]], "factor": 2, "coarse": ["groupbin", "x", 2.0, f], "n": 2, "range": 2, "w": True})
        out.append({"name": "groupbin+groupby %s by 2" % fname(f), "axes": [["groupbin", "x", 1.0, f], ["groupby", "g"], ["profile", "z"]], "factor": 2, "coarse": ["groupbin", "x", 2.0, f], "n": 2, "range": 2, "w": True})
    for u in (True, False):
        for o in (True, False):
            f = {"underflow": u, "overflow": o}
            g = dict(f, nanflow=False)
            for es in ([-0.5, 3.5], [-0.5, 1.5, 3.5], [0.5, 2.5], [-0.5, 0.5, 2.5], [1.5, 2.5, 3.5]):
                out.append({"name": "intbin %s to %s" % (fname(f), es), "axes": [["intbin", "x", 0, 3, f]], "edges": es, "coarse": ["split", "x", es, g], "n": 1})
            for factor in (1, 2, 3, 4, 5):
                es = [-0.5, 0.5, 1.5, 2.5, 3.5]
                es = es[0:-1:factor] + es[-1:]
                out.append({"name": "intbin %s by %d" % (fname(f), factor), "axes": [["intbin", "x", 0, 3, f]], "factor": factor, "coarse": ["split", "x", es, g], "n": 1})
    B = ["bin", "x", 3, -1.0, 2.0]
    for nm, axes in (("cut+bin", [["cut", "p"], B]), ("bin+cut", [B, ["cut", "p"]]), ("bin+profile", [B, ["profile", "z"]]), ("groupby+bin", [["groupby", "g"], B]), ("bin+groupby+cut", [B, ["groupby", "g"], ["cut", "p"]]),
                     ("split+bin+profile", [["split", "y", [0.0, 1.0]], B, ["profile", "z"]])):
        for w in (True, False):
            out.append({"name": "%s to edges w=%s" % (nm, w), "axes": axes, "edges": [-1.0, 1.0], "coarse": ["split", "x", [-1.0, 1.0]], "n": 1, "w": w, "fork": True})
            out.append({"name": "%s by 2 w=%s" % (nm, w), "axes": axes, "factor": 2, "coarse": ["split", "x", [-1.0, 1.0, 2.0]], "n": 1, "w": w, "fork": True})
            out.append({"name": "%s arbitrary contents w=%s" % (nm, w), "axes": axes, "edges": [-1.0, 1.0], "arb": True, "w": w})
            out.append({"name": "%s arbitrary contents by 2 w=%s" % (nm, w), "axes": axes, "factor": 2, "newedges": [-1.0, 1.0, 2.0], "arb": True, "w": w})
    D = [["groupby", "g"], ["groupby", "g2"], ["groupby", "g3"], ["cut", "p"]]
    for nm, axes, new in (("three groups+cut+bin", D + [B], [-1.0, 1.0, 2.0]), ("three groups+bin", D[:3] + [B, ["profile", "z"]], [-1.0, 1.0, 2.0])):
        out.append({"name": "%s arbitrary contents by 2" % nm, "axes": axes, "factor": 2, "newedges": new, "arb": True})
        out.append({"name": "%s arbitrary contents" % nm, "axes": axes, "edges": [-1.0, 1.0], "arb": True})
    for nm, axes in (("three groups, groupbin last", D[:2] + [["groupbin", "x", 1.0], ["cut", "p"], ["profile", "z"]]), ("three groups, groupbin in the middle", [D[0], ["groupbin", "x", 1.0], D[2], ["cut", "p"]])):
        out.append({"name": "%s by 2" % nm, "axes": axes, "factor": 2, "coarse": ["groupbin", "x", 2.0], "n": 2, "range": 2, "w": True})
    out.append({"name": "addressing", "k": "address"})
    out.append({"name": "refused", "k": "refused"})
    out.append({"name": "unfilled", "k": "unfilled"})
    if tier == "thorough":
        for c in list(out):
            if "n" in c and c["n"] < 2:
                out.append(dict(c, name=c["name"] + " n=2", n=2, fork=True, seconds=150))
    return out


def entry(ctx, cfg, i):
    e = {}
    r = cfg.get("range", 4)
    for a in cfg["axes"]:
        n = a[1]
        if a[0] == "groupby":
            e[n] = ctx.choose("%s%d" % (n, i), ["a", "b"])
        elif a[0] == "cut":
            e[n] = ctx.boolean("p%d" % i)
        elif a[0] == "intbin":
            e[n] = ctx.int("x%d" % i, -5, 8)
        elif a[0] == "profile" or n == "y":
            e[n] = ctx.real("%s%d" % (n, i), -4, 4, 2)
        elif cfg.get("factor") == 3 and a[0] == "groupbin":
            # not on an edge: whether x/3 is rounded up to one is C02's business
            e[n] = ctx.real("%s%d" % (n, i), -r, r, 4, nan=True, inf=True) + 0.03125
        else:
            e[n] = ctx.real("%s%d" % (n, i), -r, r, 4, nan=True, inf=True)
    if cfg.get("w"):
        e["w"] = ctx.real("w%d" % i, -4, 4, 2)
    return e


def inside(ctx, k, big):
    """is the published bin k a part of the published bin big?"""
    N = ctx.hb.axis.IntervalNaN
    if isinstance(k, N) or isinstance(big, N):
        return isinstance(k, N) and isinstance(big, N)
    return big.low <= k.low and k.high <= big.high


def run(ctx, cfg):
    hb = ctx.hb
    k = cfg.get("k")
    if k == "address":
        h = arbitrary(ctx, hb.Hist(hb.cut("p"), hb.bin("x + y", 4, 0.0, 4.0)), "a")
        want = h.rebin(h.axis[1], [0.0, 2.0, 4.0])
        for how in ("x + y", "y + x", 1, hb.bin("x + y", 4, 0.0, 4.0)):
            checksame(ctx, h.rebin(how, (0.0, 2.0, 4.0)), want, "rebin addressed by %r" % (how,))
            checksame(ctx, h.rebinby(how, 2), want, "rebinby addressed by %r" % (how,))
            checksame(ctx, h.rebinby(how, ctx.np.int64(2)), want, "rebinby addressed by %r" % (how,))
        checksame(ctx, h.rebin("x + y", [4, 0, 2]), want, "edges in any order")
        return
    if k == "mid":
        # widths that are not exactly representable, entries in the middle of the bins: no rounding is close enough to matter
        w, o, factor = cfg["w"], cfg["o"], cfg["factor"]
        m = [ctx.choose("m0", list(range(-9, 12))), ctx.choose("m1", [-4, 0, 3, 7])] + ([30, -27, 21, 22, -14, 40, 2, -50, 51] if factor == 3 else [])
        h = hb.Hist(hb.groupbin("x", w, origin=o))
        h.fill(x=ctx.array([o + (j + 0.5) * w for j in m]))
        got = h.rebinby("x", factor)
        want = {}
        for j in m:
            want[j // factor] = want.get(j // factor, 0) + 1
        ax = got.axis[0]
        ctx.check(abs(ax.binwidth - w * factor) < 1e-12, "the new width")
        keys = list(got._content)
        ctx.check(len(keys) == len(want) and all(not isinstance(kk, str) for kk in keys), "one new bin per group of old bins")
        for g, n in want.items():
            near = [kk for kk in keys if abs(kk - (o + g * factor * w)) < 1e-9]
            ctx.check(len(near) == 1 and ctx.eq(got._content[near[0]][0], float(n)), "the new bin %d holds the entries of the old bins inside it" % g)
        return
    if k == "refused":
        h = arbitrary(ctx, hb.Hist(hb.groupbin("b", 1.0), hb.bin("x", 2, 0.0, 2.0), hb.cut("p"), hb.profile("z")), "a", [{"b": ctx.array([0.5]), "x": ctx.array([0.5]), "p": ctx.array([True]), "z": ctx.array([0.5])}])
        before = frozen(ctx, h)
        for what, fn in (("an edge inside a bin", lambda: h.rebin("x", [0.0, 1.5])), ("an edge outside", lambda: h.rebin("x", [0.0, 3.0])), ("unknown axis", lambda: h.rebin("y", [0.0])), ("cut axis", lambda: h.rebin("p", [0.0])),
                         ("groupbin by edges", lambda: h.rebin("b", [0.0, 2.0])), ("profile", lambda: h.rebinby("z", 2)), ("cut by factor", lambda: h.rebinby("p", 2)), ("factor 0", lambda: h.rebinby("x", 0)), ("factor -1", lambda: h.rebinby("x", -1)),
                         ("fractional factor", lambda: h.rebinby("x", 1.5)), ("unknown axis", lambda: h.rebinby("y", 2)), ("other binning", lambda: h.rebinby(hb.bin("x", 3, 0.0, 2.0), 2)), ("no edges", lambda: h.rebin("x", []))):
            raises(ctx, fn, (IndexError, ValueError, TypeError), "%s is refused" % what)
            checkfrozen(ctx, h, before, "refused rebinning (%s) changes nothing" % what)
        return
    if k == "unfilled":
        for h, r in ((hb.Hist(hb.bin("x", 2, 0.0, 2.0)), lambda h: h.rebin("x", [0.0, 2.0])), (hb.Hist(hb.groupbin("x", 1.0)), lambda h: h.rebinby("x", 2)), (hb.Hist(hb.intbin("x", 0, 1)), lambda h: h.rebinby("x", 2))):
            g = r(h)
            ctx.check(g._content is None, "rebinning an unfilled histogram leaves it unfilled")
            h._prefill()
            ctx.check(all(ctx.decide(ctx.eq(v, 0.0)) for c in cells(ctx, r(h)).values() for v in c.values()), "rebinning an empty histogram leaves it empty")
        return
    opts = {"weight": "w"} if cfg.get("w") else {}
    h = mkhist(ctx, cfg["axes"], **opts)
    if cfg.get("arb"):
        e = dict((a[1], "a" if a[0] == "groupby" else True if a[0] == "cut" else 0.5) for a in cfg["axes"])
        e["w"] = 1.0
        fills = [dict((n, ctx.array([v])) for n, v in e.items())]
        if any(a[0] == "groupby" for a in cfg["axes"]):
            fills.append(dict(fills[0], g=ctx.array(["b"])))
        arbitrary(ctx, h, "c", fills)
        got = h.rebin("x", cfg["edges"]) if "edges" in cfg else h.rebinby("x", cfg["factor"])
        axis = [x for x in got._fixed if x.expr == "x"][0]
        newedges = cfg.get("edges", cfg.get("newedges"))
        keys = list(axis.keys())
        ctx.check([key.low for key in keys if key.low == key.low][1:] == newedges, "the new edges are the ones asked for")
        old = [x for x in h._fixed if x.expr == "x"][0]
        want = {}
        names = dict((repr(o), repr([n for n in keys if inside(ctx, o, n)][0])) for o in old.keys())
        for lab, c in labelled(ctx, h, types=False).items():
            lab = tuple((a, names[b]) if a == repr("x") else (a, b) for a, b in lab)
            want[lab] = dict((n, want[lab][n] + c[n]) for n in c) if lab in want else c
        checkcells(ctx, labelled(ctx, got, types=False), want, "each new bin is the sum of the old bins inside it")
        return
    if cfg.get("fork"):
        ctx.fork_index()
    es = [entry(ctx, cfg, i) for i in range(cfg["n"])]
    data = dict((n, ctx.array([e[n] for e in es])) for n in es[0])
    h.fill(data)
    if "symedges" in cfg:
        ts = [ctx.real("t%d" % i, -2, 3, 14) for i in range(cfg["symedges"])]
        for a, b in zip(ts, ts[1:]):
            ctx.assume(ctx.lt(a, b))
        isedge = ctx.land(*[ctx.lor(*[ctx.eq(t, e) for e in cfg["old"]]) for t in ts])
        try:
            got = h.rebin("x", ts)
        except ValueError:
            ctx.check(ctx.lnot(isedge), "existing edges are accepted")
            return
        ctx.check(isedge, "edges that do not coincide with old edges are refused")
        ref = hb.Hist(hb.split("x", ts, **cfg["f"]))
        ref.fill(data)
        checksame(ctx, got, ref, "equals direct filling")
        return
    got = h.rebin("x", cfg["edges"]) if "edges" in cfg else h.rebinby("x", cfg["factor"])
    ref = mkhist(ctx, [cfg["coarse"] if a[1] == "x" else a for a in cfg["axes"]], **opts)
    ref.fill(data)
    checkcells(ctx, labelled(ctx, got, types=False), labelled(ctx, ref, types=False), "equals direct filling")
    ctx.check([x.expr for x in got.axis] == [x.expr for x in ref.axis], "axes keep their order")
    gk = [list(x.keys()) for x in got._fixed]
    ctx.check([[repr(y) for y in x] for x in gk] == [[repr(y) for y in x.keys()] for x in ref._fixed], "published bins are those of the coarser axis")
    for key, arr in blocks(got).items():
        ctx.check(ctx.shape(arr) == tuple(got._shape), "contents have the shape of the axes")
    ctx.check(set(blocks(got)) == set(blocks(ref)), "same categories as direct filling")
    more = {"x": ctx.array([1]), "y": ctx.array([0.5]), "w": ctx.array([2.0]), "g": ctx.array(["a"]), "g2": ctx.array(["a"]), "g3": ctx.array(["b"]), "p": ctx.array([True]), "z": ctx.array([1.5])}
    got.fill(more)
    ref.fill(more)
    checkcells(ctx, labelled(ctx, got, types=False), labelled(ctx, ref, types=False), "equals direct filling, also after a further fill")
