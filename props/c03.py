"""C03: every bin's content is the exact weighted sum over the entries that belong to it."""
from props.lib import *

BOUNDS = ("1 to 3 entries per histogram, every value symbolic: axis values multiples of 1/16 in [-8,8], NaN and infinities; weights multiples of 1/16 in [-8,8], NaN or infinite; single entries also with weights and profile values of 2**-24 in [-2,2]; "
          "profile values multiples of 1/16 in [-8,8]; int8/int16 data over their whole range; histograms of 0 to 3 axes out of bin, split, intbin, cut, groupby, groupbin plus 0 to 2 profiles; "
          "weight absent, constant, a field, an expression; filter absent or present; two fills; two entries in a histogram of 40000 bins")
ASSUMPTIONS = ["sums of the bounded inputs are exactly representable, so 'exact' means equality",
               "NaN and infinite profile values are outside the property"]
OPTS = {"witnesses": 4}

F = {"underflow": True, "overflow": True, "nanflow": True}
M = {"underflow": False, "overflow": False, "nanflow": False}

B = ["bin", "x", 2, 0.0, 2.0, F]
BU = ["bin", "x", 2, 0.0, 2.0, {"underflow": False, "overflow": True, "nanflow": False}]
BM = ["bin", "x", 2, 0.0, 2.0, M]
S = ["split", "y", [0.0, 1.0], F]
SM = ["split", "y", [0.0, 1.0], M]
I = ["intbin", "i", 0, 1, {"underflow": True, "overflow": False}]
C = ["cut", "y > 0.5"]
G = ["groupby", "g"]
N = ["groupbin", "z", 1.0, 0.0, {"nanflow": False}]
NN = ["groupbin", "z", 1.0, 0.0, {"nanflow": True}]
P = ["profile", "p"]
Q = ["profile", "q"]

# weight name -> (constructor argument, value function)
WEIGHTS = {
    "none": (None, lambda v: 1.0),
    "2": (2, lambda v: 2.0),
    "-0.5": (-0.5, lambda v: -0.5),
    "1.5": (1.5, lambda v: 1.5),
    "0": (0, lambda v: 0.0),
    "w": ("w", lambda v: v["w"]),
    "w*w": ("w*w", lambda v: v["w"] * v["w"]),
    "p": ("p", lambda v: v["p"]),
    "p*q": ("p*q", lambda v: v["p"] * v["q"]),
    "3 + w": ("3 + w", lambda v: 3.0 + v["w"]),
}


def configs(tier):
    out = []

    def add(axes, w="none", f=None, n=2, **kw):
        nm = "+".join(a[0] + ("" if a[-1] is not M else "(masked)") + ("" if a[0] != "profile" else a[1]) for a in axes) or "no axis"
        c = {"name": "%s weight=%s filter=%s n=%d %s" % (nm, w, f, n, " ".join("%s=%s" % (k, v) for k, v in sorted(kw.items()) if k not in ("cost", "seconds", "fork"))),
             "axes": axes, "w": w, "f": f, "n": n}
        c.update(kw)
        out.append(c)
    ws = list(WEIGHTS)
    for w in ws:
        if w in ("p", "p*q"):
            for f in (None, "t > 0"):
                add([BM, P] + ([Q] if w == "p*q" else []), w, f, n=1 if w == "p*q" else 2)
                add([P, Q] if w == "p*q" else [P, P], w, f)
            continue
        if w in ("1.5", "0") and tier == "quick":
            for f in (None, "t > 0"):
                add([], w, f, n=1)
                add([BM, P], w, f)
            continue
        for f in (None, "t > 0"):
            add([], w, f, n=1)
            add([P], w, f, n=2)
            add([P, Q], w, f, n=2)
            add([B], w, f, n=1)
            add([BM], w, f, n=1 if w == "3 + w" else 2)
            add([SM, P], w, f)
            add([BM, P, Q], w, f)
            add([G, P], w, f)
    for w in ("none", "2", "w"):
        for f in (None, "t > 0 and t < 2"):
            add([BU, C], w, f)
            add([BM, S], w, f)
            add([BM, SM, P], w, f, cost=3)
            add([I], w, f)
            add([I, P], w, f)
            add([C], w, f)
            add([C, P, Q], w, f)
            add([G], w, f)
            add([G, BU], w, f)
            add([G, BM, P], w, f, cost=3)
            add([N], w, f)
            add([NN, C], w, f)
            add([N, BM, P], w, f, cost=5)
            add([G, N], w, f, cost=2)
            add([G, ["groupby", "k"]], w, f, n=2)
            add([G, ["groupby", "k"], C, P], w, f, n=2)
    add([G, ["groupby", "k"]], "w", None, n=3)
    add([B], "w", None, n=2, cost=4, fork=True)
    add([G, B], "w", None, n=2, cost=8, fork=True)
    if tier == "thorough":
        add([B], "w", None, n=3, cost=4, fork=True)
        for w in ws:
            for f in (None, "t > 0"):
                add([B], w, f, n=2, cost=2, fork=True)
    add([G, ["groupby", "k"], ["groupby", "l"]], "none", None, n=3)
    add([G, ["groupby", "k"], ["groupby", "l"], P], "w", None, n=2)
    for axes in ([C, I, BM], [BM, SM, C], [BU, C, I, P], [G, C, I, SM]):
        add(axes, "w" if axes[-1] is P else "none", None, n=1)
        if tier == "thorough" or axes[0] is BM:
            add(axes, "none" if axes[-1] is P else "w", None, n=2, cost=5)
    out.append({"name": "many bins 200x200", "many": "bin", "n": 200, "cost": 9})
    out.append({"name": "many bins groupby+split 200", "many": "split", "n": 200, "cost": 9})
    out.append({"name": "many bins intbin 40000", "many": "intbin", "n": 40000, "cost": 9})
    add([C, P], "w", None, n=3)
    add([], "none", None, n=3)
    add([BM, P], "w", "t > 0", n=2, fills=[1, 1])
    add([G, C], "w", None, n=2, fills=[1, 1])
    add([G, P], "none", None, n=3, fills=[1, 2])
    # narrow integers and other element types must not wrap around or lose precision
    for d in ("i1", "i2", "i4", "bool"):
        add([C, P], "2", None, n=2, pdt=d)
        if d != "bool":
            add([C, P], "w", None, n=2, wdt=d)
        add([P], "none", None, n=2, pdt=d)
        add([C], "w", None, n=2, wdt=d)
    add([C, P], "w", "t > 0", n=2, pdt="i8", wdt="i8")
    # values that need more than single precision
    for w in ("w", "none", "2"):
        for axes in ([C], [P], [C, P], [G, P], []):
            if w == "w" or P in axes:
                add(axes, w, None, n=1, fine=True)
    add([C], "w", None, n=2, fine=True)
    add([C], "3 + w", None, n=1, fine=True)
    # an infinite weight is a weight
    for axes in ([], [C], [BM], [G, C]):
        for f in (None, "t > 0"):
            add(axes, "w", f, n=1, infw=True)
    if tier == "thorough":
        for w in ws:
            for f in (None, "t > 0", "t > 0 or y < 1", "not t > 0"):
                for axes in ([B, S], [B, I], [S, C, P], [BM, SM, P, Q], [G, BM, SM, P], [NN, SM, P], [G, N, C, P], [G, ["groupby", "k"], BM]):
                    add(axes, w, f, cost=4)
        for axes in ([BM, P], [G, BM], [SM, P, Q], [G, ["groupby", "k"], ["groupby", "l"]]):
            add(axes, "w", "t > 0", n=3, cost=9)
    seen, res = set(), []
    for c in out:
        if c["name"] not in seen:
            seen.add(c["name"])
            res.append(c)
    return res


def fieldvalue(ctx, name, i, cfg):
    nm = "%s%d" % (name, i)
    if name in ("g", "k", "l"):
        return ctx.choose(nm, ["a", "b"])
    if name == "i":
        return ctx.int(nm, -2, 3)
    if name in ("p", "q", "w"):
        dt = cfg.get("wdt" if name == "w" else "pdt")
        if dt == "bool":
            return ctx.boolean(nm)
        if dt is not None:
            b = {"i1": 8, "i2": 16, "i4": 18, "i8": 18}[dt]
            return ctx.int(nm, -2 ** (b - 1), 2 ** (b - 1) - 1)
        if cfg.get("fine") and name == ("w" if "w" in cfg["w"] else "p"):
            return ctx.real(nm, -2, 2, 24, nan=(name == "w"))
        return ctx.real(nm, -8, 8, 4, nan=(name == "w"), inf=(name == "w" and bool(cfg.get("infw"))))
    if name == "t":
        return ctx.real(nm, -8, 8, 4)
    if name == "z":
        return ctx.real(nm, -2, 2, 4, nan=True)
    return ctx.real(nm, -8, 8, 4, nan=True, inf=True)


DT = {"i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64"}

FILTERS = {
    "t > 0": lambda ctx, v: ctx.lt(0, v["t"]),
    "t > 0 and t < 2": lambda ctx, v: ctx.land(ctx.lt(0, v["t"]), ctx.lt(v["t"], 2)),
    "t > 0 or y < 1": lambda ctx, v: ctx.lor(ctx.lt(0, v["t"]), ctx.lt(v["y"], 1)),
    "not t > 0": lambda ctx, v: ctx.lnot(ctx.lt(0, v["t"])),
}


def many(ctx, cfg):
    """more bins than a narrow index could number"""
    hb, n = ctx.hb, cfg["n"]
    ctx.fork_index()
    w = ctx.real("w", -8, 8, 4)
    if cfg["many"] == "bin":
        h = hb.Hist(hb.bin("x", n, 0, n), hb.bin("y", n, 0, n), weight="w")
        x, y = ctx.choose("x", [-1.0, 0.5, n - 0.5, n + 5.0]), ctx.choose("y", [0.5, n - 0.5, n + 5.0])
        h.fill(x=ctx.array([x, 3.5]), y=ctx.array([y, n - 1.5]), w=ctx.array([w, 1.0]))
        spots = [(i, j) for i in (0, 1, 4, n, n + 1, n + 2) for j in (0, 1, n - 1, n, n + 1, n + 2)]
        at = lambda i, j: ctx.land(ctx.eq(i, ctx.np.floor(x) + 1 if not ctx.decide(ctx.lt(n, x)) else n + 1), ctx.eq(j, ctx.np.floor(y) + 1 if not ctx.decide(ctx.lt(n, y)) else n + 1))
        other = (4, n - 1)
    elif cfg["many"] == "split":
        h = hb.Hist(hb.groupby("g"), hb.split("x", [float(i) for i in range(n + 1)]), hb.intbin("y", 0, n - 1), weight="w")
        x, y = ctx.choose("x", [-1.0, 0.5, n - 0.5, n + 5.0]), ctx.choose("y", [0.0, n - 1.0, n + 5.0])
        h.fill(x=ctx.array([x, 3.5]), y=ctx.array([y, n - 2.0]), w=ctx.array([w, 1.0]), g=ctx.array(["a", "a"]))
        spots = [(i, j) for i in (0, 1, 4, n, n + 1, n + 2) for j in (0, 1, n - 1, n, n + 1)]
        at = lambda i, j: ctx.land(ctx.eq(i, ctx.np.floor(x) + 1 if not ctx.decide(ctx.lt(n, x)) else n + 1), ctx.eq(j, y + 1 if not ctx.decide(ctx.lt(n, y)) else n + 1))
        other = (4, n - 1)
    else:
        h = hb.Hist(hb.intbin("x", 0, n - 1), weight="w")
        x = ctx.choose("x", [-1, 0, n - 1, n + 5])
        h.fill(x=ctx.array([x, n - 2]), w=ctx.array([w, 1.0]))
        spots = [(i,) for i in (0, 1, n - 1, n, n + 1)]
        at = lambda i: ctx.eq(i, x + 1 if not ctx.decide(ctx.lt(n, x)) else n + 1)
        other = (n - 1,)
    content = h._content["a"] if cfg["many"] == "split" else h._content
    for s in spots:
        want = ctx.sum([ctx.ite(at(*s), w, 0.0), 1.0 if s == other else 0.0])
        ctx.check(ctx.same(content[s + (h._sumwindex,)], want), "bin %r holds the sum of the weights of its entries" % (s,))


def run(ctx, cfg):
    if cfg.get("many"):
        return many(ctx, cfg)
    axes, n = cfg["axes"], cfg["n"]
    if len([a for a in axes if a[0] in ("bin", "split", "intbin", "cut")]) > 1 or cfg.get("fork"):
        ctx.fork_index()
    wspec, wfun = WEIGHTS[cfg["w"]]
    h = mkhist(ctx, axes, weight=wspec, filter=cfg["f"])
    fields = list(h.fields)
    need = sorted(set(fields) | set(a[1] for a in axes if a[0] != "cut") | (set("y") if any(a[0] == "cut" for a in axes) else set())
                  | (set("w") if "w" in cfg["w"] else set()) | (set("t") if cfg["f"] else set()) | (set("y") if cfg["f"] and "y" in cfg["f"] else set()))
    vals = [dict((f, fieldvalue(ctx, f, i, cfg)) for f in need) for i in range(n)]

    def arr(f, sub):
        dt = cfg.get("wdt") if f == "w" else cfg.get("pdt") if f in ("p", "q") else None
        return ctx.array([v[f] for v in sub], DT.get(dt))
    pos = 0
    if not fields:
        n = 1
        h.fill(other=ctx.array([vals[0].get("x", 0.0)]))
        vals = vals[:1]
    else:
        for k in cfg.get("fills", [n]):
            h.fill(dict((f, arr(f, vals[pos:pos + k])) for f in need))
            pos += k

    # ---- oracle
    gaxes = [a for a in axes if a[0] in ("groupby", "groupbin")]
    faxes = [a for a in axes if a[0] in ("bin", "split", "intbin", "cut")]
    paxes = [a for a in axes if a[0] == "profile"]

    def num(x):
        return ctx.ite(x, 1.0, 0.0) if cfg.get("pdt") == "bool" or cfg.get("wdt") == "bool" else x * 1.0
    weights = []
    for v in vals:
        vv = dict(v)
        if "w" in vv and cfg.get("wdt"):
            vv["w"] = num(vv["w"])
        w = wfun(vv)
        w = ctx.ite(ctx.isnan(w), 0.0, w)
        if cfg["f"]:
            w = ctx.ite(FILTERS[cfg["f"]](ctx, v), w, 0.0)
        weights.append(w)
    profs = [[num(v[a[1]]) if cfg.get("pdt") else v[a[1]] for a in paxes] for v in vals]

    def gmatch(a, x, key):
        if a[0] == "groupby":
            return x == key
        if key == "NaN":
            return ctx.isnan(x)
        return ctx.land(ctx.le(key, x), ctx.lt(x, key + 1.0))

    def fmatch(j, a, v, idx):
        if a[0] == "cut":
            t = ctx.lt(0.5, v["y"])
            return t if idx == 1 else ctx.lnot(t)
        return inkey(ctx, v[a[1]], fkeys[j][idx])[0]
    fkeys = [ax.keys() for ax in h._fixed]
    got = cells(ctx, h)
    cols = columns(h)
    ctx.check(("sumw2" in cols) == (wspec is not None or cfg["f"] is not None), "squared weights are kept exactly when weights or a filter are given")
    ng = len(gaxes)
    for key, c in got.items():
        ms = []
        for v in vals:
            m = [gmatch(a, v[a[1]], key[j]) for j, a in enumerate(gaxes)] + [fmatch(j, a, v, key[ng + j]) for j, a in enumerate(faxes)]
            ms.append(ctx.land(*m))
        ctx.check(ctx.same(c["sumw"], ctx.sum(ctx.ite(m, w, 0.0) for m, w in zip(ms, weights))), "bin %r holds the sum of the weights of its entries" % (key[ng:],))
        if "sumw2" in c:
            ctx.check(ctx.same(c["sumw2"], ctx.sum(ctx.ite(m, w * w, 0.0) for m, w in zip(ms, weights))), "bin %r holds the sum of the squared weights of its entries" % (key[ng:],))
        for j in range(len(paxes)):
            ctx.check(ctx.same(c["sumwx%d" % j], ctx.sum(ctx.ite(m, w * p[j], 0.0) for m, w, p in zip(ms, weights, profs))), "bin %r holds the weighted sum of profile %d" % (key[ng:], j))
            ctx.check(ctx.same(c["sumwx2%d" % j], ctx.sum(ctx.ite(m, w * p[j] * p[j], 0.0) for m, w, p in zip(ms, weights, profs))), "bin %r holds the weighted sum of squares of profile %d" % (key[ng:], j))
    if ng:
        keys = list(blocks(h))
        for v in vals:
            dropped = [ctx.isnan(v[a[1]]) for a in gaxes if a[0] == "groupbin" and not a[-1].get("nanflow", True)]
            ctx.check(ctx.lor(*(dropped + [ctx.land(*[gmatch(a, v[a[1]], k[j]) for j, a in enumerate(gaxes)]) for k in keys])), "every entry has its group")
