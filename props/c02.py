"""C02: sparse axes (groupby, groupbin) hold exactly one entry per category / bin seen, with the right counts."""
from props.lib import *

BOUNDS = ("1 to 3 values per fill, up to two fills; groupby keys: every multiple of 1/16 in [-8,8] or infinity, int64, bool, strings from {'', 'a', 'b'}; "
          "groupbin values: every multiple of 2**-6 in [-64,64], NaN, infinities; bin widths {0.5, 1, 2, 3, 0.1} and origins {0, 0.25, 1, 4, -1, -2}, both closures, nanflow on and off; up to three nested group axes with three categories each, on top of up to six categories filled before; one symbolic entry among 150 different ones")
ASSUMPTIONS = ["NaN as a groupby category is outside the property (NaN is not equal to itself)",
               "with a bin width that is not a power of two a value within 1e-12 of an edge may fall on either side"]
OPTS = {"witnesses": 4}


def configs(tier):
    out = []
    for kind in ("float", "int", "bool", "str"):
        for n in (1, 2, 3):
            out.append({"name": "groupby %s n=%d" % (kind, n), "k": "groupby", "data": kind, "n": n, "fills": [n]})
        out.append({"name": "groupby %s fills 1+2" % kind, "k": "groupby", "data": kind, "n": 3, "fills": [1, 2]})
    out.append({"name": "groupby 150 categories", "k": "many", "axis": "groupby", "n": 150, "cost": 5})
    out.append({"name": "groupbin 150 bins", "k": "many", "axis": "groupbin", "n": 150, "cost": 5})
    out.append({"name": "groupbin 150 bins with NaN", "k": "many", "axis": "groupbin", "n": 150, "nan": True, "cost": 5})
    for levels in (["groupby", "groupby"], ["groupby", "groupbin"], ["groupbin", "groupby"], ["groupby", "groupby", "groupby"], ["groupbin", "groupbin", "groupby"]):
        for fills in ([3], [1, 2], [2, 1]) if len(levels) == 2 else ([2], [1, 1]):
            out.append({"name": "nested %s fills=%s" % ("+".join(levels), fills), "k": "nested", "levels": levels, "fills": fills, "n": sum(fills), "cost": 3})
    for levels in (["groupby"], ["groupbin"], ["groupby", "groupby"], ["groupbin", "groupby"]):
        out.append({"name": "refill %s" % "+".join(levels), "k": "nested", "levels": levels, "fills": [1], "n": 1, "before": 6})
        if len(levels) == 2:
            out.append({"name": "refill two %s" % "+".join(levels), "k": "nested", "levels": levels, "fills": [2], "n": 2, "before": 5, "dense": True, "cost": 3})
    pars = [(0.5, 0.0), (1.0, 0.25), (3.0, 0.0), (2.0, -1.0), (1.0, 1.0), (0.5, 4.0), (2.0, -2.0)] if tier == "quick" else [(0.5, 0.0), (1.0, 0.25), (3.0, 0.0), (0.1, 0.0), (2.0, -1.0), (10.0, 0.5), (0.75, 0.125), (1.0, 1.0), (0.5, 4.0), (2.0, -2.0), (0.3, 0.3)]
    for w, o in pars:
        for nf in (True, False):
            for cl in (True, False):
                for fills in ([1], [2], [1, 1], [3]):
                    if fills == [3] and (tier == "quick" and (w, o) != (0.5, 0.0)):
                        continue
                    if len(fills) > 1 and (o < 0 or o >= w) and tier == "quick":
                        continue
                    out.append({"name": "groupbin w=%g o=%g nan=%d closedlow=%d fills=%s" % (w, o, nf, cl, fills), "k": "groupbin", "w": w, "o": o, "nf": nf, "cl": cl,
                                "fills": fills, "n": sum(fills), "cost": sum(fills)})
        out.append({"name": "groupbin w=%g o=%g ints" % (w, o), "k": "groupbin", "w": w, "o": o, "nf": True, "cl": True, "fills": [2], "n": 2, "ints": True})
    return out


def many(ctx, cfg):
    """more categories than a narrow index could number; one further entry is symbolic"""
    n = cfg["n"]
    x = ctx.choose("x", [-5, 0, n // 2, n - 1, n + 50])
    vals = [float(i) for i in range(n)] + [x * 1.0] + ([NAN] if cfg.get("nan") else [])
    h = ctx.hb.Hist(ctx.hb.groupby("x") if cfg["axis"] == "groupby" else ctx.hb.groupbin("x", 1.0))
    h.fill(x=ctx.array(vals))
    h.fill(x=ctx.array(vals[:n]))
    keys = list(h._content)
    for k in keys:
        if isinstance(k, str):
            ctx.check(bool(cfg.get("nan")) and ctx.eq(h._content[k][0], 1.0), "the NaN entry is in the NaN bin")
        else:
            ctx.check(ctx.eq(h._content[k][0], ctx.sum([ctx.ite(ctx.eq(k, x), 1.0, 0.0), ctx.ite(ctx.land(ctx.le(0, k), ctx.lt(k, n)), 2.0, 0.0)])), "a category's count is the number of its entries")
    ctx.check(ctx.eq(ctx.sum([h._content[k][0] for k in keys]), 2.0 * n + 1 + (1 if cfg.get("nan") else 0)), "every entry is counted exactly once")


def nested(ctx, cfg):
    """several group levels, several fills, categories that are there already: one count per combination of categories"""
    levels, n = cfg["levels"], cfg["n"]
    names = ["g", "k", "l"][:len(levels)]

    def options(kind):
        return ["a", "b", "c"] if kind == "groupby" else [0.5, 1.5, -2.5]

    def key(kind, v):
        return v if kind == "groupby" else float(ctx.np.floor(v))
    h = ctx.hb.Hist(*[ctx.hb.groupby(f) if kind == "groupby" else ctx.hb.groupbin(f, 1.0) for f, kind in zip(names, levels)])
    rows = []
    if cfg.get("before"):
        m = cfg["before"]
        old = [tuple("abcdefgh"[(i + j) % m] if kind == "groupby" else (i + j) % m - 2.5 for j, kind in enumerate(levels)) for i in range(m)]
        if cfg.get("dense"):
            old = [(a[0], b[1]) for a in old[:2] for b in old]
        h.fill(dict((f, ctx.array([r[j] for r in old])) for j, f in enumerate(names)))
        rows += old
    pos = len(rows)
    rows += [tuple(ctx.choose("%s%d" % (f, i), options(kind)[:2 if len(levels) > 2 else 3]) for f, kind in zip(names, levels)) for i in range(n)]
    for k in cfg["fills"]:
        h.fill(dict((f, ctx.array([r[j] for r in rows[pos:pos + k]])) for j, f in enumerate(names)))
        pos += k
    want = {}
    for r in rows:
        kk = tuple(str(key(kind, v)) for kind, v in zip(levels, r))
        want[kk] = want.get(kk, 0) + 1
    got = dict((tuple(str(x) for x in kk), arr) for kk, arr in blocks(h).items())
    for kk, arr in got.items():
        # a combination that never occurs may be there with a zero count (the outer category meets every inner category of a fill)
        if kk not in want:
            ctx.check(all(x in [r[j] for r in want] for j, x in enumerate(kk)) and ctx.eq(arr[0], 0.0), "a combination without entries counts nothing")
    for kk, c in want.items():
        ctx.check(kk in got and ctx.eq(got[kk][0], float(c)), "a combination's count is the number of its entries: %r" % (kk,))
    for j, (kind, f) in enumerate(zip(levels, names)):
        pub = sorted(set(str(x if kind == "groupby" else x.low) for x in h.axis[j].keys(h.project(f)._content)))
        ctx.check(pub == sorted(set(kk[j] for kk in want)), "an axis publishes exactly the categories seen")


def run(ctx, cfg):
    if cfg["k"] == "many":
        return many(ctx, cfg)
    if cfg["k"] == "nested":
        return nested(ctx, cfg)
    n = cfg["n"]
    if cfg["k"] == "groupby":
        d = cfg["data"]
        if d == "float":
            xs = [ctx.real("x%d" % i, -8, 8, 4, inf=True) for i in range(n)]
        elif d == "int":
            xs = [ctx.int("x%d" % i, -2 ** 63, 2 ** 63 - 1) for i in range(n)]
        elif d == "bool":
            xs = [ctx.boolean("x%d" % i) for i in range(n)]
        else:
            xs = [ctx.choose("x%d" % i, ["a", "b", ""]) for i in range(n)]
        h = ctx.hb.Hist(ctx.hb.groupby("x"))
        pos = 0
        for k in cfg["fills"]:
            h.fill(x=ctx.array(xs[pos:pos + k]))
            pos += k
        eq = (lambda a, b: a == b) if d == "str" else ctx.eq
        if d == "bool":
            eq = ctx.iff
        keys = list(h._content)
        for k in keys:
            ctx.check(ctx.same(h._content[k][0], ctx.sum(ctx.ite(eq(x, k), 1.0, 0.0) for x in xs)), "a category's count is the number of entries equal to it")
        for x in xs:
            ctx.check(ctx.lor(*[eq(x, k) for k in keys]), "every entry has a category")
        for i in range(len(keys)):
            for j in range(i):
                ctx.check(ctx.lnot(eq(keys[i], keys[j])), "categories are distinct")
            ctx.check(ctx.lor(*[eq(x, keys[i]) for x in xs]), "no category without an entry")
        pub = h.axis[0].keys(h._content)
        ctx.check(len(pub) == len(keys), "published keys are the categories")
        for a, b in zip(pub[:-1], pub[1:]):
            ctx.check(ctx.lt(a, b) if d != "str" and d != "bool" else True, "published keys are sorted")
        return

    w, o = cfg["w"], cfg["o"]
    if cfg.get("ints"):
        xs = [ctx.int("x%d" % i, -1000, 1000) for i in range(n)]
    else:
        xs = [ctx.real("x%d" % i, -64, 64, 6, nan=True, inf=True) for i in range(n)]
    h = ctx.hb.Hist(ctx.hb.groupbin("x", w, o, nanflow=cfg["nf"], closedlow=cfg["cl"]))
    pos = 0
    for k in cfg["fills"]:
        h.fill(x=ctx.array(xs[pos:pos + k]))
        pos += k
    exact = w in (0.25, 0.5, 1.0, 2.0, 4.0)
    eps = 0.0 if exact else 1e-12 * 64
    keys = list(h._content)
    nums = [k for k in keys if not isinstance(k, str)]
    strs = [k for k in keys if isinstance(k, str)]
    ctx.check(strs in ([], ["NaN"]), "the only non-numeric key is the NaN bin")
    nans = ctx.sum(ctx.ite(ctx.isnan(x), 1.0, 0.0) for x in xs)
    if cfg["nf"]:
        ctx.check(ctx.same(h._content["NaN"][0] if strs else 0.0, nans), "NaN entries are counted in the NaN bin")
    else:
        ctx.check(not strs, "no NaN bin when it is switched off")
    low = lambda a, b: ctx.le(a, b) if cfg["cl"] else ctx.lt(a, b)
    high = lambda a, b: ctx.lt(a, b) if cfg["cl"] else ctx.le(a, b)

    def member(x, k, tol):
        if tol > 0:
            inside = ctx.land(ctx.le(k - tol, x), ctx.le(x, k + w + tol))
        elif tol < 0:
            inside = ctx.land(ctx.lt(k - tol, x), ctx.lt(x, k + w + tol))
        else:
            inside = ctx.land(low(k, x), high(x, k + w))
        return ctx.lor(ctx.land(ctx.isfinite(k), inside, ctx.isfinite(x)), ctx.land(ctx.isinf(x), ctx.eq(x, k)))
    for k in nums:
        c = h._content[k][0]
        lo = ctx.sum(ctx.ite(member(x, k, -eps), 1.0, 0.0) for x in xs)
        hi = ctx.sum(ctx.ite(member(x, k, eps), 1.0, 0.0) for x in xs)
        ctx.check(ctx.land(ctx.le(lo, c), ctx.le(c, hi)), "a bin's count is the number of entries in [key, key + width)")
        ctx.check(ctx.lt(0.5, c), "no bin without an entry")
        m = (k - o) / w if exact else None
        if m is not None and ctx.decide(ctx.isfinite(k)):
            ctx.check(ctx.eq(m, ctx.np.floor(m)), "keys are origin + integer * width")
    total = ctx.sum([h._content[k][0] for k in nums])
    ctx.check(ctx.same(total, ctx.sum(ctx.ite(ctx.isnan(x), 0.0, 1.0) for x in xs)), "every non-NaN entry is counted exactly once")
    for i in range(len(nums)):
        for j in range(i):
            ctx.check(ctx.lnot(ctx.eq(nums[i], nums[j])), "bins are distinct")
    pub = h.axis[0].keys(h._content)
    ctx.check(len(pub) == len(keys), "one published interval per stored bin")
    for p in pub:
        if isinstance(p, ctx.hb.axis.IntervalNaN):
            ctx.check(len(strs) == 1, "NaN interval published only for a NaN bin")
        else:
            hit = [ctx.land(ctx.eq(p.low, k), ctx.same(p.high, k + w), p.closedlow == cfg["cl"], p.closedhigh == (not cfg["cl"])) for k in nums]
            ctx.check(ctx.lor(*hit), "published interval is [key, key + width) with the axis's closure")
