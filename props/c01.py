"""C01: on a fixed axis every value is counted in exactly the bin whose published interval contains it."""
from props.lib import *

BOUNDS = ("1 to 3 values per fill; axis parameters concrete per configuration (all combinations of underflow/overflow/nanflow/closedlow; 1 to 5 finite bins); "
          "values: every multiple of 2**-10 up to 2**20, every multiple of 2**-34 up to 4, integers up to 2**53 scaled by 2**{0,40,971}, NaN and both infinities; int64/int32/int8 arrays over their whole range; "
          "split edges symbolic (multiples of 1/16 in [-8,8])")
ASSUMPTIONS = ["CPython 3.12 evaluates the same Python source as PyPy; numpy is represented by the symbolic stand-in in sym/nparr.py (validated by replaying path witnesses on PyPy/numpy)",
               "IEEE rounding is over-approximated by its relative error bound; a value within 1e-12 of a non-representable edge may fall on either side"]
OPTS = {"witnesses": 4}

FLAGS = [(u, o, n, c) for u in (True, False) for o in (True, False) for n in (True, False) for c in (True, False)]


def configs(tier):
    out = []
    kinds = ["mid", "huge"]
    for p in ((7, 0.0, 3.0), (3, 0.0, 1.0), (5, -0.7, 2.3)):
        for o in (True, False):
            f = {"underflow": True, "overflow": o, "nanflow": True, "closedlow": True}
            out.append({"name": "bin %r %s fine" % (p, flagname(f)), "axis": ["bin", "x"] + list(p) + [f], "data": "fine", "n": 1, "kind": "bin", "params": list(p), "f": f})
    params = [(4, -1.0, 1.0), (3, 0.0, 1.0), (5, -0.7, 2.3)] if tier == "quick" else \
        [(4, -1.0, 1.0), (3, 0.0, 1.0), (5, -0.7, 2.3), (1, 0.0, 10.0), (7, 100.0, 100.5), (8, -4.0, 12.0), (2, -1e6, 1e6), (6, 0.1, 0.7)]
    for p in params:
        for (u, o, n, c) in FLAGS:
            f = {"underflow": u, "overflow": o, "nanflow": n, "closedlow": c}
            for k in kinds:
                if p != params[0] and k == "huge" and (u, o) != (True, True) and tier == "quick":
                    continue
                out.append({"name": "bin %r %s %s" % (p, flagname(f), k), "axis": ["bin", "x"] + list(p) + [f], "data": k, "n": 1, "kind": "bin", "params": list(p), "f": f})
    for (u, o, n, c) in FLAGS:
        f = {"underflow": u, "overflow": o, "nanflow": n, "closedlow": c}
        out.append({"name": "split sym edges %s" % flagname(f), "data": "mid", "n": 1, "kind": "split", "edges": 3, "f": f, "cost": 3, "seconds": 60})
        out.append({"name": "split [-1,0.3,2] %s huge" % flagname(f), "data": "huge", "n": 1, "kind": "split", "axis": ["split", "x", [-1.0, 0.3, 2.0], f], "f": f, "params": [-1.0, 0.3, 2.0]})
        if u or o:
            out.append({"name": "split one edge %s" % flagname(f), "data": "mid", "n": 1, "kind": "split", "edges": 1, "f": f})
    for u in (True, False):
        for o in (True, False):
            f = {"underflow": u, "overflow": o}
            for p in ((-1, 2), (5, 5), (0, 3)) if tier == "quick" else ((-1, 2), (5, 5), (0, 3), (-7, -3), (1000000, 1000004), (-2, 9)):
                for d in ("i8", "i4", "i1", "fint", "scalar"):
                    if p[1] > 100 and d == "i1":
                        continue
                    out.append({"name": "intbin %r %s %s" % (p, flagname(f), d), "axis": ["intbin", "x"] + list(p) + [f], "data": d, "n": 1, "kind": "intbin", "params": list(p), "f": f})
    for n in (1, 2, 3):
        out.append({"name": "cut bool n=%d" % n, "kind": "cut", "axis": ["cut", "p"], "n": n, "data": "bool"})
    out.append({"name": "cut x<c", "kind": "cutexpr", "n": 2, "data": "mid", "axis": ["cut", "x < 0.5"]})
    # several values at once: each value is treated on its own
    f = {"underflow": True, "overflow": True, "nanflow": True, "closedlow": True}
    g = {"underflow": False, "overflow": True, "nanflow": False, "closedlow": False}
    for ff in (f, g):
        out.append({"name": "bin 2 values %s" % flagname(ff), "axis": ["bin", "x", 2, 0.0, 2.0, ff], "data": "mid", "n": 2, "kind": "bin", "params": [2, 0.0, 2.0], "f": ff, "cost": 2})
        out.append({"name": "split 2 values %s" % flagname(ff), "axis": ["split", "x", [0.0, 1.0], ff], "data": "mid", "n": 2, "kind": "split", "params": [0.0, 1.0], "f": ff, "cost": 2})
    for ff in ({"underflow": True, "overflow": False}, {"underflow": False, "overflow": True}):
        out.append({"name": "intbin 3 values %s" % flagname(ff), "axis": ["intbin", "x", 0, 1, ff], "data": "i8", "n": 3, "kind": "intbin", "params": [0, 1], "f": ff, "cost": 2})
    # other input forms
    for form in ("list", "scalar", "f4int", "i8"):
        out.append({"name": "bin form %s" % form, "axis": ["bin", "x", 4, -1.0, 1.0, f], "data": form, "n": 1, "kind": "bin", "params": [4, -1.0, 1.0], "f": f})
        out.append({"name": "split form %s" % form, "axis": ["split", "x", [-1.0, 0.0, 1.0], f], "data": form, "n": 1, "kind": "split", "params": [-1.0, 0.0, 1.0], "f": f})
    return out


def flagname(f):
    return "".join(k[0].upper() if f.get(k) else "_" for k in ("underflow", "overflow", "nanflow", "closedlow") if k in f)


def data(ctx, cfg):
    d, n = cfg["data"], cfg["n"]
    if d in ("mid", "list"):
        xs = [ctx.real("x%d" % i, -2 ** 20, 2 ** 20, 10, nan=True, inf=True) for i in range(n)]
        return xs, (xs if d == "list" else ctx.array(xs))
    if d == "fine":
        xs = [ctx.real("x%d" % i, -4, 4, 34, nan=True) for i in range(n)]
        return xs, ctx.array(xs)
    if d == "scalar":
        if cfg["kind"] == "intbin":
            xs = [ctx.int("x0", -2 ** 63, 2 ** 63 - 1)]
            return xs, xs[0]
        xs = [ctx.real("x0", -2 ** 20, 2 ** 20, 10, nan=True, inf=True)]
        return xs, xs[0]
    if d == "huge":
        xs = []
        for i in range(n):
            e = ctx.choose("e%d" % i, [0, 40, 971])
            k = ctx.real("k%d" % i, -2 ** 53 + 1, 2 ** 53 - 1, 0)
            xs.append(k * float(2 ** e))
        return xs, ctx.array(xs)
    if d in ("i8", "i4", "i1"):
        b = {"i8": 64, "i4": 32, "i1": 8}[d]
        xs = [ctx.int("x%d" % i, -2 ** (b - 1), 2 ** (b - 1) - 1) for i in range(n)]
        return xs, ctx.array(xs, d)
    if d == "fint":
        xs = [ctx.real("x%d" % i, -2 ** 53, 2 ** 53, 0, nan=True, inf=True) for i in range(n)]
        return xs, ctx.array(xs)
    if d == "f4int":
        xs = [ctx.real("x%d" % i, -2 ** 20, 2 ** 20, 0) for i in range(n)]
        return xs, ctx.array(xs)
    if d == "bool":
        xs = [ctx.boolean("x%d" % i) for i in range(n)]
        return xs, ctx.array(xs)
    raise AssertionError(d)


def refkeys(cfg, edges):
    """documented bins, written down independently of the code: list of (low, high, closedlow, closedhigh) or 'nan' or int"""
    f = cfg["f"]
    if cfg["kind"] == "intbin":
        a, b = cfg["params"]
        return ([(-INF, a, True, False)] if f["underflow"] else []) + list(range(a, b + 1)) + ([(b, INF, False, True)] if f["overflow"] else [])
    if cfg["kind"] == "bin":
        n, a, b = cfg["params"]
        edges = [a + i * (b - a) / n for i in range(n)] + [b]
    c = f["closedlow"]
    return (([(-INF, edges[0], True, not c)] if f["underflow"] else []) + [(edges[i], edges[i + 1], c, not c) for i in range(len(edges) - 1)] +
            ([(edges[-1], INF, c, True)] if f["overflow"] else []) + (["nan"] if f["nanflow"] else []))


def run(ctx, cfg):
    xs, arr = data(ctx, cfg)
    if cfg["kind"] in ("cut", "cutexpr"):
        h = mkhist(ctx, [cfg["axis"]])
        keys = h.axis[0].keys()
        ctx.check(list(keys) == [False, True], "cut publishes its two bins as fail, pass")
        if cfg["kind"] == "cut":
            h.fill(p=arr)
            truth = xs
        else:
            h.fill(x=arr)
            truth = [ctx.lt(x, 0.5) for x in xs]
        ctx.check(ctx.same(h._content[1][0], ctx.sum(ctx.ite(t, 1.0, 0.0) for t in truth)), "passing entries are counted in the passing bin")
        ctx.check(ctx.same(h._content[0][0], ctx.sum(ctx.ite(t, 0.0, 1.0) for t in truth)), "failing entries are counted in the failing bin")
        return

    edges = None
    if "axis" not in cfg:
        edges = [ctx.real("edge%d" % i, -8, 8, 4) for i in range(cfg["edges"])]
        for a, b in zip(edges[:-1], edges[1:]):
            ctx.assume(ctx.lt(a, b))
        axis = ctx.hb.split("x", edges, **cfg["f"])
    else:
        axis = mkaxis(ctx, cfg["axis"])
        if cfg["kind"] == "split":
            edges = cfg["params"]
    h = ctx.hb.Hist(axis)
    h.fill(x=arr)
    keys = list(h.axis[0].keys())
    ref = refkeys(cfg, edges)
    content = h._content
    ctx.check(len(keys) == len(ref) == ctx.shape(content)[0], "one stored bin per documented bin")
    span = 1.0
    if cfg["kind"] == "bin":
        n, lo, hi = cfg["params"]
        span = max(abs(lo), abs(hi), hi - lo)
    exact = cfg["kind"] in ("split", "intbin") or (cfg["params"][0] in (1, 2, 4, 8) and all(v == int(v) for v in cfg["params"][1:]) and (cfg["params"][2] - cfg["params"][1]) in (1, 2, 4, 8, 16))
    eps = 0.0 if exact else 1e-12 * span
    for k, r in zip(keys, ref):
        if isinstance(r, int):
            ctx.check(k == r, "published key %r is the documented bin %r" % (k, r))
        elif r == "nan":
            ctx.check(isinstance(k, ctx.hb.axis.IntervalNaN), "published NaN bin")
        else:
            ctx.check(ctx.land(ctx.close(k.low, r[0], 1e-12, span), ctx.close(k.high, r[1], 1e-12, span), k.closedlow == r[2], k.closedhigh == r[3]),
                      "published interval is the documented one (%r)" % (None if edges is not None and ctx.issym(edges[0]) else r,))
    sure = [[inkey(ctx, x, k, eps)[0] for k in keys] for x in xs]
    maybe = [[inkey(ctx, x, k, eps)[1] for k in keys] for x in xs]
    for b, k in enumerate(keys):
        c = content[b][0]
        lo = ctx.sum(ctx.ite(s[b], 1.0, 0.0) for s in sure)
        hi = ctx.sum(ctx.ite(m[b], 1.0, 0.0) for m in maybe)
        name = "bin #%d" % b
        ctx.check(ctx.le(lo, c), "%s counts every value inside its interval" % name)
        ctx.check(ctx.le(c, hi), "%s counts only values inside its interval" % name)
    total = ctx.sum(content[b][0] for b in range(len(keys)))
    anysure = ctx.sum(ctx.ite(ctx.lor(*s), 1.0, 0.0) for s in sure)
    anymaybe = ctx.sum(ctx.ite(ctx.lor(*m), 1.0, 0.0) for m in maybe)
    ctx.check(ctx.land(ctx.le(anysure, total), ctx.le(total, anymaybe)), "every covered value is counted exactly once")
