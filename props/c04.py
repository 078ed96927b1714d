"""C04: filling is additive; chunking, order and calling style do not matter."""
from props.lib import *

BOUNDS = ("2 or 3 entries, every value symbolic (multiples of 1/16 in [-8,8], NaN, infinities; weights and profile values finite; strings from {a,b}); every split into one to four consecutive chunks including empty ones; "
          "every permutation of the entries; 10 calling styles; histograms over bin, split, intbin, cut, groupby, groupbin, profile, weight and filter, and a book of two histograms; 1031 entries at once (thorough: 9001) of which one is symbolic")
ASSUMPTIONS = ["sums of the bounded inputs are exactly representable, so equality is exact; beyond the grid, results may differ by rounding of the sums"]
OPTS = {"witnesses": 3}

FULL = {"underflow": True, "overflow": True, "nanflow": True}
M = {"underflow": False, "overflow": False, "nanflow": False}
HISTS = {
    "bin": ([["bin", "x", 2, 0.0, 2.0, {"underflow": True, "overflow": False, "nanflow": True}]], {}, ["x"]),
    "split+w": ([["split", "x", [0.0, 1.0], {"underflow": False, "overflow": True, "nanflow": False}]], {"weight": "w"}, ["w", "x"]),
    "cut+p+w": ([["cut", "x > 0"], ["profile", "p"]], {"weight": "w"}, ["p", "w", "x"]),
    "cut+2*w+f": ([["cut", "x > 0"]], {"weight": 2, "filter": "p > 1"}, ["p", "x"]),
    "intbin": ([["intbin", "i", 0, 1]], {}, ["i"]),
    "groupby+w": ([["groupby", "g"]], {"weight": "w"}, ["g", "w"]),
    "groupby+cut+p": ([["groupby", "g"], ["cut", "x > 0"], ["profile", "p"]], {}, ["g", "p", "x"]),
    "groupbin": ([["groupbin", "z", 1.0, 0.0]], {}, ["z"]),
    "groupbin nonan": ([["groupbin", "z", 0.5, 0.0, {"nanflow": False}]], {"weight": "w"}, ["w", "z"]),
    "bin masked+p": ([["bin", "x", 1, 0.0, 2.0, M], ["profile", "p"]], {}, ["p", "x"]),
    "no axis+w": ([], {"weight": "w"}, ["w"]),
    "no axis+p": ([["profile", "p"]], {}, ["p"]),
    "expr": ([["cut", "x + p > 0"]], {"weight": "w*p"}, ["p", "w", "x"]),
    "double groupby": ([["groupby", "g"], ["groupby", "k"]], {"weight": "w"}, ["g", "k", "w"]),
}


def partitions(n):
    out = [[0, n], [n, 0], [0, n, 0]]
    for i in range(1, n):
        out.append([i, n - i])
        for j in range(i + 1, n):
            out.append([i, j - i, n - j])
    return out


STYLES = ["dict", "kwargs", "mixed", "list", "tuple", "extra", "pandas", "constructor", "consts", "npconsts", "book"]


def configs(tier):
    out = []
    for name in HISTS:
        n = 2 if tier == "quick" and name in ("expr",) else 3
        for p in partitions(n):
            out.append({"name": "%s chunks %s" % (name, p), "h": name, "k": "chunks", "n": n, "p": p})
        for perm in ([1, 0], ) if n == 2 else ([1, 0, 2], [2, 1, 0], [1, 2, 0]):
            out.append({"name": "%s order %s" % (name, perm), "h": name, "k": "order", "n": n, "p": perm})
        for s in STYLES:
            if s == "consts" and len(HISTS[name][2]) == 1:
                continue
            out.append({"name": "%s style %s" % (name, s), "h": name, "k": "style", "n": 2, "s": s})
        out.append({"name": "%s book chunks" % name, "h": name, "k": "bookchunks", "n": 2, "p": [1, 1]})
        out.append({"name": "%s scalars" % name, "h": name, "k": "style", "n": 1, "s": "scalars"})
        for L in ((1030,) if tier == "quick" else (1030, 9000)):
            out.append({"name": "%s %d entries, 1 of them symbolic" % (name, L), "h": name, "k": "long", "n": 1, "L": L, "cost": 5})
    for w in ("none", "number", "symbol"):
        for how in ("nothing", "dict", "mixed", "book"):
            out.append({"name": "no fields, weight %s, fill %s" % (w, how), "h": w, "k": "nofields", "s": how})
    out.append({"name": "constants of several types", "k": "types"})
    return out


def nofields(ctx, cfg):
    """histograms of constants only: every fill with nothing counts one entry"""
    hb = ctx.hb
    c = ctx.real("c", -4, 4, 2)
    opts = {"none": {}, "number": {"weight": 2.5}, "symbol": {"weight": "c + 1", "defs": {"c": c}}}[cfg["h"]]
    wt = {"none": 1.0, "number": 2.5, "symbol": c + 1.0}[cfg["h"]]
    for axes in ([hb.bin("1.5", 2, 0, 2)], [hb.bin("1.5", 2, 0, 2), hb.profile("3")], [hb.split("0.5", [0, 1])]):
        h = hb.Hist(*axes, **opts)
        how = cfg["s"]
        b = hb.Book(u=h, v=hb.Hist(hb.intbin("1", 0, 2)))
        for i in range(3):
            if how == "nothing":
                h.fill()
            elif how == "dict":
                h.fill({})
            elif how == "book":
                b.fill({})
            elif i == 1:
                h.fill({}, other=ctx.array([1.0]))
            else:
                h.fill()
        want = 3.0 * wt
        got = cells(ctx, h)
        ctx.check(ctx.same(ctx.sum(x["sumw"] for x in got.values()), want), "every fill of a histogram of constants counts one entry")
        top = [x for k, x in got.items() if k == ((2,) if len(axes) == 2 or "bin" in repr(axes[0]) else (1,))]
        ctx.check(len(top) == 1 and ctx.same(top[0]["sumw"], want), "in the bin of the constant")
        if "sumw2" in top[0]:
            ctx.check(ctx.same(top[0]["sumw2"], 3.0 * wt * wt), "with its squared weight")
        if how == "book":
            ctx.check(ctx.same(ctx.sum(x["sumw"] for x in cells(ctx, b["v"]).values()), 3.0), "the other histogram counts too")


PATTERN = {"g": ["a", "b", "c"], "k": ["u", "v"], "i": [-1, 0, 1, 5, 1], "w": [1.0, 0.5, -2.0, 0.25], "p": [1.0, 2.0, 0.5], "z": [0.25, NAN, -1.0, 7.5], "x": [0.5, -3.0, INF, 1.0, NAN, 1.5, 1.25]}


def types(ctx, cfg):
    """a constant counts like as many equal values, whatever its type"""
    hb = ctx.hb
    x = ctx.real("x", -4, 4, 2)
    p = ctx.boolean("p")
    for v in (2**53 + 1, 3, -7, 2.5, True, "abc", "a somewhat longer category name"):
        for axes in ([hb.groupby("g")], [hb.groupby("g"), hb.bin("x", 2, 0, 2)], [hb.cut("p"), hb.groupby("g")]):
            one, two, three = hb.Hist(*axes), hb.Hist(*axes), hb.Hist(*axes)
            xs = ctx.array([x, 0.5, 1.5])
            one.fill(x=xs, p=p, g=v)
            two.fill(x=xs, p=ctx.array([p, p, p]), g=[v, v, v])
            three.fill(x=xs, p=p, g=ctx.np.array(v))
            if len(axes) == 1 or axes[0].expr == "p":
                # x is not needed there: a single row
                two = hb.Hist(*axes)
                two.fill(p=ctx.array([p]), g=[v])
            checksame(ctx, one, two, "%r as a constant" % (v,))
            checksame(ctx, three, two, "%r as an array of no dimensions" % (v,))
            ctx.check(len(one.groupkeys("g")) == 1 and all(k == v for k in one.groupkeys("g")), "the category of the constant %r" % (v,))


def long(ctx, cfg):
    """many entries at once: the sum over single-entry fills of the distinct ones"""
    axes, opts, fields = HISTS[cfg["h"]]
    L = cfg["L"]
    rows = [dict((f, PATTERN[f][i % len(PATTERN[f])]) for f in fields) for i in range(L)]
    # group keys are chosen from a list: a dict does not see that a symbolic key equals a concrete one
    sym = dict((f, ctx.choose("z0", [-1.0, 0.0, 0.75, 3.0, 7.5, NAN, INF]) if f == "z" else value(ctx, f, 0)) for f in fields)
    cols = dict((f, [r[f] for r in rows]) for f in fields)
    for f in fields:
        cols[f].insert(L - 7, sym[f])
    one = mkhist(ctx, axes, **opts)
    one.fill(dict((f, ctx.array(cols[f])) for f in fields))
    two = mkhist(ctx, axes, **opts)
    kinds = {}
    for r in rows:
        kinds.setdefault(repr(sorted(r.items())), [r, 0])[1] += 1
    for r, count in kinds.values():
        part = mkhist(ctx, axes, **opts)
        part.fill(dict((f, ctx.array([r[f]])) for f in fields))
        two += part * float(count)
    part = mkhist(ctx, axes, **opts)
    part.fill(dict((f, ctx.array([sym[f]])) for f in fields))
    two += part
    checksame(ctx, one, two, "%d entries at once and one by one" % (L + 1))


def value(ctx, f, i):
    nm = "%s%d" % (f, i)
    if f in ("g", "k"):
        return ctx.choose(nm, ["a", "b"])
    if f == "i":
        return ctx.int(nm, -2, 3)
    if f in ("w", "p"):
        return ctx.real(nm, -8, 8, 4)
    if f == "z":
        return ctx.real(nm, -1, 1, 4, nan=True)
    return ctx.real(nm, -8, 8, 4, nan=True, inf=True)


def run(ctx, cfg):
    if cfg["k"] == "long":
        return long(ctx, cfg)
    if cfg["k"] == "types":
        return types(ctx, cfg)
    if cfg["k"] == "nofields":
        return nofields(ctx, cfg)
    axes, opts, fields = HISTS[cfg["h"]]
    new = lambda **kw: mkhist(ctx, axes, **dict(opts, **kw))
    n = cfg["n"]
    const = cfg.get("s") in ("consts", "npconsts")
    vals = []
    for i in range(n):
        v = dict((f, value(ctx, f, i)) for f in fields if not (const and i > 0 and f != fields[0]))
        if const and i > 0:
            for f in fields[1:]:
                v[f] = vals[0][f]
        vals.append(v)

    def cols(sub):
        return dict((f, ctx.array([v[f] for v in sub], None if sub else ("U1" if f in "gk" else "float64"))) for f in fields)
    one = new()
    one.fill(cols(vals))
    two = new()
    if cfg["k"] == "chunks":
        pos = 0
        for k in cfg["p"]:
            two.fill(cols(vals[pos:pos + k]))
            pos += k
    elif cfg["k"] == "order":
        two.fill(cols([vals[i] for i in cfg["p"]]))
    elif cfg["k"] == "bookchunks":
        other = ctx.hb.Hist(ctx.hb.profile("7 * %s" % ("x" if "x" in fields else fields[-1]))) if not set(fields) & set("gk") else new()
        b = ctx.hb.Book(a=two, other=other)
        pos = 0
        for k in cfg["p"]:
            b.fill(cols(vals[pos:pos + k]))
            pos += k
    else:
        c = cols(vals)
        s = cfg["s"]
        if s == "dict":
            two.fill(arrays=dict(c))
        elif s == "kwargs":
            two.fill(**c)
        elif s == "mixed":
            kw = {fields[-1]: c.pop(fields[-1])}
            if not c:
                c = {"unused": ctx.array([0.0] * n)}
            two.fill(c, **kw)
        elif s in ("list", "tuple"):
            t = list if s == "list" else tuple
            two.fill(dict((f, t(v[f] for v in vals)) for f in fields))
        elif s == "extra":
            two.fill(dict(c, unused=ctx.array([1.0] * (n + 1)), other="text"))
        elif s == "pandas":
            class Column(object):
                def __init__(self, values):
                    self.values = values

            class DataFrame(object):
                columns = list(c)

                def __getitem__(self, name):
                    return Column(c[name])
            DataFrame.__module__ = "pandas.core.frame"
            two.fill(DataFrame())
        elif s == "constructor":
            two = new(fill=c)
        elif s == "consts":
            two.fill(dict([(fields[0], c[fields[0]])] + [(f, vals[0][f]) for f in fields[1:]]))
        elif s == "npconsts":
            two.fill(dict([(fields[0], c[fields[0]])] + [(f, c[f][0] if f in "gk" else ctx.np.array(vals[0][f])) for f in fields[1:]]))
        elif s == "scalars":
            two.fill(dict((f, vals[0][f]) for f in fields))
        elif s == "book":
            ctx.hb.Book(a=two).fill(c)
    checksame(ctx, one, two, "same data, %s" % cfg["name"])
    if cfg.get("s") == "constructor" and len(fields) == 1 and len(axes) == 1 and not opts:
        three = new(fill=ctx.array([v[fields[0]] for v in vals]))
        checksame(ctx, one, three, "same data given to the constructor as a single array")
