"""C19: equality, hashing and ordering are consistent."""
import itertools

from props import c12
from props.lib import *

BOUNDS = ("triples of intervals with arbitrary edges (also infinite and NaN intervals) and every combination of closed ends; pairs and triples of constants that are arbitrary integers, numbers or booleans, alone and inside relations, calls, sums, products and logical expressions; all pairs and triples of 70 expressions; "
          "pairs of axes of every kind with arbitrary parameters and every combination of options; the histograms of C12 with every option changed, one at a time, and arbitrary contents; books of all kinds that differ in one name, histogram, number or attachment")
ASSUMPTIONS = ["no NaN among edges, constants and contents (NaN is not equal to itself)", "constants in expressions are numbers, strings or sets of one kind", "whether differently written but equivalent expressions are equal is C10/C11", "histograms and books cannot be hashed, intervals are only ordered among each other"]
OPTS = {"witnesses": 3}
OPTS_QUICK = {"budget_s": 120}

AXES = ["groupby", "groupbin", "bin", "intbin", "split", "cut", "profile"]
WRAP = {
    "constant": lambda E, c: E.Const(c),
    "broadcast": lambda E, c: E.BroadcastConst(None, c),
    "named": lambda E, c: E.BroadcastConst("n", c),
    "relation": lambda E, c: E.Relation("<", E.Name("x"), E.Const(c)),
    "left": lambda E, c: E.Relation("==", E.Const(c), E.Name("x")),
    "call": lambda E, c: E.Call("numpy.sqrt", E.Const(c), E.Name("x")),
    "sum": lambda E, c: E.PlusMinus(c, (E.Name("x"),), ()),
    "product": lambda E, c: E.TimesDiv(c, (E.Name("x"),), (E.Name("y"),)),
    "deep": lambda E, c: E.PlusMinus(0, (E.TimesDiv(c, (E.Name("x"),), ()),), ()),
    "and": lambda E, c: E.LogicalAnd(E.Relation("<", E.Name("x"), E.Const(c)), E.Predicate("p")),
    "or": lambda E, c: E.LogicalOr(E.LogicalAnd(E.Relation("<", E.Name("x"), E.Const(c))), E.LogicalAnd(E.Predicate("p"))),
}
TEXTS = ["x", "y", "1", "2", "2.5", "x + y", "x + 1", "x - y", "y - x", "x + 2*y", "x*y", "x/y", "y/x", "2*x", "2*x*y", "x**2", "x**3", "x**y", "-x", "sqrt(x)", "sqrt(y)", "sin(x)", "sqrt(x + y)", "arctan2(y, x)", "arctan2(x, y)", "hypot(x, y)", "max(x, y)",
         "x < y", "y < x", "x <= y", "x == y", "x != y", "x < 1", "x < 2", "1 < x", "x == 1", "p", "not p", "p and q", "p or q", "p and not q", "x < y and p", "x < y or p", "x < 1 and y < 2", "x < 1 or y < 2", "p and q or r", "p and (q or r)", "x < y and y < z",
         "x in {1, 2}", "x in {1, 3}", "x in {1}", "x in {'a'}", "x in {'a', 1}", "x not in {1, 2}", "x == 'a'", "x == 'b'", "x + y + z", "x*y*z", "x*y + z", "(x + y)*z", "x % y", "x // y", "abs(x)", "x*x*x - y", "sqrt(x)*sqrt(y)", "sqrt(x*y)", "x + sqrt(y)", "log(x)", "exp(x) + 1", "exp(x + 1)", "1/x"]


def configs(tier):
    out = []
    for a, b, c in itertools.combinations_with_replacement(["finite", "under", "over", "nan"], 3):
        for f in range(4):
            out.append({"name": "intervals %s %s %s %d" % (a, b, c, f), "k": "interval", "kinds": [a, b, c], "flags": f})
    for w in sorted(WRAP):
        for kinds in itertools.combinations_with_replacement(["real", "int"] + (["bool"] if w in ("constant", "relation", "call") else []), 3):
            out.append({"name": "%s %s" % (w, " ".join(kinds)), "k": "const", "wrap": w, "kinds": list(kinds)})
    out.append({"name": "intervals of equal numbers", "k": "zeros"})
    out.append({"name": "expressions", "k": "texts"})
    out.append({"name": "constants", "k": "fixed"})
    for a in AXES:
        out.append({"name": "axis %s" % a, "k": "axis", "axis": a})
    out.append({"name": "axes of all kinds", "k": "axes"})
    for n in c12.NAMES:
        out.append({"name": "histogram %s" % n, "k": "hist", "h": n})
        out.append({"name": "contents %s" % n, "k": "contents", "h": n})
    out.append({"name": "histograms differ", "k": "differ"})
    for b in ("Book", "GenericBook", "ViewBook", "ChannelsBook", "SystematicsBook"):
        out.append({"name": "book %s" % b, "k": "book", "b": b})
    return out


def run(ctx, cfg):
    return globals()["t_" + cfg["k"]](ctx, cfg)


def laws(ctx, xs, same, msg, order=True, hashed=True):
    """xs: objects; same(i, j): whether they should be equal"""
    n = len(xs)
    eq = [[bool(a == b) for b in xs] for a in xs]
    for i in range(n):
        for j in range(n):
            m = "%s: %s and %s" % (msg, i, j)
            want = same(i, j)
            ctx.check(want if eq[i][j] else ctx.lnot(want), "%s are %sequal" % (m, "" if eq[i][j] else "not "))
            ctx.check(bool(xs[i] != xs[j]) != eq[i][j], "%s: != is the opposite of ==" % m)
            if hashed and eq[i][j]:
                ctx.check(hash(xs[i]) == hash(xs[j]), "%s: equal but different hashes" % m)
    if hashed:
        ctx.check(len(set(xs)) == len([i for i in range(n) if not any(eq[i][j] for j in range(i))]), "%s: members of a set" % msg)
    if not order:
        return
    lt = [[bool(a < b) for b in xs] for a in xs]
    for i in range(n):
        for j in range(n):
            m = "%s: %s and %s" % (msg, i, j)
            ctx.check((1 if lt[i][j] else 0) + (1 if lt[j][i] else 0) + (1 if eq[i][j] else 0) == 1, "%s: exactly one of <, > and ==" % m)
            ctx.check(bool(xs[i] > xs[j]) == lt[j][i], "%s: > is the reverse of <" % m)
            ctx.check(bool(xs[i] <= xs[j]) == (lt[i][j] or eq[i][j]), "%s: <= is < or ==" % m)
            ctx.check(bool(xs[i] >= xs[j]) == (lt[j][i] or eq[i][j]), "%s: >= is > or ==" % m)
            for k in range(n):
                if lt[i][j] and lt[j][k]:
                    ctx.check(lt[i][k], "%s: %s < %s < %s" % (msg, i, j, k))
                if lt[i][j] and eq[j][k]:
                    ctx.check(lt[i][k], "%s: %s < %s == %s" % (msg, i, j, k))
    if n <= 3:
        ref = sorted(xs)
        for p in itertools.permutations(xs):
            got = sorted(p)
            ctx.check(all(bool(a == b) for a, b in zip(ref, got)), "%s: sorting depends on the order given" % msg)


def t_interval(ctx, cfg):
    ctx.ideal()
    A = ctx.hb.axis
    xs, parts = [], []
    for i, k in enumerate(cfg["kinds"]):
        if k == "nan":
            xs.append(A.IntervalNaN())
            parts.append(None)
            continue
        lo = -INF if k == "under" else ctx.real("lo%d" % i, -2, 2, 1)
        hi = INF if k == "over" else ctx.real("hi%d" % i, -2, 2, 1)
        if k == "finite":
            ctx.assume(ctx.le(lo, hi))
        # every combination of ends for the first two, two for the third
        cl = bool((cfg["flags"] >> (i % 2)) & 1)
        ch = ctx.decide(ctx.boolean("closed%d" % i))
        xs.append(A.Interval(lo, hi, closedlow=cl, closedhigh=ch))
        parts.append((lo, hi, cl, ch))

    def same(i, j):
        a, b = parts[i], parts[j]
        if a is None or b is None:
            return a is b
        return ctx.land(ctx.eq(a[0], b[0]), ctx.eq(a[1], b[1]), a[2] == b[2], a[3] == b[3])
    laws(ctx, xs, same, "intervals")
    for i in range(3):
        for j in range(3):
            a, b = parts[i], parts[j]
            if a is not None and b is not None:
                ctx.check(ctx.implies(ctx.land(ctx.le(a[1], b[0]), ctx.lt(a[0], b[0])), bool(xs[i] < xs[j])), "an interval below another comes first")
            elif a is not None:
                ctx.check(xs[i] < xs[j], "NaN comes last")
    for x in xs:
        for o in (None, 0, "a", (1, 2)):
            ctx.check(not (x == o) and x != o, "an interval is not %r" % (o,))


def t_zeros(ctx, cfg):
    """numbers that are equal but look different"""
    A = ctx.hb.axis
    lo, hi = [0, 0.0, -0.0, -1, -1.0, False, -INF], [1, 1.0, True, 2, 2.0, INF, 10 ** 20, 1e20]
    vs = [(a, b) for a in lo for b in hi]
    laws(ctx, [A.Interval(a, b) for a, b in vs[::2] + vs[1::6]], lambda i, j: (vs[::2] + vs[1::6])[i] == (vs[::2] + vs[1::6])[j], "intervals")
    hb = ctx.hb
    for mk in (lambda z: hb.bin("x", 2, z, 1), lambda z: hb.split("x", [z, 1]), lambda z: hb.groupbin("x", 1, origin=z)):
        xs = [mk(z) for z in (0, 0.0, -0.0)]
        laws(ctx, xs, lambda i, j: True, "axes from zero", order=False)


def number(ctx, name, kind):
    if kind == "real":
        return ctx.real(name, -2, 2, 1)
    if kind == "int":
        return ctx.int(name, -2, 2)
    return ctx.decide(ctx.boolean(name))


def t_const(ctx, cfg):
    ctx.ideal()
    E = ctx.hb.expr
    vs = [number(ctx, "c%d" % i, k) for i, k in enumerate(cfg["kinds"])]
    xs = [WRAP[cfg["wrap"]](E, v) for v in vs]

    def same(i, j):
        return ctx.eq(vs[i] if ctx.issym(vs[i]) else vs[i] * 1, vs[j] if ctx.issym(vs[j]) else vs[j] * 1)
    laws(ctx, xs, same, cfg["name"], hashed=all(k == cfg["kinds"][0] for k in cfg["kinds"]))


def t_fixed(ctx, cfg):
    E = ctx.hb.expr
    vs = [0, 1, 2, -1, 0.5, 2.0, -1.0, 1.0, 1.5, True, False, "a", "b", "", set([1, 2]), set([1]), set([2, 3]), set(["a"]), set([1, "a"]), 10 ** 20, 1e20, 1e300]
    for w in sorted(WRAP):
        use = [v for v in vs if not (isinstance(v, (set, str)) and w in ("sum", "product", "deep", "broadcast", "named"))]
        if w in ("and", "or", "deep"):
            use = use[::2] + ([1] if use[1] == 1 else [])
        xs = [WRAP[w](E, v) for v in use]
        laws(ctx, xs, lambda i, j: bool(use[i] == use[j]), "%s %r" % (w, use))
    names = [E.Name("x"), E.Name("y"), E.Predicate("x"), E.Predicate("x", positive=False), E.Predicate("y"), E.Const("x"), E.BroadcastConst("x", 1), E.BroadcastConst("y", 1), E.BroadcastConst(None, 1), E.BroadcastConst("x", 2), E.Const(1), E.Call("x"), E.Call("x", E.Name("y"))]
    laws(ctx, names, lambda i, j: i == j, "names")


def t_texts(ctx, cfg):
    """all pairs and triples; built twice to be equal, built differently to differ"""
    E = ctx.hb.expr.Expr
    xs = [E.parse(t) for t in TEXTS]
    ys = [E.parse(t) for t in TEXTS]
    laws(ctx, xs, lambda i, j: i == j, "expressions")
    for i, (a, b) in enumerate(zip(xs, ys)):
        ctx.check(a == b and b == a and not (a != b) and hash(a) == hash(b) and not (a < b) and not (b < a), "the same expression twice: %s" % TEXTS[i])
    ref = sorted(xs)
    for k in range(1, 8):
        ctx.check(sorted(xs[k * 7:] + xs[:k * 7]) == ref and sorted(xs[::-1]) == ref, "sorting depends on the order given")
    for x in xs:
        for o in (None, 0, "x", ()):
            ctx.check(not (x == o) and x != o, "an expression is not %r" % (o,))


def params(ctx, kind, tag):
    """arbitrary parameters of an axis"""
    def flag(n):
        return ctx.decide(ctx.boolean(n + tag))
    e = ctx.choose("expr" + tag, ["x", "y"])
    if kind in ("groupby", "cut", "profile"):
        return [e], {}
    if kind == "groupbin":
        return [e, ctx.real("width" + tag, 1, 2, 1)], {"origin": ctx.real("origin" + tag, -1, 1, 1), "nanflow": flag("nan"), "closedlow": flag("closed")}
    if kind == "intbin":
        return [e, ctx.int("min" + tag, -2, 0), ctx.int("max" + tag, 1, 2)], {"underflow": flag("under"), "overflow": flag("over")}
    if kind == "bin":
        return [e, 2 + ctx.choose("numbins" + tag, [0, 1]), ctx.real("low" + tag, -1, 0, 1), ctx.real("high" + tag, 1, 2, 1)], {"underflow": flag("under"), "overflow": flag("over"), "nanflow": flag("nan"), "closedlow": flag("closed")}
    return [e, [ctx.real("e0" + tag, -1, 0, 1), ctx.real("e1" + tag, 1, 2, 1)][:ctx.choose("edges" + tag, [1, 2])]], {"underflow": flag("under"), "overflow": flag("over"), "nanflow": flag("nan"), "closedlow": flag("closed")}


def equal(ctx, a, b):
    if isinstance(a, list):
        return ctx.land(True, *[equal(ctx, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if ctx.issym(a) or ctx.issym(b):
        return ctx.eq(a, b)
    return a == b


def t_axis(ctx, cfg):
    ctx.ideal()
    kind = cfg["axis"]
    mk = getattr(ctx.hb, kind)
    p1, k1 = params(ctx, kind, "1")
    # the second differs in at most one option, or in nothing but numbers
    which = ctx.choose("which", ["numbers"] + sorted(k1) + ["expr"] + (["count"] if kind in ("bin", "split") else []))
    p2, k2 = list(p1), dict(k1)
    if which == "numbers":
        for i in range(1, len(p2)):
            if ctx.issym(p2[i]):
                p2[i] = ctx.real("other%d" % i, -1, 2, 1) if kind != "intbin" else ctx.int("other%d" % i, -2, 2)
            elif isinstance(p2[i], list):
                p2[i] = [ctx.real("other%d" % j, -1 if j == 0 else 1, 0 if j == 0 else 2, 1) for j in range(len(p2[i]))]
        if kind == "groupbin":
            ctx.assume(ctx.lt(0.0, p2[1]))
        elif kind in ("bin", "intbin"):
            ctx.assume(ctx.lt(p2[-2], p2[-1]))
    elif which == "expr":
        p2[0] = "z"
    elif which == "count":
        if kind == "bin":
            p2[1] = p1[1] + 1
        else:
            p2[1] = p1[1] + [3.0]
    elif which == "origin":
        k2[which] = ctx.real("origin2", -1, 1, 1)
    else:
        k2[which] = not k1[which]
    if kind == "split":
        for p, k in ((p1, k1), (p2, k2)):
            if len(p[1]) == 1 and not (k["underflow"] or k["overflow"] or k["nanflow"]):
                return      # no bin at all
    a, b = mk(*p1, **k1), mk(*p2, **k2)
    rest = ctx.land(equal(ctx, p1[1:], p2[1:]), *[equal(ctx, k1[n], k2[n]) for n in k1])
    want = ctx.land(p1[0] == p2[0], rest)
    laws(ctx, [a, b], lambda i, j: True if i == j else want, "axes", order=False)
    if hasattr(a, "compatible"):
        ctx.check(ctx.iff(a.compatible(b), rest), "compatible: the same binning")
        ctx.check(ctx.iff(b.compatible(a), rest), "compatible both ways")
    c = a.copy()
    ctx.check(a == c and hash(a) == hash(c), "a copy is equal")


def t_axes(ctx, cfg):
    hb = ctx.hb
    xs = []
    for e in ("x", "y"):
        xs += [hb.groupby(e), hb.groupbin(e, 1), hb.groupbin(e, 1, origin=0.5), hb.groupbin(e, 1, closedlow=False), hb.groupbin(e, 2), hb.cut(e), hb.profile(e), hb.intbin(e, 0, 2), hb.intbin(e, 0, 3), hb.intbin(e, 0, 2, underflow=False), hb.intbin(e, 0, 2, overflow=False),
               hb.bin(e, 2, 0, 2), hb.bin(e, 2, 0, 2, underflow=False), hb.bin(e, 2, 0, 2, overflow=False), hb.bin(e, 2, 0, 2, nanflow=False), hb.bin(e, 2, 0, 2, closedlow=False), hb.bin(e, 3, 0, 2),
               hb.split(e, [0, 1, 2]), hb.split(e, [0, 2]), hb.split(e, [0, 1, 2], underflow=False), hb.split(e, [0, 1, 2], overflow=False), hb.split(e, [0, 1, 2], nanflow=False), hb.split(e, [0, 1, 2], closedlow=False), hb.split(e, [0])]
    laws(ctx, xs, lambda i, j: i == j, "axes of all kinds", order=False)
    for a, b in [(hb.bin("x", 2, 0, 2), hb.bin("x", 2, 0.0, 2.0)), (hb.split("x", [0, 1]), hb.split("x", (0.0, 1.0))), (hb.groupbin("x", 1), hb.groupbin("x", 1.0, origin=0.0)), (hb.split("x", 1), hb.split("x", [1.0])), (hb.intbin("x", 0, 2), hb.intbin("x", ctx.scalar(0), ctx.scalar(2)))]:
        ctx.check(a == b and b == a and not (a != b) and hash(a) == hash(b), "integers and numbers of the same value: %r %r" % (a, b))
    for x in xs:
        for o in (None, 0, "x", hb.Hist()):
            ctx.check(not (x == o) and x != o, "an axis is not %r" % (o,))


def t_hist(ctx, cfg):
    ctx.ideal()
    axes, opts = c12.POOL[cfg["h"]]
    a, b = mkhist(ctx, axes, **opts), mkhist(ctx, axes, **opts)
    ctx.check(a == b and b == a and not (a != b) and a == a, "built alike")
    d = entries(ctx)
    a.fill(d)
    ctx.check(a != b and b != a and not (a == b), "filled and not filled")
    b.fill(d)
    ctx.check(a == b and b == a and not (a != b) and a == a, "filled alike")
    ctx.check(a == a.copy() and a.cleared() == b.cleared() and a != a.cleared(), "copies")
    a.attach("k", 1)
    ctx.check(a != b and b != a, "attachments differ")
    b.attach("k", 2)
    ctx.check(a != b and b != a, "attachments differ")
    b.attach("k", 1)
    ctx.check(a == b, "attached alike")


def entries(ctx):
    d = {"x": [0.5, 1.5], "y": [1.0, 2.0], "z": [1.0, -1.0], "w": [1.0, 2.0], "n": [0, 1], "p": [True, False], "q": [True, True], "g": ["a", "b"], "k": ["u", "v"]}
    return dict((n, ctx.array(v)) for n, v in d.items())


def t_contents(ctx, cfg):
    """equal exactly if every number is"""
    ctx.ideal()
    axes, opts = c12.POOL[cfg["h"]]
    hs = [mkhist(ctx, axes, **opts) for i in range(2)]
    for h in hs:
        h.fill(entries(ctx))
    ctx.check(hs[0] == hs[1], "filled alike")
    bs = [sorted(blocks(h).items(), key=lambda kv: [str(k) for k in kv[0]]) for h in hs]
    if not bs[0]:
        return
    i = ctx.choose("block", range(len(bs[0])))
    shape = ctx.shape(bs[0][i][1])
    idx = ctx.choose("cell", list(ndindex(shape))[:12] + list(ndindex(shape))[-4:])
    u, v = ctx.real("u", -2, 2, 1), ctx.real("v", -2, 2, 1)
    if idx == list(ndindex(shape))[0]:
        # also numbers that are close to each other, and far from zero or next to it
        scale, base = ctx.choose("scale", [(1.0, 0.0), (1.0, 2.0 ** 40), (2.0 ** -40, 0.0), (2.0 ** -30, 1.0)])
        u, v = base + u * scale, base + v * scale
    bs[0][i][1][idx], bs[1][i][1][idx] = u, v
    want = ctx.eq(u, v)
    ctx.check(ctx.iff(bool(hs[0] == hs[1]), want), "equal exactly if the number at %r is" % (idx,))
    ctx.check(ctx.iff(bool(hs[1] != hs[0]), ctx.lnot(want)), "different exactly if the number at %r is" % (idx,))
    if hs[0]._group:
        # a category more
        one = hs[0].copy()
        k = list(one._content)[0]
        one._content["another"] = one._content[k]
        ctx.check(one != hs[0] and hs[0] != one, "a category more")


def t_differ(ctx, cfg):
    hb = ctx.hb
    B = lambda **kw: hb.bin("x", 2, 0, 2, **kw)
    hs = [hb.Hist(), hb.Hist(B()), hb.Hist(B(closedlow=False)), hb.Hist(B(overflow=False)), hb.Hist(hb.bin("y", 2, 0, 2)), hb.Hist(B(), hb.cut("p")), hb.Hist(hb.cut("p"), B()), hb.Hist(B(), hb.profile("y")), hb.Hist(B(), hb.profile("z")), hb.Hist(B(), hb.profile("y"), hb.profile("z")), hb.Hist(B(), hb.profile("z"), hb.profile("y")),
          hb.Hist(hb.groupby("g")), hb.Hist(hb.groupby("g"), hb.groupby("k")), hb.Hist(hb.groupby("k"), hb.groupby("g")), hb.Hist(B(), weight="w"), hb.Hist(B(), weight="2*w"), hb.Hist(B(), weight=2), hb.Hist(B(), weight=1), hb.Hist(B(), weight=3), hb.Hist(B(), filter="p or x < 1"), hb.Hist(B(), filter="p and x < 1"), hb.Hist(B(), filter="x < 1"), hb.Hist(B(), filter="x < 1", weight="w"),
          hb.Hist(B(), weight="u", defs={"u": "x + 1"}), hb.Hist(B(), weight="u", defs={"u": "x + 2"}), hb.Hist(B(), attachment={"a": 1}), hb.Hist(B(), attachment={"a": 2}), hb.Hist(B(), attachment={"b": 1})]
    laws(ctx, hs, lambda i, j: i == j, "histograms", order=False, hashed=False)
    for h in hs:
        for o in (None, 0, "x", hb.Book()):
            ctx.check(not (h == o) and h != o, "a histogram is not %r" % (o,))
        ctx.check(h == h.copy() and h == h.cleared(), "copies are equal")


def t_book(ctx, cfg):
    ctx.ideal()
    hb = ctx.hb
    cls = getattr(hb.book, cfg["b"])

    def H(v=0.5, **kw):
        h = hb.Hist(hb.bin("x", 1, 0, 1), **kw).attach("systematic", [v])
        h.fill(x=ctx.array([0.5]), w=ctx.array([1.0]))
        return h
    nested = cfg["b"] != "SystematicsBook"

    def build(names=("a", "b"), v=1.0, inner=1.0, att=None, inneratt=None):
        b = cls()
        for i, n in enumerate(names):
            b[n] = H(float(i))
        list(b.values())[0]._content[0, 0] = v
        if nested:
            b["n"] = hb.Book(h=H(5.0))
            b["n/h"]._content[0, 0] = inner
            if inneratt is not None:
                b["n"].attach("k", inneratt)
        if att is not None:
            b.attach("k", att)
        return b
    u, v = ctx.real("u", -2, 2, 1), ctx.real("v", -2, 2, 1)
    want = ctx.eq(u, v)
    for kw in ("v", "inner"):
        if kw == "inner" and not nested:
            continue
        a, b = build(**{kw: u}), build(**{kw: v})
        ctx.check(ctx.iff(bool(a == b), want) and ctx.iff(bool(b != a), ctx.lnot(want)), "equal exactly if the numbers are")
    a = build()
    ctx.check(a == build() and not (a != build()) and a == a, "built alike")
    for what, b in [("name", build(names=("a", "c"))), ("one more", build(names=("a", "b", "c"))), ("one less", build(names=("a",))), ("attachment", build(att=1)), ("nested attachment", build(inneratt=1) if nested else build(att=2)), ("kind", type(a).__mro__[1](build()) if False else None), ("nothing", cls())]:
        if b is not None:
            ctx.check(a != b and b != a and not (a == b) and not (b == a), "books that differ by %s" % what)
    ctx.check(build(att=1) == build(att=1) and build(att=1) != build(att=2), "attachments")
    other = hb.book.GenericBook if cfg["b"] != "GenericBook" else hb.book.Book
    b = other()
    for n in a.keys():
        b[n] = a[n]
    ctx.check(a != b and b != a, "another kind of book")
    for o in (None, 0, "x", {}, H()):
        ctx.check(not (a == o) and a != o, "a book is not %r" % (o,))
