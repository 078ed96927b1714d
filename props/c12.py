"""C12: filling a book equals filling each of its histograms alone."""
import itertools

from props.lib import *

BOUNDS = ("books of one to five histograms out of a pool of 26 (all axis kinds, profiles, weights, filters, definitions, constants) chosen to share fields, sub-expressions, whole expressions and axes: every single one and ordered pair, a rotation of triples and larger books, nested up to three deep; "
          "two entries with arbitrary values per fill (reals in [-3,3] on a grid of 1/4, a NaN in some, categories by choice), numbers instead of arrays, two fills; "
          "every iteration order of every set of up to three members (thorough: four) for pairs of histograms (values that stay in one bin); every history of changing a (nested) book between fills out of a list")
ASSUMPTIONS = ["exact real arithmetic; filling a single histogram is what C01-C04 and C10 decide; set iteration orders are the same on one run for sets with the same members"]
OPTS = {"witnesses": 2, "nondet_set": True}

POOL = {
    "x": ([["bin", "x", 2, 0.0, 2.0]], {}),
    "x again": ([["bin", "x", 2, 0.0, 2.0]], {}),
    "x finer": ([["bin", "x", 4, 0.0, 2.0, {"closedlow": False}]], {}),
    "x w": ([["bin", "x", 2, 0.0, 2.0], ["profile", "y"]], {"weight": "w"}),
    "x two": ([["bin", "x", 2, 0.0, 2.0]], {"weight": 2}),
    "sum": ([["bin", "x + y", 2, 0.0, 2.0], ["profile", "x*y"]], {}),
    "sum split": ([["split", "y + x", [0.0, 1.0]]], {"weight": "w"}),
    "sum cut": ([["cut", "x + y > 1"]], {"weight": "w*w"}),
    "sum filter": ([["bin", "2*(x + y)", 2, 0.0, 2.0]], {"filter": "x + y > 1"}),
    "sum cat": ([["groupby", "g"], ["bin", "x + y", 2, 0.0, 2.0]], {}),
    "cat": ([["groupby", "g"]], {}),
    "cat bin": ([["groupbin", "x + y", 1.0], ["groupby", "g"]], {"weight": "w"}),
    "int": ([["intbin", "n", 0, 2], ["profile", "x + y"], ["profile", "w*(x + y)"]], {"weight": "w"}),
    "int cat": ([["groupby", "n"], ["cut", "p"]], {}),
    "defs": ([["bin", "s", 2, 0.0, 2.0], ["profile", "s*w"]], {"defs": {"s": "x + y"}}),
    "defs other": ([["bin", "s", 2, 0.0, 2.0]], {"defs": {"s": "x - y"}, "filter": "s > 0"}),
    "profile": ([["profile", "x + y"]], {}),
    "profile w": ([["profile", "x"], ["profile", "x*x"]], {"weight": "w", "filter": "x < y"}),
    "2d": ([["bin", "x", 2, 0.0, 2.0], ["split", "y", [0.0, 1.0]], ["cut", "p"]], {}),
    "2d w": ([["cut", "p"], ["bin", "y", 2, 0.0, 2.0, {"underflow": False, "nanflow": False}], ["bin", "x", 2, 0.0, 2.0, {"overflow": False}]], {"weight": "w", "filter": "x < y or p"}),
    "squares": ([["bin", "x*x + y*y", 2, 0.0, 4.0], ["profile", "x*x*x*y"]], {"weight": "x*x"}),
    "calls": ([["bin", "abs(x - y)", 2, 0.0, 2.0], ["bin", "where(x < y, x, abs(x - y))", 2, 0.0, 2.0]], {"weight": "max(x, y)"}),
    "const": ([["bin", "1.5", 2, 0.0, 2.0], ["bin", "y", 2, 0.0, 2.0]], {}),
    "none": ([], {"weight": "w"}),
    "x cut": ([["bin", "x", 2, 0.0, 2.0], ["cut", "p"]], {}),
    "cat origin": ([["groupbin", "x", 1.0, {"origin": 0.25}]], {}),
}
NAMES = sorted(POOL)
SMALL = ["x", "x w", "sum", "sum split", "sum cut", "cat", "int cat", "none", "defs", "squares"]

# functions of one argument that is also used as it is
FUNCTIONS = ["abs", "sqrt", "ceil", "floor", "round", "trunc", "sign", "isnan", "isfinite", "isinf", "exp", "log", "sin", "erf", "erfc", "gamma", "lgamma", "factorial", "rad2deg", "deg2rad", "expm1", "log1p", "logical_not"]

# histories: what is done to the (nested) book between the first and the second fill
HISTORY = {
    "nothing": lambda ctx, b, s: None,
    "add": lambda ctx, b, s: b.__setitem__("new", s.make("sum w")),
    "add deep": lambda ctx, b, s: b.__setitem__("in/new", s.make("sum w")),
    "add to inner": lambda ctx, b, s: b["in"].__setitem__("new", s.make("sum w")),
    "add to innermost": lambda ctx, b, s: b["in/deep"].__setitem__("new", s.make("sum w")),
    "add new book": lambda ctx, b, s: b.__setitem__("p/q/new", s.make("sum w")),
    "replace": lambda ctx, b, s: b.__setitem__("a", s.make("sum w")),
    "replace in inner": lambda ctx, b, s: b["in"].__setitem__("b", s.make("sum w")),
    "replace inner": lambda ctx, b, s: b.__setitem__("in", ctx.hb.Book({"new": s.make("sum w")})),
    "delete": lambda ctx, b, s: b.__delitem__("a"),
    "delete deep": lambda ctx, b, s: b.__delitem__("in/b"),
    "delete in inner": lambda ctx, b, s: b["in"].__delitem__("b"),
    "delete in innermost": lambda ctx, b, s: b["in/deep"].__delitem__("c"),
    "delete inner": lambda ctx, b, s: b.__delitem__("in"),
    "swap with inner": lambda ctx, b, s: swap(b, "a", b["in"], "b"),
    "fill inner": lambda ctx, b, s: s.also(b["in"]),
    "fill innermost": lambda ctx, b, s: s.also(b["in/deep"]),
    "fill one": lambda ctx, b, s: s.also(b["a"]),
    "another book": lambda ctx, b, s: s.also(ctx.hb.Book(u=b["a"], v=b["in/b"])),
    "fields of inner": lambda ctx, b, s: b["in"].fields,
    "clear": lambda ctx, b, s: s.clear(b),
    "copy": lambda ctx, b, s: b.copy().fill(s.data("k")),
    "copyonfill": lambda ctx, b, s: b.copyonfill().fill(s.data("k")),
    "iadd": lambda ctx, b, s: s.iadd(b),
    "move": lambda ctx, b, s: swap(b, "a", b["in/deep"], "c"),
}


def swap(b, n, c, m):
    b[n], c[m] = c[m], b[n]


def configs(tier):
    out = []
    for n in NAMES:
        out.append({"name": "alone in a book: %s" % n, "k": "flat", "hists": [n], "shape": "flat"})
    for n, m in itertools.combinations(NAMES, 2):
        out.append({"name": "pair: %s; %s" % (n, m), "k": "flat", "hists": [n, m] if (len(n) + len(m)) % 2 else [m, n], "shape": "flat"})
        if set(("x cut", "2d", "cat origin")) & set((n, m)) and n != "none":
            out.append({"name": "pair: %s; %s, the other way round" % (n, m), "k": "flat", "hists": [m, n] if (len(n) + len(m)) % 2 else [n, m], "shape": "flat"})
    shapes = ["flat", "nested", "deep", "view", "systematics"]
    triples = list(itertools.combinations(NAMES, 3))
    for i, t in enumerate(triples[::23 if tier == "quick" else 3]):
        t = list(t)[i % 3:] + list(t)[:i % 3]
        sh = shapes[i % 4]
        out.append({"name": "%s: %s" % (sh, "; ".join(t)), "k": "flat", "hists": t, "shape": sh})
    for i in range(0, len(NAMES) if tier != "quick" else len(NAMES) // 2):
        t = [NAMES[(i * 5 + j * 7) % len(NAMES)] for j in range(5)]
        out.append({"name": "five %s: %s" % (shapes[i % 4], "; ".join(t)), "k": "flat", "hists": t, "shape": shapes[i % 4]})
    for n in ("x", "sum", "sum cat", "2d w"):
        out.append({"name": "systematics: %s" % n, "k": "systematics", "h": n})
        out.append({"name": "numbers: %s" % n, "k": "numbers", "hists": [n, "sum split", "const"]})
        out.append({"name": "dataframe: %s" % n, "k": "dataframe", "hists": [n, "sum split", "const"]})
    for n, m in itertools.combinations(SMALL if tier != "quick" else SMALL[:8], 2):
        out.append({"name": "set orders: %s; %s" % (n, m), "k": "orders", "hists": [n, m], "shape": "flat", "n": 3 if tier == "quick" else 4, "max_paths": 2000 if tier == "quick" else 20000, "seconds": 60 if tier == "quick" else 600})
    for h in sorted(HISTORY):
        for first in ("fill", "fields", "none"):
            out.append({"name": "history %s then %s" % (first, h), "k": "history", "h": h, "first": first})
    for f in FUNCTIONS:
        out.append({"name": "function %s" % f, "k": "function", "f": f})
    for shape in ("flat", "nested"):
        out.append({"name": "twelve histograms %s" % shape, "k": "twelve", "shape": shape})
    out.append({"name": "same histogram under two names", "k": "twice"})
    return out


class Scene(object):
    """builds histograms together with twins that are filled alone"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.twin = {}          # id(histogram) -> (histogram, twin)
        self.n = 0

    def make(self, n, **kw):
        axes, opts = POOL.get(n) or ([["split", "x + y", [0.0, 1.0]], ["profile", "w*x"]], {"weight": "w"})
        opts = dict(opts, **kw)
        h, t = mkhist(self.ctx, axes, **opts), mkhist(self.ctx, axes, **opts)
        self.twin[id(h)] = (h, t)
        return h

    def data(self, tag, nan=None):
        ctx = self.ctx
        self.n += 1
        r = lambda n: ctx.real(n + tag + "0", -3, 3, 2)
        d = {}
        for n in "xyw":
            d[n] = ctx.array([ctx.real(n + tag + "0", -3, 3, 2), ctx.real(n + tag + "1", -3, 3, 2) if n != nan else NAN])
        d["n"] = ctx.array([1, 2])
        d["p"] = ctx.array([ctx.boolean("p" + tag), True])
        d["g"] = ctx.array(["a", "b"])
        return d

    def alone(self, hists, data):
        for h in hists:
            self.twin[id(h)][1].fill(data)

    def also(self, what):
        d = self.data("also")
        what.fill(d)
        self.alone(hists(self.ctx, what), d)

    def clear(self, b):
        b.clear()
        for h in hists(self.ctx, b):
            self.twin[id(h)][1].clear()

    def iadd(self, b):
        c = b.copy()
        c.fill(self.data("more"))
        for (n, h) in b.allitems(onlyhist=True):
            t = self.twin[id(h)][1]
            t += c[n]
        b += c
        for (n, h) in b.allitems(onlyhist=True):
            if id(h) not in self.twin:          # += may put a new object in place
                self.twin[id(h)] = (h, h.copy())

    def compare(self, hists, msg):
        for h in hists:
            a, b = self.twin[id(h)]
            self.ctx.check([repr(x) for x in a.axis] == [repr(x) for x in b.axis], "%s: axes of %s" % (msg, a))
            keys = set(blocks(a))
            self.ctx.check(len(keys) == len(blocks(b)), "%s: categories of %s" % (msg, a))
            checksame(self.ctx, a, b, "%s: %s" % (msg, a))


def hists(ctx, b):
    """the different histograms in a book, found by walking its items one level at a time"""
    if isinstance(b, ctx.hb.Hist):
        return [b]
    out = []
    for n, x in b.items():
        for h in hists(ctx, x):
            if not any(h is o for o in out):
                out.append(h)
    return out


def build(ctx, hs, shape):
    hb = ctx.hb
    names = ["h%d" % i for i in range(len(hs))]
    if shape == "flat":
        return hb.Book(dict(zip(names, hs))) if len(hs) % 2 else hb.Book(*hs)
    if shape == "nested":
        return hb.Book({"one": hs[0], "in": hb.Book(dict(zip(names[1:], hs[1:])))})
    if shape == "deep":
        b = hb.Book()
        for i, h in enumerate(hs):
            b[["a", "in/b", "in/deep/c", "in/d", "e"][i]] = h
        return b
    if shape == "view":
        v = hb.ChannelsBook(one=hb.Book(dict(zip(names, hs))), two=hb.Book(hz=hb.Hist(hb.bin("nosuchfield", 2, 0, 1))))
        return v.view("one/*")
    raise AssertionError(shape)


def needed(ctx, hs):
    out = []
    for h in hs:
        out += [f for f in h.fields if f not in out]
    return sorted(out)


def run(ctx, cfg):
    ctx.ideal()
    return globals()["t_" + cfg["k"]](ctx, cfg)


def t_flat(ctx, cfg):
    s = Scene(ctx)
    hs = [s.make(n) for n in cfg["hists"]]
    b = build(ctx, hs, cfg["shape"])
    nan = "x" if len(cfg["name"]) % 3 == 0 else None
    data = s.data("", nan)
    ctx.check(list(b.fields) == needed(ctx, [s.twin[id(h)][1] for h in hs]), "the fields of the book are those some histogram needs: %r" % (b.fields,))
    b.fill(dict((n, data[n]) for n in b.fields) if len(b.fields) else data)
    s.alone(hs, data)
    ctx.check(len(hists(ctx, b)) == len(hs), "all histograms are still in the book")
    s.compare(hs, "after a fill")
    if len(cfg["hists"]) < 3 and not set(cfg["hists"]) & set(["cat bin", "2d w", "calls"]):
        more = s.data("m")
        b.fill(**more)
        s.alone(hs, more)
        s.compare(hs, "after two fills")
        # and alone after having been filled through the book
        hs[0].fill(data)
        s.alone(hs[:1], data)
        s.compare(hs, "after filling one alone")


def t_twelve(ctx, cfg):
    """each with its own numbers"""
    hb = ctx.hb
    mk = lambda: [hb.Hist(hb.split("x", [float(i) / 4.0 - 1.5]), hb.profile("y + %d*x" % i), weight="w" if i % 3 else "2*w") for i in range(12)]
    hs, ref = mk(), mk()
    d = {"x": ctx.array([ctx.real("x", -3, 3, 2)]), "y": ctx.array([ctx.real("y", -3, 3, 2)]), "w": ctx.array([ctx.real("w", -3, 3, 2)])}
    b = build(ctx, hs, cfg["shape"])
    for i in range(2):
        b.fill(d)
        for h, r in zip(hs, ref):
            r.fill(d)
            checksame(ctx, h, r, "one of twelve: %s" % h)


def t_function(ctx, cfg):
    """a function leaves its argument alone"""
    hb = ctx.hb
    f = cfg["f"]
    for order in ([0, 1, 2], [1, 0, 2], [2, 1, 0]):
        x, y = [ctx.array([ctx.real(n + str(i), 1, 2, 4) for i in range(2)]) for n in "xy"]
        if f in ("isnan", "isfinite", "isinf", "logical_not"):
            mk = lambda: [hb.Hist(hb.cut("%s(x - y)" % f), hb.profile("x - y")), hb.Hist(hb.profile("x"), weight="x - y"), hb.Hist(hb.profile("x"), filter="%s(x)" % f)]
        else:
            mk = lambda: [hb.Hist(hb.profile("%s(x)" % f), hb.profile("%s(x + y)" % f)), hb.Hist(hb.profile("x"), hb.profile("x + y"), weight="x + y"), hb.Hist(hb.profile("x"), weight="%s(x) + y" % f)]
        try:
            hs, ref = mk(), mk()
        except (TypeError, hb.expr.ExpressionError):
            ctx.check(f not in ("abs", "sqrt", "gamma", "lgamma"), "%s is a function" % f)
            return
        b = hb.Book(dict(("h%d" % i, hs[j]) for i, j in enumerate(order)))
        b.fill(x=x, y=y)
        for h, r in zip(hs, ref):
            r.fill(x=x, y=y)
            checksame(ctx, h, r, "%s in a book, order %r" % (h, order))


def t_orders(ctx, cfg):
    s = Scene(ctx)
    hs = [s.make(n) for n in cfg["hists"]]
    b = build(ctx, hs, cfg["shape"])
    data = {"x": ctx.array([ctx.real("x", 0.25, 0.5, 6)]), "y": ctx.array([ctx.real("y", 1.0, 1.25, 6)]), "w": ctx.array([ctx.real("w", -3, 3, 2)]), "n": ctx.array([1]), "p": ctx.array([True]), "g": ctx.array(["a"])}
    s.alone(hs, data)
    ctx.permute_sets(cfg["n"])
    b.fill(data)
    ctx.permute_sets(0)
    s.compare(hs, "with sets iterated in any order")


def t_numbers(ctx, cfg):
    """numbers stand for arrays of one element, next to arrays and alone"""
    s = Scene(ctx)
    hs = [s.make(n) for n in cfg["hists"]]
    b = build(ctx, hs, "nested")
    data = s.data("")
    x = ctx.real("xs", -3, 3, 2)
    some = dict(data, x=x, g="a")
    b.fill(some)
    s.alone(hs, dict(data, x=ctx.array([x, x]), g=ctx.array(["a", "a"])))
    s.compare(hs, "numbers next to arrays")
    y, w = ctx.real("ys", -3, 3, 2), ctx.real("ws", -3, 3, 2)
    b.fill(x=x, y=y, w=w, n=1, p=True, g="a")
    s.alone(hs, {"x": ctx.array([x]), "y": ctx.array([y]), "w": ctx.array([w]), "n": ctx.array([1]), "p": ctx.array([True]), "g": ctx.array(["a"])})
    s.compare(hs, "numbers only")
    b.fill({"x": data["x"], "n": data["n"]}, y=data["y"], w=data["w"], p=data["p"], g=data["g"])
    s.alone(hs, data)
    s.compare(hs, "a dict and keywords")


class Column(object):
    def __init__(self, values):
        self.values = values


def frame(data):
    class DataFrame(object):
        columns = list(data)

        def __getitem__(self, n):
            return Column(data[n])
    DataFrame.__module__ = "pandas.core.frame"
    return DataFrame()


def t_dataframe(ctx, cfg):
    """a Pandas DataFrame (a stand-in with its class name, columns and values) fills like a dict of arrays"""
    s = Scene(ctx)
    hs = [s.make(n) for n in cfg["hists"]]
    b = build(ctx, hs, "nested")
    data = s.data("")
    b.fill(frame(data))
    s.alone(hs, data)
    s.compare(hs, "a book filled from a DataFrame")
    hs[0].fill(frame(data))
    s.alone(hs[:1], data)
    s.compare(hs, "a histogram filled from a DataFrame")
    before = [frozen(ctx, h) for h in hs]
    for f in (lambda: b.fill(frame(data), x=data["x"]), lambda: hs[0].fill(frame(data), x=data["x"])):
        raises(ctx, f, TypeError, "keywords next to a DataFrame are refused")
    for h, f in zip(hs, before):
        checkfrozen(ctx, h, f, "after refusing keywords")


def t_systematics(ctx, cfg):
    s = Scene(ctx)
    hs = [s.make(cfg["h"], systematic=(float(i),)) for i in range(3)]
    b = ctx.hb.SystematicsBook(nominal=hs[0], up=hs[1], down=hs[2])
    data = s.data("")
    ctx.check(list(b.fields) == needed(ctx, [s.twin[id(h)][1] for h in hs]), "fields")
    b.fill(data)
    s.alone(hs, data)
    s.compare(hs, "a book of systematics")
    # as a part of another book, and a view of samples
    other = s.make("sum split")
    o = ctx.hb.Book(sys=b, other=other)
    more = s.data("m")
    o.fill(more)
    s.alone(hs + [other], more)
    s.compare(hs + [other], "a book of systematics in a book")
    sb = ctx.hb.SamplesBook(["one", "two"], h=other.cleared())
    v = sb.view("one/*")
    v.fill(data)
    t = other.cleared()
    t.fill(data)
    checksame(ctx, sb["one/h"], t, "the sample that was filled")
    checkcells(ctx, cells(ctx, sb["two/h"]), {}, "the sample that was not filled")


def t_history(ctx, cfg):
    s = Scene(ctx)
    hb = ctx.hb
    a, b, c = s.make("sum"), s.make("x w"), s.make("sum cut")
    book = hb.Book({"a": a, "in": hb.Book({"b": b, "deep": hb.Book({"c": c})})})
    if cfg["first"] == "fill":
        d = s.data("f")
        book.fill(d)
        s.alone([a, b, c], d)
    elif cfg["first"] == "fields":
        book.fields
        book["in"].fields
    HISTORY[cfg["h"]](ctx, book, s)
    hs = hists(ctx, book)
    twins = [s.twin[id(h)][1] for h in hs]
    ctx.check(list(book.fields) == needed(ctx, twins), "the fields after the change: %r" % (book.fields,))
    data = s.data("d")
    book.fill(data)
    s.alone(hs, data)
    s.compare(hs, "after the change")
    # what is no longer in the book is left alone
    s.compare([h for h, t in s.twin.values()], "everything")


def t_twice(ctx, cfg):
    """one histogram under two names is one histogram: filled once"""
    s = Scene(ctx)
    h = s.make("sum")
    o = s.make("x w")
    for i, b in enumerate((ctx.hb.Book(u=h, v=h), ctx.hb.Book({"u": h, "in": ctx.hb.Book({"v": h, "o": o})}), ctx.hb.Book({"o": o, "u": h, "in": ctx.hb.Book({"v": h})}))):
        d = s.data("t%d" % i)
        b.fill(d)
        s.alone(hists(ctx, b), d)
        s.compare([h, o], "book %d" % i)
