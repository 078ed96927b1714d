"""C15: serialisation round trips preserve histograms and books."""
from props import c05, c12
from props.lib import *

BOUNDS = ("every axis kind with every combination of its options and arbitrary (symbolic) edges, widths and origins; the 26 histograms of C12 and ten of C05, unfilled and with arbitrary contents (every column of every bin any multiple of 1/16 in [-8,8]) or filled with two arbitrary entries; categories of strings, integers, numbers, booleans, NaN bins, two deep; "
          "histograms derived by projection, selection, rebinning, dropping, adding, scaling, grouping, copying; books of all kinds nested three deep, filled before or not; JSON as an object, JSON as text, pickle with protocols 0-4; filling the original and the copy with two arbitrary entries afterwards; attachments")
ASSUMPTIONS = ["definitions and attachments are numbers, strings, lists and dicts; json and pickle themselves are trusted: in the symbolic run pickling is represented by the same __reduce_ex__/__getstate__/__setstate__ protocol (deepcopy) and JSON text by its rules for keys, tuples and types; the replayed witnesses use the real modules"]
OPTS = {"witnesses": 3}
OPTS_QUICK = {"budget_s": 120}

WAYS = ["object", "text", "pickle"]
FLAGS = [{}, {"underflow": False}, {"overflow": False}, {"nanflow": False}, {"closedlow": False}, {"underflow": False, "overflow": False, "nanflow": False}, {"underflow": False, "nanflow": False, "closedlow": False}]

AXES = ["groupby", "groupbin", "bin", "intbin", "split", "cut", "profile"]

DERIVED = {
    "project": lambda h: h.project("x", "y"),
    "project to one": lambda h: h.project("y"),
    "project to g": lambda h: h.project("g"),
    "select": lambda h: h.select("x >= 0"),
    "select cut": lambda h: h.select("p"),
    "select category": lambda h: h.select("g == 'a'"),
    "select both": lambda h: h.select("0 <= x < 2").select("g != 'b'"),
    "rebin": lambda h: h.rebinby("x", 2),
    "rebin to edges": lambda h: h.rebin("x", [0.0, 2.0]),
    "drop": lambda h: h.drop("z"),
    "sum": lambda h: h + h,
    "scaled": lambda h: h * 0.5,
    "group": lambda h: type(h).group(u=h, v=h.copy()),
    "copy": lambda h: h.copy(),
    "copyonfill": lambda h: h.copyonfill(),
    "cleared": lambda h: h.cleared(),
}


def configs(tier):
    out = []
    for a in AXES:
        for i in range(len(FLAGS) if a in ("bin", "split") else 4 if a in ("groupbin", "intbin") else 1):
            for w in WAYS:
                out.append({"name": "axis %s %d %s" % (a, i, w), "k": "axis", "axis": a, "flags": i, "way": w})
    for w in WAYS:
        for n in c12.NAMES:
            out.append({"name": "%s: %s filled" % (w, n), "k": "filled", "h": n, "way": w})
            out.append({"name": "%s: %s unfilled" % (w, n), "k": "unfilled", "h": n, "way": w})
        for n, (axes, opts, fills) in c05.HISTS.items():
            for f in fills:
                out.append({"name": "%s: %s with %s" % (w, n, f), "k": "contents", "h": n, "fill": f, "way": w})
        for keys in (["a", "b"], ["", "NaN", "1"], [1, 2], [0, -1], [1.5, 2.0], [True, False], [True]):
            for second in (None, "groupby", "groupbin"):
                out.append({"name": "%s: keys %r %s" % (w, keys, second), "k": "keys", "keys": keys, "second": second, "way": w})
        for d in sorted(DERIVED):
            for weighted in (False, True):
                out.append({"name": "%s: %s%s" % (w, d, " w" if weighted else ""), "k": "derived", "d": d, "weighted": weighted, "way": w})
        for b in ("Book", "GenericBook", "ViewBook", "ChannelsBook", "SamplesBook", "SystematicsBook"):
            for filled in (False, True):
                out.append({"name": "%s: %s %s" % (w, b, filled), "k": "book", "b": b, "filled": filled, "way": w})
        out.append({"name": "%s: exact numbers" % w, "k": "exact", "way": w})
        out.append({"name": "%s: attachments" % w, "k": "attach", "way": w})
        out.append({"name": "%s: weights and filters" % w, "k": "options", "way": w})
    out.append({"name": "JSON with whole numbers written without a point", "k": "whole", "way": "object"})
    return out


def t_whole(ctx, cfg):
    """JSON from a writer that puts 2 for 2.0 (every JavaScript one does)"""
    def whole(x):
        if isinstance(x, dict):
            return dict((n, whole(y)) for n, y in x.items())
        if isinstance(x, (list, tuple)):
            return [whole(y) for y in x]
        return int(x) if isinstance(x, float) and x == int(x) else x
    hb = ctx.hb
    for axes in ([["bin", "x", 2, 0.0, 2.0], ["profile", "y"]], [["groupby", "g"], ["cut", "p"]], [["groupbin", "x", 1.0]], [["split", "x", [0.0, 1.0]]]):
        h = mkhist(ctx, axes, weight="w")
        d = {"x": [0.5], "y": [2.0], "g": ["a"], "p": [True], "w": [1.0]}
        h.fill(dict((n, ctx.array(v)) for n, v in d.items()))
        g = hb.Hist.fromjson(whole(h.tojson()))
        checksame(ctx, h, g, "whole numbers")
        d.update(w=[ctx.real("w%d" % len(axes[0]), -2, 2, 4)], y=[ctx.real("y%d" % len(axes[0]), -2, 2, 4)])
        for x in (h, g, h):
            x.fill(dict((n, ctx.array(v)) for n, v in d.items()))
        g.fill(dict((n, ctx.array(v)) for n, v in d.items()))
        checksame(ctx, h, g, "whole numbers, then filled on")


def trip(ctx, x):
    way = ctx.cfg["way"]
    if way == "pickle":
        return ctx.pickled(x, sum(map(ord, ctx.cfg["name"])) % 5)
    obj = x.tojson()
    if way == "text":
        obj = ctx.jsontext(obj)
    if isinstance(x, ctx.hb.Hist):
        return ctx.hb.Hist.fromjson(obj)
    if isinstance(x, ctx.hb.axis.Axis):
        return ctx.hb.axis.Axis.fromjson(obj)
    return ctx.hb.book.GenericBook.fromjson(obj)


ATTRS = ["expr", "numbins", "low", "high", "min", "max", "underflow", "overflow", "nanflow", "closedlow", "edges", "origin"]


def sameaxis(ctx, a, b, msg):
    ctx.check(type(a) is type(b), "%s: another kind of axis" % msg)
    ctx.check(a == b and not (a != b), "%s: axes are equal" % msg)
    # the bin width of a regular axis is computed from its other parameters
    for n in ATTRS + (["binwidth"] if type(a).__name__ == "groupbin" else []):
        if hasattr(a, n):
            x, y = getattr(a, n), getattr(b, n)
            if isinstance(x, (list, tuple)):
                ctx.check(len(x) == len(y) and ctx.land(True, *[ctx.eq(p, q) for p, q in zip(x, y)]), "%s: %s of an axis" % (msg, n))
            elif ctx.isnumber(x):
                ctx.check(ctx.eq(x, y), "%s: %s of an axis" % (msg, n))
            else:
                ctx.check(x == y, "%s: %s of an axis is %r instead of %r" % (msg, n, y, x))


def samehist(ctx, h, g, msg, equal=True):
    ctx.check(type(h) is type(g) and h is not g, "%s: a new histogram" % msg)
    ha, ga = h._group + h._fixed + h._profile, g._group + g._fixed + g._profile
    if not ctx.check(len(ha) == len(ga), "%s: the same number of axes" % msg):
        return
    for a, b in zip(ha, ga):
        sameaxis(ctx, a, b, msg)
    ctx.check(columns(h) == columns(g), "%s: the same columns" % msg)
    ctx.check((h._content is None) == (g._content is None), "%s: filled exactly if the original is" % msg)
    bh, bg = blocks(h), blocks(g)
    ctx.check(len(bh) == len(bg), "%s: the same categories" % msg)
    for k in bh:
        # the same keys, of the same kind
        ctx.check(k in bg and sorted(type(x).__name__ for x in [ctx.scalar(y) for y in k]) == sorted(type(x).__name__ for x in [ctx.scalar(y) for j in bg if j == k for y in j]), "%s: category %r" % (msg, k))
    checksame(ctx, h, g, msg)
    ctx.check(list(h.fields) == list(g.fields), "%s: needs the same fields" % msg)
    ctx.check(h.attachment == g.attachment, "%s: attachments" % msg)
    ctx.check(h.defs == g.defs, "%s: definitions" % msg)
    if equal:
        ctx.check(h == g and g == h and not (h != g), "%s: equal" % msg)


def samebook(ctx, b, c, msg):
    ctx.check(type(b) is type(c) and b is not c, "%s: the same kind of book" % msg)
    ctx.check(b.keys() == c.keys(), "%s: the same names in the same order: %r" % (msg, c.keys()))
    ctx.check(b.attachment == c.attachment, "%s: attachments of books" % msg)
    for n in b.keys():
        if isinstance(b[n], ctx.hb.Hist):
            samehist(ctx, b[n], c[n], "%s at %s" % (msg, n))
        else:
            samebook(ctx, b[n], c[n], "%s at %s" % (msg, n))
    ctx.check(b == c and c == b and not (b != c), "%s: equal" % msg)


def run(ctx, cfg):
    return globals()["t_" + cfg["k"]](ctx, cfg)


def entries(ctx, tag):
    d = {}
    for n in "xyw":
        d[n] = ctx.array([ctx.real(n + tag + "0", -3, 3, 2), ctx.real(n + tag + "1", -3, 3, 2)])
    d["n"] = ctx.array([1, 2])
    d["p"] = ctx.array([ctx.boolean("p" + tag), True])
    d["q"] = ctx.array([False, True])
    d["z"] = ctx.array([1.5, -2.0])
    d["g"] = ctx.array(["a", "b"])
    d["m"] = ctx.array(["s", "q"])
    return d


def both(ctx, h, g, tag, over={}, **kw):
    """afterwards both fill the same way, and on their own"""
    d = entries(ctx, tag)
    d.update(kw)
    d.update(over)
    before = frozen(ctx, h)
    g.fill(d)
    checkfrozen(ctx, h, before, "filling the copy")
    after = frozen(ctx, g)
    h.fill(d)
    checkfrozen(ctx, g, after, "filling the original")
    samehist(ctx, h, g, "filled afterwards", equal=False)


def t_axis(ctx, cfg):
    ctx.ideal()
    hb = ctx.hb
    f = FLAGS[cfg["flags"]]
    lo = ctx.real("lo", -4, 0, 2)
    hi = ctx.real("hi", 1, 4, 2)
    k = cfg["axis"]
    if k in ("groupby", "cut", "profile"):
        a = getattr(hb, k)("x + y" if k != "cut" else "x < y")
    elif k == "groupbin":
        f = [{}, {"nanflow": False}, {"closedlow": False}, {"nanflow": False, "closedlow": False}][cfg["flags"]]
        a = hb.groupbin("x*y", hi, origin=lo, **f)
    elif k == "bin":
        a = hb.bin("x + 1", 3, lo, hi, **f)
    elif k == "intbin":
        f = [{}, {"underflow": False}, {"overflow": False}, {"underflow": False, "overflow": False}][cfg["flags"]]
        a = hb.intbin("x", ctx.int("min", -5, 0), ctx.int("max", 1, 5), **f)
    else:
        a = hb.split("x", [lo, 0.5, hi] if cfg["flags"] % 2 else [lo], **f)
    sameaxis(ctx, a, trip(ctx, a), "axis")
    if k == "profile":
        h = hb.Hist(a)
    elif k == "split":
        h = hb.Hist(a, hb.profile("w"))
    else:
        h = hb.Hist(a)
    samehist(ctx, h, trip(ctx, h), "histogram")


def t_exact(ctx, cfg):
    # numbers that do not survive rounding or formatting
    hb = ctx.hb
    for u in (0.1 + 0.2, 1.0 / 3.0, 123456789.123456789, 1e-300, 1e22 + 2.0 ** 22, 5e-324, 2.0 ** 53 - 1):
        for axes in ([hb.bin("x", 3, -u, u)], [hb.split("x", [-u, 0.0, u])], [hb.groupbin("x", u, origin=u)]):
            sameaxis(ctx, axes[0], trip(ctx, axes[0]), "axis")
            h = hb.Hist(*axes, weight=u)
            g = trip(ctx, h)
            samehist(ctx, h, g, "exact numbers")
            if u < 1e100 and axes[0].__class__.__name__ != "groupbin":
                v = ctx.array([u, -u, 0.0])
                h.fill(x=v)
                g.fill(x=v)
                samehist(ctx, h, g, "exact numbers afterwards")
                samehist(ctx, h, trip(ctx, h), "exact contents")
    m = 2 ** 53 - 1
    a = hb.intbin("x", -m, 1 - m)
    sameaxis(ctx, a, trip(ctx, a), "large integers")


def t_filled(ctx, cfg):
    axes, opts = c12.POOL[cfg["h"]]
    h = mkhist(ctx, axes, **opts)
    h.fill(entries(ctx, "a"))
    g = trip(ctx, h)
    samehist(ctx, h, g, "filled")


def t_unfilled(ctx, cfg):
    axes, opts = c12.POOL[cfg["h"]]
    h = mkhist(ctx, axes, **opts)
    g = trip(ctx, h)
    samehist(ctx, h, g, "unfilled")
    both(ctx, h, g, "b")


def t_contents(ctx, cfg):
    h = c05.mk(ctx, cfg, "h", cfg["fill"])
    g = trip(ctx, h)
    samehist(ctx, h, g, "contents")
    both(ctx, h, g, "b", {"g": ctx.array([0.0, 1.0] if "groupbin" in cfg["h"] else ["a", "b"])}, k=ctx.array(["u", "u"]), x=ctx.array([True, False]), c=ctx.array([True, False]), q=ctx.array([1.0, 2.0]), p=ctx.array([1.0, 2.0]))


def t_keys(ctx, cfg):
    hb = ctx.hb
    axes = [hb.groupby("k")]
    if cfg["second"] == "groupby":
        axes.append(hb.groupby("g"))
    elif cfg["second"] == "groupbin":
        axes.append(hb.groupbin("y", 0.5))
    h = hb.Hist(*(axes + [hb.bin("x", 1, 0, 1)]), weight="w")
    d = entries(ctx, "a")
    ks = cfg["keys"]
    n = len(ks)
    d = {"k": ctx.array(ks), "g": ctx.array(ks[::-1]), "y": ctx.array([0.25, NAN, 1.0][:n]), "x": ctx.array([ctx.real("x%d" % i, -1, 2, 2) for i in range(n)]), "w": ctx.array([ctx.real("w%d" % i, -1, 2, 2) for i in range(n)])}
    h.fill(d)
    g = trip(ctx, h)
    samehist(ctx, h, g, "keys")
    ctx.check(sorted(map(repr, h.groupkeys("k"))) == sorted(map(repr, g.groupkeys("k"))) or ctx.cfg["way"] != "pickle", "the same keys")
    h.fill(d)
    g.fill(d)
    samehist(ctx, h, g, "filled afterwards", equal=False)


def t_derived(ctx, cfg):
    hb = ctx.hb
    kw = {"weight": "w*w"} if cfg["weighted"] else {}
    d = cfg["d"]
    axes = [hb.bin("x", 4, 0, 2), hb.split("y", [0.0, 1.0]), hb.cut("p")]
    if "category" in d or "both" in d or d.endswith("g"):
        axes = [hb.groupby("g"), hb.bin("x", 2, 0, 2)]
        if d == "select both":
            axes[1] = hb.bin("x", 2, 0, 2)
    if d == "drop":
        axes = [hb.groupby("g"), hb.cut("p"), hb.profile("z")]
    h = hb.Hist(*(axes + [hb.profile("s")]), filter="x < y or p", defs={"s": "x + y"}, **kw)
    if d not in ("project", "project to one", "copy", "copyonfill"):
        h.fill(dict(entries(ctx, "a"), x=ctx.array([0.5, 1.5]), y=ctx.array([0.25, 2.0])))
    else:
        h.fill(dict(entries(ctx, "a"), y=ctx.array([0.25, 2.0])))
    g = DERIVED[d](h)
    t = trip(ctx, g)
    samehist(ctx, g, t, d)
    both(ctx, g, t, "b", source=ctx.array(["u", "v"]), x=ctx.array([0.5, 1.5]))


def build(ctx, cfg):
    hb = ctx.hb
    B = hb.book

    def H(n):
        return hb.Hist(hb.bin("x", 1, 0, 1), hb.profile("y"), weight="w").attach("systematic", [n])

    def G(n):
        return hb.Hist(hb.groupby("g"), hb.groupbin("y", 1.0), hb.cut("p"), filter="x < 2").attach("systematic", [n])
    from collections import OrderedDict as O
    if cfg["b"] == "SamplesBook":
        b = B.SamplesBook(["t", "s"], O([("h", H(1)), ("n/g", G(2))]))
    elif cfg["b"] == "SystematicsBook":
        b = B.SystematicsBook(O([("z", H(1)), ("a", H(2))]))
    else:
        b = getattr(B, cfg["b"])(O([("z", H(1)), ("n", B.Book(O([("h", H(2)), ("g", G(1)), ("m", B.ChannelsBook(c=G(2)))]))), ("a", B.SystematicsBook(u=H(1), v=H(2)))]))
        b["n"].attach("deep", {"a": [1, 2.5, "x"]})
    if cfg["b"] in ("Book", "GenericBook"):
        for n in (" z ", "Z", "z.z", "\u00e9t\u00e9", "a*", "0", "n/ h", "n/H"):
            b[n] = H(3)
    b.attach("top", "x").attach("more", [1, None])
    return b


def t_book(ctx, cfg):
    b = build(ctx, cfg)
    d = dict(entries(ctx, "a"), y=ctx.array([0.25, 2.0]))
    if cfg["filled"]:
        for n, h in b.allitems(onlyhist=True):
            if len(n) % 2 and not hasattr(b, "fill"):
                h.fill(d)
        if hasattr(b, "fill"):
            b.fill(d)
    c = trip(ctx, b)
    samebook(ctx, b, c, "book")
    e = dict(entries(ctx, "b"), y=ctx.array([0.25, 2.0]))
    before = [frozen(ctx, h) for h in b.allvalues(onlyhist=True)]
    if hasattr(c, "fill"):
        ctx.check(list(b.fields) == list(c.fields), "the same fields")
        c.fill(e)
    else:
        for h in c.allvalues(onlyhist=True):
            h.fill(e)
    for h, f in zip(b.allvalues(onlyhist=True), before):
        checkfrozen(ctx, h, f, "filling the copy of a book")
    for h in b.allvalues(onlyhist=True):
        h.fill(e)
    for (n, h), (m, g) in zip(b.allitems(onlyhist=True), c.allitems(onlyhist=True)):
        ctx.check(n == m, "names")
        checksame(ctx, h, g, "filled afterwards: %s" % n)
    # names of the copy are its own
    del c[c.keys()[0]]
    ctx.check(len(b.keys()) == len(c.keys()) + 1, "deleting from the copy")


def t_attach(ctx, cfg):
    hb = ctx.hb
    v = ctx.real("v", -4, 4, 4)
    h = hb.Hist(hb.bin("x", 1, 0, 1), attachment={"a": 1, "b": [1, 2], "c": {"d": None}})
    h.attach("v", 2.5)
    g = trip(ctx, h)
    ctx.check(g.attachment == {"a": 1, "b": [1, 2], "c": {"d": None}, "v": 2.5}, "attachments: %r" % (g.attachment,))
    g.attach("a", 2)
    h.attach("new", 3)
    ctx.check(h.get("a") == 1 and not g.has("new"), "attachments of the copy are its own")
    samehist(ctx, hb.Hist(hb.bin("x", 1, 0, 1)), trip(ctx, hb.Hist(hb.bin("x", 1, 0, 1))), "nothing attached")
    h.fill(x=ctx.array([v]))
    t = trip(ctx, h)
    samehist(ctx, h, t, "attached")


def t_options(ctx, cfg):
    hb = ctx.hb
    for i, kw in enumerate([{"weight": 2}, {"weight": 2.5}, {"weight": "w"}, {"weight": "w + 1", "filter": "x > 0"}, {"filter": "x > 0 and y > 0"}, {"filter": "f > 0", "defs": {"f": "x*y"}}, {"weight": "f", "defs": {"f": "x*y", "unused": 3}},
                            {"weight": "c*w", "defs": {"c": 2.5}}, {"weight": 0}]):
        h = hb.Hist(hb.bin("x", 1, 0, 1), hb.profile("y"), **kw)
        g = trip(ctx, h)
        samehist(ctx, h, g, "options %r" % (kw,))
        both(ctx, h, g, "o%d" % i, x=ctx.array([0.5, -0.5]))
