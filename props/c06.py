"""C06: derived histograms never share state with the histogram they came from."""
from props.lib import *

BOUNDS = ("dense, sparse (one and two sparse axes) and mixed histograms with profiles and weights and arbitrary contents (multiples of 1/16 in [-8,8]); every deriving operation x every in-place change of either side afterwards "
          "(fill with an arbitrary entry of an old or new category, fill through a book, +=, *= by an arbitrary number, attach, detach, clear), then a second change of the other side; chains of two derivations; books nested two deep")
ASSUMPTIONS = ["arrays obtained by indexing (h[...]) are documented views and are not derived histograms; attached values are compared by identity of the key set (attachments are copied one level deep)"]
OPTS = {"witnesses": 2}

HISTS = {
    "dense": ([["bin", "x", 2, 0.0, 2.0], ["cut", "p"], ["profile", "z"]], {"weight": "w"}),
    "plain": ([["split", "x", [0.0, 1.0, 2.0]], ["cut", "p"]], {}),
    "groupby": ([["groupby", "g"], ["bin", "x", 2, 0.0, 2.0, {"nanflow": False}], ["profile", "z"]], {"weight": "w"}),
    "groups": ([["groupbin", "b", 1.0], ["groupby", "g"], ["cut", "p"]], {}),
    "onlygroup": ([["groupby", "g"]], {}),
}
OPS = {
    "copy": ("any", lambda ctx, h: [h.copy()]),
    "copyonfill": ("any", lambda ctx, h: [h.copyonfill()]),
    "copyonfill twice": ("any", lambda ctx, h: [h.copyonfill(), h.copyonfill()]),
    "copyonfill chain": ("any", lambda ctx, h: [h.copyonfill().copyonfill()]),
    "cleared": ("any", lambda ctx, h: [h.cleared()]),
    "weight": ("any", lambda ctx, h: [h.weight("w")]),
    "filter": ("any", lambda ctx, h: [h.filter("f > 0")]),
    "systematic": ("any", lambda ctx, h: [h.systematic((1.0,))]),
    "add left": ("any", lambda ctx, h: [h + twin(ctx, h, "o")]),
    "add right": ("any", lambda ctx, h: [twin(ctx, h, "o") + h]),
    "add unfilled": ("any", lambda ctx, h: [h + h.cleared(), h.cleared() + h]),
    "add new categories": ("group", lambda ctx, h: [h + other(ctx, h)]),
    "added to": ("any", lambda ctx, h: [iadd(twin(ctx, h, "o"), h)]),
    "added to unfilled": ("any", lambda ctx, h: [iadd(h.cleared(), h)]),
    "added to new categories": ("group", lambda ctx, h: [iadd(other(ctx, h), h)]),
    "mul": ("any", lambda ctx, h: [h * 2, 3.0 * h]),
    "project all": ("any", lambda ctx, h: [h.project(*[i for i, x in enumerate(h._group + h._fixed)])]),
    "project none": ("any", lambda ctx, h: [h.project()]),
    "project first": ("any", lambda ctx, h: [h.project(0)]),
    "project g": ("group", lambda ctx, h: [h.project("g")]),
    "project last": ("any", lambda ctx, h: [h.project(len(h._group + h._fixed) - 1)]),
    "drop": ("profile", lambda ctx, h: [h.drop("z")]),
    "select x": ("x", lambda ctx, h: [h.select("x >= 1"), h.select("x < 1")]),
    "select p": ("p", lambda ctx, h: [h.select("p")]),
    "select g": ("group", lambda ctx, h: [h.select("g == 'a'"), h.select("g != 'a'")]),
    "select b": ("b", lambda ctx, h: [h.select("b < 1"), h.select("b >= 0")]),
    "rebin": ("x", lambda ctx, h: [h.rebin("x", [0.0, 2.0])]),
    "rebin same": ("x", lambda ctx, h: [h.rebin("x", [0.0, 1.0, 2.0])]),
    "rebinby": ("x", lambda ctx, h: [h.rebinby("x", 2), h.rebinby("x", 1)]),
    "rebinby group": ("b", lambda ctx, h: [h.rebinby("b", 2), h.rebinby("b", 1)]),
    "group": ("any", lambda ctx, h: [ctx.hb.Hist.group(by="src", one=h, two=twin(ctx, h, "o"))]),
    "group alone": ("any", lambda ctx, h: [ctx.hb.Hist.group(by="src", one=h)]),
    "togroup": ("any", lambda ctx, h: [togroup(ctx, h, "two")]),
    "togroup existing": ("any", lambda ctx, h: [togroup(ctx, h, "one")]),
    "json": ("any", lambda ctx, h: [ctx.hb.Hist.fromjson(h.tojson())]),
    "table": ("any", lambda ctx, h: wreck(ctx, h.table(recarray=False))),
    "table profile": ("profile", lambda ctx, h: wreck(ctx, h.table("z", effcount=True, error=False, recarray=False))),
    "fraction": ("p", lambda ctx, h: wreck(ctx, h.fraction("p", error=None, recarray=False))),
    "axis": ("any", lambda ctx, h: [ctx.hb.Hist(*list(h.axis))]),
    "axis reordered": ("any", lambda ctx, h: [ctx.hb.Hist(*list(h.axis)[::-1])]),
    "axis part": ("any", lambda ctx, h: [ctx.hb.Hist(list(h.axis)[-1], weight="w")]),
    "select then project": ("x", lambda ctx, h: [h.select("x >= 1").project("x")]),
    "project then copyonfill": ("any", lambda ctx, h: [h.project(0).copyonfill()]),
    "copyonfill then select": ("x", lambda ctx, h: [h.copyonfill().select("x >= 1")]),
    "copyonfill then group": ("any", lambda ctx, h: [ctx.hb.Hist.group(by="src", one=h.copyonfill())]),
}
CHANGES = ["fill", "fill new", "book", "iadd", "iadd new", "imul", "attach", "clear", "detach"]


def suits(kind, axes):
    has = set(a[1] for a in axes if a[0] != "profile")
    return {"any": True, "group": "g" in has, "profile": any(a[0] == "profile" for a in axes), "x": "x" in has, "p": "p" in has, "b": "b" in has}[kind]


def configs(tier):
    out = []
    for hn, (axes, opts) in HISTS.items():
        for op in sorted(OPS):
            if suits(OPS[op][0], axes):
                for filled in ("filled", "unfilled", "empty"):
                    if filled != "filled" and (op.startswith("frac") or op.startswith("table")):
                        continue
                    if filled == "empty" and tier == "quick" and hn not in ("groupby", "groups"):
                        continue
                    out.append({"name": "%s %s %s" % (hn, filled, op), "h": hn, "op": op, "filled": filled})
    for op in ("copy", "copyonfill", "add", "mul", "cleared", "group", "add disjoint", "radd disjoint", "iadd disjoint", "add empty", "radd empty", "group disjoint", "copy of sum"):
        out.append({"name": "book %s" % op, "book": op})
    return out


def entry(ctx, tag, cat):
    e = {"x": ctx.real("x" + tag, -4, 4, 2), "p": ctx.boolean("p" + tag), "z": ctx.real("z" + tag, -4, 4, 2), "w": ctx.real("w" + tag, -4, 4, 2), "g": "a" if cat == "old" else "n", "b": 0.5 if cat == "old" else 5.5, "f": 1.0, "src": "one", "q": 1.0}
    return dict((n, ctx.array([v])) for n, v in e.items())


def fills(ctx, cats=("a", "c"), b=(0.5, 1.5)):
    out = []
    for c, bb in zip(cats, b):
        d = {"x": 0.5, "p": True, "z": 1.0, "w": 1.0, "g": c, "b": bb}
        out.append(dict((n, ctx.array([v])) for n, v in d.items()))
    return out


def mk(ctx, hn, name, filled="filled", **kw):
    axes, opts = HISTS[hn]
    if hn == "onlygroup" and not kw:
        kw = {"cats": ("a", "c", "d", "e", "f", "h"), "b": (0.5,) * 6}
    h = mkhist(ctx, axes, attachment={"k": 1}, **opts)
    if filled == "filled":
        reading = ctx.cfg.get("op", "").split()[0:1] in (["table"], ["fraction"])
        arbitrary(ctx, h, name, fills(ctx, **kw), only=() if reading else None, nonneg=("sumw", "sumw2") if reading else ())
    elif filled == "empty":
        h._prefill()
    return h


def like(h):
    for hn, (axes, opts) in HISTS.items():
        if hn == h.get("which"):
            return hn


def twin(ctx, h, name):
    """another histogram with the same axes and some concrete contents"""
    axes, opts = HISTS[ctx.cfg["h"]]
    t = mkhist(ctx, axes, **opts)
    for f in fills(ctx):
        t.fill(f)
    return t


def other(ctx, h):
    axes, opts = HISTS[ctx.cfg["h"]]
    t = mkhist(ctx, axes, **opts)
    for f in fills(ctx, ("c", "d"), (1.5, 2.5)):
        t.fill(f)
    return t


def iadd(a, b):
    a += b
    return a


def togroup(ctx, h, name):
    g = ctx.hb.Hist.group(by="src", one=twin(ctx, h, "o"))
    g.togroup(**{name: h})
    return g


def wreck(ctx, table):
    """overwrite everything in a result that is not a histogram"""
    def rec(t):
        if isinstance(t, dict):
            for x in t.values():
                rec(x)
        else:
            t[...] = -1.0
    rec(table)
    return []


def change(ctx, h, what, tag):
    if what in ("fill", "fill new"):
        h.fill(entry(ctx, tag, "old" if what == "fill" else "new"))
    elif what == "book":
        ctx.hb.Book(one=h, two=ctx.hb.Hist(ctx.hb.cut("p"))).fill(entry(ctx, tag, "old"))
    elif what in ("iadd", "iadd new"):
        o = h.cleared()
        o.fill(entry(ctx, tag, "old" if what == "iadd" else "new"))
        h += o
    elif what == "imul":
        h *= ctx.real("m" + tag, -4, 4, 2)
    elif what == "attach":
        h.attach("new" + tag, 2)
    elif what == "detach":
        if h.has("k"):
            h.detach("k")
    elif what == "clear":
        h.clear()


def run(ctx, cfg):
    if "book" in cfg:
        return book(ctx, cfg)
    h = mk(ctx, cfg["h"], "a", cfg["filled"])
    before = frozen(ctx, h)
    ds = OPS[cfg["op"]][1](ctx, h)
    checkfrozen(ctx, h, before, "%s leaves the original as it was" % cfg["op"])
    ctx.check((h._content is not None) == before["filled"] or cfg["filled"] == "unfilled", "%s leaves the original as it was" % cfg["op"])
    if not ds:
        change(ctx, h, "fill", "later")
        t = mkhist(ctx, HISTS[cfg["h"]][0], **HISTS[cfg["h"]][1])
        t.fill(entry(ctx, "later", "old"))
        want = combine(ctx, before["cells"], cells(ctx, t), lambda a, b: a + b)
        checkcells(ctx, cells(ctx, h), want, "a later fill of the original adds what it would have added")
        return
    what = ctx.choose("change", CHANGES)
    side = ctx.choose("side", [0, 1])
    everyone = ([h] + ds) if side == 0 else ([ds[0], h] + ds[1:])
    marks = [frozen(ctx, x) for x in everyone]
    change(ctx, everyone[0], what, "one")
    for x, m in list(zip(everyone, marks))[1:]:
        checkfrozen(ctx, x, m, "%s, then %s of the %s" % (cfg["op"], what, "original" if side == 0 else "result"))
    # now change the other side; the first one must not notice
    m = frozen(ctx, everyone[0])
    change(ctx, everyone[1], "fill", "two")
    checkfrozen(ctx, everyone[0], m, "%s, %s, then filling the other side" % (cfg["op"], what))
    # the original fills as if nothing had happened
    m = cells(ctx, h)
    h.fill(entry(ctx, "three", "old"))
    t = mkhist(ctx, HISTS[cfg["h"]][0], **HISTS[cfg["h"]][1])
    t.fill(entry(ctx, "three", "old"))
    checkcells(ctx, cells(ctx, h), combine(ctx, m, cells(ctx, t), lambda a, b: a + b), "a later fill of the original adds what it would have added")


def book(ctx, cfg):
    ctx.cfg["h"] = "groupby"
    mkb = lambda n: ctx.hb.Book(u=mk(ctx, "groupby", n + "u"), n=ctx.hb.Book(v=mk(ctx, "plain", n + "v")))
    b = mkb("a")
    names = [n for n, x in b.allitems(onlyhist=True)]
    before = [frozen(ctx, b[n]) for n in names]
    op = cfg["book"]
    if op == "group":
        d = ctx.hb.Book.group(by="src", one=b, two=mkb("o"))
    elif op == "group disjoint":
        d = ctx.hb.Book.group(by="src", one=b, two=ctx.hb.Book(t=mk(ctx, "plain", "o")))
    elif op == "add":
        d = b + mkb("o")
    elif op == "add disjoint":
        d = b + ctx.hb.Book(t=mk(ctx, "plain", "o"))
    elif op == "radd disjoint":
        d = ctx.hb.Book(t=mk(ctx, "plain", "o"), n=ctx.hb.Book(r=mk(ctx, "plain", "r"))) + b
    elif op == "iadd disjoint":
        d = ctx.hb.Book(t=mk(ctx, "plain", "o"))
        d += b
    elif op == "add empty":
        d = b + ctx.hb.Book()
    elif op == "radd empty":
        d = ctx.hb.Book() + b
    elif op == "copy of sum":
        d = (b + b).copyonfill()
    elif op == "mul":
        d = b * 2
    else:
        d = getattr(b, op)()
    ctx.check(d is not b and d["n"] is not b["n"], "a new book")
    for n, m in zip(names, before):
        checkfrozen(ctx, b[n], m, "book %s leaves the original as it was" % op)
        ctx.check(d[n] is not b[n], "members are new histograms")
    side = ctx.choose("side", [0, 1])
    what = ctx.choose("change", ["fill", "imul", "add", "attach", "set", "clear"])
    one, two = (b, d) if side == 0 else (d, b)
    marks = [frozen(ctx, two[n]) for n in names]
    keys = [n for n in two.allkeys()]
    att = dict(two.attachment)
    if what == "fill":
        one.fill(entry(ctx, "e", "new"))
    elif what == "imul":
        one *= 2
    elif what == "add":
        one += one.copy()
    elif what == "attach":
        one.attach("kk", 1)
    elif what == "set":
        one["n/extra"] = ctx.hb.Hist(ctx.hb.cut("p"))
        del one["u"]
    else:
        one.clear()
    for n, m in zip(names, marks):
        checkfrozen(ctx, two[n], m, "book %s, then %s" % (op, what))
    ctx.check([n for n in two.allkeys()] == keys and dict(two.attachment) == att, "the other book keeps its members and attachments")
