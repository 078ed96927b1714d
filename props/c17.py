"""C17: grouping histograms keeps each one's contents under its own key."""
from props import c05
from props.lib import *

BOUNDS = ("one to three (and six) histograms with arbitrary contents (every column of every bin any multiple of 1/16 in [-8,8]) of ten kinds (dense, one or two group axes with identical, overlapping, disjoint and empty key sets, unfilled, profiles, weights, equal and different ones, filters), under arbitrary names (symbolic strings of one character); "
          "grouping, adding to a group once and twice, filling afterwards, selecting and projecting the new axis; books nested two deep with one-sided members, every iteration order of sets of up to three names")
ASSUMPTIONS = ["contents are exactly representable, so equality is exact"]
OPTS = {"witnesses": 3, "text": True, "nondet_set": True}

HISTS = c05.HISTS


def configs(tier):
    out = []
    for n, (axes, opts, fills) in HISTS.items():
        sides = fills + ["unfilled"]
        for i, a in enumerate(sides):
            for j, b in enumerate(sides):
                out.append({"name": "%s group %s %s" % (n, a, b), "k": "group", "h": n, "sides": [a, b] + ([sides[(i + j) % len(sides)]] if (i + j) % 2 or tier != "quick" else [])})
                out.append({"name": "%s togroup %s %s" % (n, a, b), "k": "togroup", "h": n, "sides": [a, b], "add": [sides[(i + j + 1) % len(sides)], sides[(i + 2 * j) % len(sides)]]})
            if i == 0:
                out.append({"name": "%s six" % n, "k": "six", "h": n, "sides": [sides[(j * j) % len(sides)] for j in range(6)]})
            out.append({"name": "%s alone %s" % (n, a), "k": "group", "h": n, "sides": [a]})
            out.append({"name": "%s into an empty group %s" % (n, a), "k": "empty", "h": n, "a": a})
        out.append({"name": "%s refill" % n, "k": "refill", "h": n})
    for w in (["w", "w"], ["w", "v"], [2.0, 2.0], [2.0, 3.0], ["w", 2.0]):
        out.append({"name": "weights %s" % w, "k": "weights", "w": w})
    for shape in ("same", "onesided", "nested", "nestedonesided", "three", "alike", "kinds"):
        out.append({"name": "books %s" % shape, "k": "books", "shape": shape})
    out += [{"name": k, "k": k} for k in ("refused", "refusedbooks", "by")]
    return out


def slices(ctx, h, name):
    """the cells under one key of the first axis"""
    return dict((k[1:], c) for k, c in cells(ctx, h).items() if k[0] == name)


def names(ctx, n):
    """different names"""
    out = []
    for i in range(n):
        x = ctx.text("name%d" % i, 1, "abcxyz_")
        ctx.assume(all(x != y for y in out))
        out.append(x)
    return out


def have(ctx, h, want, msg):
    """want: name -> cells"""
    got = [k for k in (h._content or {})]
    ctx.check(len(got) == len(want) and all(any(k == n for k in got) for n, c in want), "%s: a category for every name and no other" % msg)
    for n, c in want:
        checkcells(ctx, slices(ctx, h, n), c, "%s: contents of one of them" % msg)


def keep(ctx, hs, before, msg):
    for h, f in zip(hs, before):
        checkfrozen(ctx, h, f, msg)


def run(ctx, cfg):
    return globals()["t_" + cfg["k"]](ctx, cfg)


def data(ctx, **kw):
    d = {"g": ["a", "b"], "k": ["u", "u"], "m": ["s", "t"], "x": [True, False], "w": [1.0, 2.0], "v": [3.0, 4.0], "p": [1.0, -1.0], "q": [0.5, 0.5], "c": [True, True], "source": ["a", "a"]}
    d.update(kw)
    return dict((n, ctx.array(v)) for n, v in d.items())


def numeric(h):
    return {"g": [0.0, 1.0]} if "groupbin" in h else {}


def t_group(ctx, cfg):
    ns = names(ctx, len(cfg["sides"]))
    hs = [c05.mk(ctx, cfg, "h%d" % i, s) for i, s in enumerate(cfg["sides"])]
    for i, h in enumerate(hs):
        h.attach("n", i)
    before = [frozen(ctx, h) for h in hs]
    g = ctx.hb.Hist.group(**dict(zip(ns, hs)))
    axes = list(g._group + g._fixed + g._profile)
    mine = list(hs[0]._group + hs[0]._fixed + hs[0]._profile)
    ctx.check(axes[0] == ctx.hb.groupby("source") and axes[1:] == mine, "one more axis, before the others")
    ctx.check(sorted(columns(g)) == sorted(columns(hs[0])), "the same columns")
    want = [(n, cells(ctx, h)) for n, h in zip(ns, hs)]
    have(ctx, g, want, "group")
    keep(ctx, hs, before, "grouping")
    keys = g.groupkeys("source")
    ctx.check(len(keys) == len(ns) and all(any(k == n for k in keys) for n in ns), "the categories are the names")
    # no storage in common
    g.fill(data(ctx, source=[ns[0], ns[0]], **numeric(cfg["h"])))
    keep(ctx, hs, before, "filling the group")
    after = frozen(ctx, g)
    for h in hs:
        h.fill(data(ctx, **numeric(cfg["h"])))
    checkfrozen(ctx, g, after, "filling the originals")


def t_six(ctx, cfg):
    """more than a few histograms at once"""
    ns = ["n%d" % i for i in (3, 1, 10, 2, 0, 5)]
    hs = [c05.mk(ctx, cfg, "h%d" % i, s) for i, s in enumerate(cfg["sides"])]
    before = [frozen(ctx, h) for h in hs]
    g = ctx.hb.Hist.group(**dict(zip(ns, hs)))
    have(ctx, g, [(n, cells(ctx, h)) for n, h in zip(ns, hs)], "group of six")
    g.togroup(**dict(zip(["m1", "n1", "m2", "n10", "m3", "n5"], hs)))
    plus = dict(zip(["m1", "n1", "m2", "n10", "m3", "n5"], hs))
    want = [(n, combine(ctx, cells(ctx, h), cells(ctx, plus[n]), c05.plus) if n in plus else cells(ctx, h)) for n, h in zip(ns, hs)]
    have(ctx, g, want + [(n, cells(ctx, h)) for n, h in plus.items() if n not in ns], "adding six to a group")
    keep(ctx, hs, before, "grouping six")


def t_togroup(ctx, cfg):
    ns = names(ctx, 2)
    hs = [c05.mk(ctx, cfg, "h%d" % i, s) for i, s in enumerate(cfg["sides"])]
    g = ctx.hb.Hist.group(**dict(zip(ns, hs)))
    want = [(n, cells(ctx, h)) for n, h in zip(ns, hs)]
    more = [c05.mk(ctx, cfg, "m%d" % i, s) for i, s in enumerate(cfg["add"])]
    before = [frozen(ctx, h) for h in hs + more]
    c = g.copyonfill()
    n1, n2 = ctx.text("new1", 1, "abcxyz_"), ctx.text("new2", 1, "abcxyz_")
    old = frozen(ctx, c)

    def add(name, h):
        for i, (n, x) in enumerate(want):
            if n == name:
                want[i] = (n, combine(ctx, x, cells(ctx, h), c05.plus))
                return
        want.append((name, cells(ctx, h)))
    g.togroup(**{n1: more[0]})
    add(n1, more[0])
    have(ctx, g, want, "adding to a group")
    checkfrozen(ctx, c, old, "adding to a group that is copied on fill")
    keep(ctx, hs + more, before, "adding to a group")
    if n1 != n2:
        g.togroup(**{n2: more[1], n1: more[0]})
        add(n2, more[1])
        add(n1, more[0])
        have(ctx, g, want, "adding two to a group")
        keep(ctx, hs + more, before, "adding to a group")
    g.fill(data(ctx, source=[n1, n1], **numeric(cfg["h"])))
    keep(ctx, hs + more, before, "filling the group")
    checkfrozen(ctx, c, old, "filling the group")


def t_empty(ctx, cfg):
    """adding to a group that has never been filled"""
    axes, opts, fills = HISTS[cfg["h"]]
    g = mkhist(ctx, [["groupby", "source"]] + axes, **opts)
    h = c05.mk(ctx, cfg, "h", cfg["a"])
    n = ctx.text("n", 1, "abcxyz_")
    before = frozen(ctx, h)
    g.togroup(**{n: h})
    have(ctx, g, [(n, cells(ctx, h))], "adding to an empty group")
    checkfrozen(ctx, h, before, "adding to an empty group")


def t_refill(ctx, cfg):
    """filling the group is filling the histogram of that name"""
    axes, opts, fills = HISTS[cfg["h"]]
    hs = [mkhist(ctx, axes, **opts) for i in range(2)]
    ref = [mkhist(ctx, axes, **opts) for i in range(2)]
    ws = [ctx.real("w%d" % i, -4, 4, 4) for i in range(2)]
    kw = numeric(cfg["h"])
    for r in (hs, ref):
        r[0].fill(data(ctx, w=ws, **kw))
        r[1].fill(data(ctx, x=[False, False], **kw))
    g = ctx.hb.Hist.group(a=hs[0], b=hs[1])
    if opts.get("filter"):
        # a group has no filter of its own
        have(ctx, g, [("a", cells(ctx, ref[0])), ("b", cells(ctx, ref[1]))], "group")
        return
    g.fill(data(ctx, w=ws, source=["b", "b"], **kw))
    ref[1].fill(data(ctx, w=ws, **kw))
    have(ctx, g, [("a", cells(ctx, ref[0])), ("b", cells(ctx, ref[1]))], "filling a group")


def t_weights(ctx, cfg):
    hb = ctx.hb
    hs = [hb.Hist(hb.cut("x"), hb.profile("p"), weight=w) for w in cfg["w"]]
    ws, vs = [ctx.real("w%d" % i, -4, 4, 4) for i in range(2)], [ctx.real("v%d" % i, -4, 4, 4) for i in range(2)]
    for h in hs:
        h.fill(data(ctx, w=ws, v=vs))
    g = hb.Hist.group(a=hs[0], b=hs[1])
    have(ctx, g, [("a", cells(ctx, hs[0])), ("b", cells(ctx, hs[1]))], "group")
    g.togroup(b=hs[0], c=hs[1])
    have(ctx, g, [("a", cells(ctx, hs[0])), ("b", combine(ctx, cells(ctx, hs[1]), cells(ctx, hs[0]), c05.plus)), ("c", cells(ctx, hs[1]))], "adding to a group")
    s = g.project("x")
    total = cells(ctx, hs[0])
    for h in (hs[1], hs[0], hs[1]):
        total = combine(ctx, total, cells(ctx, h), c05.plus)
    checkcells(ctx, cells(ctx, s), total, "projecting the group adds them all")
    t = g.select("source == 'b'")
    ctx.check(t.groupkeys("source") == set(["b"]), "selecting one name")
    checkcells(ctx, slices(ctx, t, "b"), combine(ctx, cells(ctx, hs[1]), cells(ctx, hs[0]), c05.plus), "selecting one name")


def t_by(ctx, cfg):
    hb = ctx.hb
    a, b = [arbitrary(ctx, hb.Hist(hb.bin("x", 1, 0, 1), hb.profile("p"), defs={"x": "c + q"}), n) for n in "ab"]
    g = hb.Hist.group(by="sample", u=a, v=b)
    ctx.check(g._group == (hb.groupby("sample"),) and g.groupkeys("sample") == set(["u", "v"]), "the new axis has the name given")
    have(ctx, g, [("u", cells(ctx, a)), ("v", cells(ctx, b))], "group")
    k = hb.Hist.group(by="kind", one=g, two=g)
    ctx.check([x.expr for x in k._group] == ["kind", "sample"], "groups of groups")
    have(ctx, k, [("one", cells(ctx, g)), ("two", cells(ctx, g))], "group of groups")
    k.togroup(two=g)
    have(ctx, k, [("one", cells(ctx, g)), ("two", mapcells(cells(ctx, g), lambda x: 2 * x))], "adding to a group of groups")


def t_refused(ctx, cfg):
    hb = ctx.hb
    a = arbitrary(ctx, hb.Hist(hb.bin("x", 1, 0, 1)), "a")
    other = [hb.Hist(hb.bin("x", 2, 0, 1)), hb.Hist(hb.bin("y", 1, 0, 1)), hb.Hist(hb.bin("x", 1, 0, 1), hb.profile("p")), hb.Hist(hb.bin("x", 1, 0, 1, underflow=False)), hb.Hist(hb.bin("x", 1, 0, 1, closedlow=False)),
             hb.Hist(hb.bin("x", 1, 0, 1), weight="w"), hb.Hist(), hb.Hist(hb.groupby("x")), hb.Hist(hb.bin("x", 1, 0, 1), hb.cut("c")), hb.Hist(hb.bin("x", 1, 0, 2))]
    g = hb.Hist.group(a=a)
    before = [frozen(ctx, x) for x in (a, g)]
    for o in other:
        raises(ctx, lambda: hb.Hist.group(a=a, b=o), (TypeError, ValueError), "different axes: %s" % o)
        raises(ctx, lambda: hb.Hist.group(b=o, a=a), (TypeError, ValueError), "different axes: %s" % o)
        raises(ctx, lambda: g.togroup(c=o), (TypeError, ValueError), "different axes: %s" % o)
        raises(ctx, lambda: g.togroup(a=a, c=o), (TypeError, ValueError), "different axes: %s" % o)
    B, P = (lambda: hb.bin("x", 1, 0, 1)), hb.profile
    fa = [{"g": ctx.array(["k"]), "x": ctx.array([0.5]), "p": ctx.array([1.0]), "q": ctx.array([1.0])}]
    for first, others in (([B(), P("p")], [[B(), P("q")], [B(), P("p"), P("q")], [B()], [B(), P("p + 1")], [B(), hb.cut("c"), P("p")]]),
                          ([B(), P("p"), P("q")], [[B(), P("q"), P("p")], [B(), P("p"), P("p")], [B(), P("p")]]),
                          ([hb.groupby("g"), B(), P("p")], [[hb.groupby("g"), B(), P("q")], [hb.groupby("k"), B(), P("p")], [hb.groupby("g"), hb.bin("x", 1, 0, 2), P("p")], [hb.groupbin("g", 1), B(), P("p")]]),
                          ([hb.cut("c"), B()], [[B(), hb.cut("c")], [hb.cut("d"), B()]])):
        u = hb.Hist(*first)
        if not any(isinstance(x, hb.cut) for x in first):
            arbitrary(ctx, u, "u%d" % len(first), fa)
        gu = hb.Hist.group(u=u)
        bu = [frozen(ctx, x) for x in (u, gu)]
        for o in others:
            o = hb.Hist(*o)
            raises(ctx, lambda: hb.Hist.group(a=u, b=o), (TypeError, ValueError), "different axes: %s and %s" % (u, o))
            raises(ctx, lambda: hb.Hist.group(b=o, a=u), (TypeError, ValueError), "different axes: %s and %s" % (o, u))
            raises(ctx, lambda: gu.togroup(c=o), (TypeError, ValueError), "different axes: %s to %s" % (o, gu))
            raises(ctx, lambda: gu.togroup(u=u, c=o), (TypeError, ValueError), "different axes: %s to %s" % (o, gu))
        keep(ctx, (u, gu), bu, "refused")
    raises(ctx, lambda: hb.Hist.group(), (TypeError, ValueError), "nothing to group")
    raises(ctx, lambda: hb.Hist.group(a=1), TypeError, "not a histogram")
    raises(ctx, lambda: g.togroup(a=None), TypeError, "not a histogram")
    raises(ctx, lambda: a.togroup(b=a), (TypeError, ValueError), "not a group")
    raises(ctx, lambda: hb.Hist.group(a=g), ValueError, "the axis exists")
    keep(ctx, (a, g), before, "refused")


# ------------------------------------------------------------------ books

def t_books(ctx, cfg):
    hb = ctx.hb
    ctx.permute_sets(3)

    def H(n, **kw):
        return arbitrary(ctx, hb.Hist(hb.cut("x"), hb.profile("p"), **kw), n)

    def D(n):
        return arbitrary(ctx, hb.Hist(hb.groupby("g")), n, [{"g": ctx.array([n])}])
    B = hb.Book
    from collections import OrderedDict as O
    shape = cfg["shape"]
    if shape == "same":
        books = O([("u", B(O([("h", H("a")), ("d", D("b"))]))), ("v", B(O([("h", H("c")), ("d", D("d"))])))])
    elif shape == "onesided":
        books = O([("u", B(O([("z", H("a")), ("h", H("b", weight="w")), ("a", D("c"))]))), ("v", B(O([("m", H("d")), ("z", H("e"))])))])
    elif shape == "nested":
        books = O([("u", B(O([("n/h", H("a")), ("n/d", D("b")), ("a", H("e"))]))), ("v", B(O([("n/h", H("c")), ("n/d", D("d")), ("a", H("f"))])))])
    elif shape == "nestedonesided":
        books = O([("u", B(O([("n/h", H("a")), ("m/h", H("b"))]))), ("v", B(O([("k", H("c")), ("n/d", D("d")), ("n/a/b", D("e"))])))])
    elif shape == "alike":
        books = O([("u", B(O([("Z", H("a")), ("z", H("b")), (" z", D("c")), ("z.z", D("g"))]))), ("v", B(O([("z", H("d")), ("Z", H("e")), ("z ", D("f"))])))])
    elif shape == "three":
        books = O([("u", B(O([("z", H("a"))]))), ("v", B(O([("y", H("b")), ("z", H("c"))]))), ("w", B(O([("x", D("d")), ("y", H("e")), ("z", H("f"))])))])
    else:
        books = O([("u", hb.book.ChannelsBook(O([("n", hb.book.GenericBook(h=H("a"))), ("*", H("b"))]))), ("v", hb.book.ChannelsBook(O([("n", hb.book.GenericBook(h=H("c"))), ("*", H("d"))])))])
    for n, b in books.items():
        b.attach("from " + n, n)
        b.attach("both", 1)
    before = dict((n, [(k, frozen(ctx, h)) for k, h in b.allitems(onlyhist=True)]) for n, b in books.items())
    g = hb.Book.group(**books)
    ctx.check(isinstance(g, hb.Book), "a book")

    def order(bs):
        out = []
        for b in bs:
            for n in b.keys():
                if n not in out:
                    out.append(n)
        full = []
        for n in out:
            subs = [b[n] for b in bs if n in b.keys()]
            if isinstance(subs[0], hb.book.GenericBook):
                full += [n + "/" + k for k in order(subs)]
            else:
                full.append(n)
        return full
    want = order(list(books.values()))
    ctx.check(g.allkeys(onlyhist=True) == want, "the names in order of appearance: %r" % (g.allkeys(onlyhist=True),))
    for k in want:
        have(ctx, g[k], [(n, cells(ctx, b[k])) for n, b in books.items() if k in b.allkeys()], "group of books at %s" % k)
    for n, b in books.items():
        ctx.check(g.get("from " + n) == n, "attachments of all")
        ctx.check(b.attachment == {"from " + n: n, "both": 1}, "the attachments of the originals are unchanged")
        ctx.check(b.allkeys(onlyhist=True) == [k for k, f in before[n]], "the names of the originals are unchanged")
        for k, f in before[n]:
            checkfrozen(ctx, b[k], f, "grouping books")


def t_refusedbooks(ctx, cfg):
    hb = ctx.hb
    h = arbitrary(ctx, hb.Hist(hb.cut("x")), "h")
    a = hb.Book(h=h)
    before = frozen(ctx, h)
    raises(ctx, lambda: hb.Book.group(a=a, b=h), TypeError, "not a book")
    raises(ctx, lambda: hb.Book.group(a=a, b=hb.Book(h=hb.Hist(hb.cut("y")))), TypeError, "different axes")
    raises(ctx, lambda: hb.Book.group(a=a, b=hb.Book(h=hb.Book())), TypeError, "a book and a histogram")
    raises(ctx, lambda: hb.Book.group(), (TypeError, ValueError), "nothing to group")
    checkfrozen(ctx, h, before, "refused")
