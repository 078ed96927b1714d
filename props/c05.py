"""C05: adding and scaling histograms and books is arithmetic on their contents."""
from props.lib import *

BOUNDS = ("two or three histograms or books with arbitrary contents (every column of every bin any multiple of 2**-22 in [-8,8], 1/16 in chains of in-place operations), symbolic scale factor (multiples of 2**-24 in [-2,2]) and integers; "
          "dense axes (bin, split, intbin, cut), one or two group axes with identical, overlapping, disjoint and empty key sets, unfilled operands, profiles, weights; books nested two deep with one-sided members")
ASSUMPTIONS = ["contents are exactly representable, so equality is exact"]
OPTS = {"witnesses": 3}

HISTS = {
    "bin": ([["bin", "x", 2, 0.0, 2.0]], {}, [None]),
    "bin+w": ([["bin", "x", 2, 0.0, 2.0, {"underflow": False}]], {"weight": "w"}, [None]),
    "cut+p": ([["cut", "x"], ["profile", "p"]], {}, [None]),
    "split+intbin+p+w": ([["split", "x", [0.0, 1.0], {"nanflow": False}], ["cut", "c"], ["profile", "p"]], {"weight": 2.0}, [None]),
    "no axis": ([], {"filter": "x > 0"}, [None]),
    "profile": ([["profile", "p"], ["profile", "q"]], {"weight": "w"}, [None]),
    "groupby": ([["groupby", "g"]], {}, [["a"], ["b"], ["a", "b"], []]),
    "groupby+cut+p+w": ([["groupby", "g"], ["cut", "x"], ["profile", "p"]], {"weight": "w"}, [["a"], ["a", "b"], ["c"]]),
    "groupbin": ([["groupbin", "g", 1.0]], {"weight": "w"}, [[0.0], [1.0], [0.0, NAN], []]),
    "groupby2": ([["groupby", "g"], ["groupby", "k"]], {"weight": "w"}, [[("a", "u")], [("a", "v")], [("a", "u"), ("b", "u")], [("b", "v")], []]),
    "groupby many": ([["groupby", "g"]], {"weight": "w"}, [["e", "c", "a", "d", "b", "f"], ["a", "h", "i", "b", "j", "f", "e"]]),
    "groupby3": ([["groupby", "g"], ["groupby", "k"], ["groupby", "m"]], {}, [[("a", "u", "s"), ("a", "u", "t"), ("b", "v", "s")], [("b", "v", "t"), ("a", "u", "t"), ("b", "u", "s")]]),
}


def configs(tier):
    out = []
    for n, (axes, opts, fills) in HISTS.items():
        sides = fills + ["unfilled"]
        for i, a in enumerate(sides):
            for j, b in enumerate(sides):
                out.append({"name": "%s add %s %s" % (n, a, b), "k": "add", "h": n, "a": a, "b": b})
                out.append({"name": "%s iadd %s %s" % (n, a, b), "k": "iadd", "h": n, "a": a, "b": b})
            if tier == "thorough" or len(fills) == 1:
                for b in sides:
                    for c in sides:
                        out.append({"name": "%s assoc %s %s %s" % (n, a, b, c), "k": "assoc", "h": n, "a": a, "b": b, "c": c})
            else:
                out.append({"name": "%s assoc %s %s %s" % (n, a, sides[(i + 1) % len(sides)], sides[(i + 2) % len(sides)]), "k": "assoc", "h": n, "a": a,
                            "b": sides[(i + 1) % len(sides)], "c": sides[(i + 2) % len(sides)]})
            out.append({"name": "%s mul %s" % (n, a), "k": "mul", "h": n, "a": a})
        for kind in ("add", "iadd"):
            out.append({"name": "%s data %s" % (n, kind), "k": "data", "h": n, "op": kind})
        for a, b, c in [(x, y, z) for x in sides for y in sides for z in sides] if (tier == "thorough" or len(sides) <= 3) else [(sides[i], sides[(i + j) % len(sides)], sides[(i + l) % len(sides)]) for i in range(len(sides)) for j, l in ((0, 1), (1, 2), (2, 1), (1, 1))]:
            out.append({"name": "%s chain %s %s %s" % (n, a, b, c), "k": "chain", "h": n, "a": a, "b": b, "c": c})
    for kind in ("add", "iadd", "mul", "imul"):
        for shape in ("same", "onesided", "nested", "nestedonesided", "empty"):
            out.append({"name": "book %s %s" % (kind, shape), "k": "book", "op": kind, "shape": shape})
    out.append({"name": "refused", "k": "refused"})
    return out


def mk(ctx, cfg, name, side, h=None):
    axes, opts, fills = HISTS[cfg["h"]]
    g = 4 if cfg["k"] == "chain" else 22
    out = mkhist(ctx, axes, **opts)
    if side == "unfilled":
        return out
    if side is None:
        return arbitrary(ctx, out, name, g=g)
    data = [{"g": ctx.array([k[0] if isinstance(k, (list, tuple)) else k]), "k": ctx.array([k[1] if isinstance(k, (list, tuple)) else "z"]), "m": ctx.array([k[-1] if isinstance(k, (list, tuple)) else "z"]), "x": ctx.array([True]), "w": ctx.array([1.0]), "p": ctx.array([1.0])}
            for k in side]
    if not data:
        out._prefill()
        return out
    return arbitrary(ctx, out, name, data, g=g)


def plus(a, b):
    return a + b


def run(ctx, cfg):
    k = cfg["k"]
    if k in ("add", "iadd"):
        a, b = mk(ctx, cfg, "a", cfg["a"]), mk(ctx, cfg, "b", cfg["b"])
        want = combine(ctx, cells(ctx, a), cells(ctx, b), plus)
        if k == "add":
            s = a + b
            ctx.check(s is not a and s is not b, "the sum is a new histogram")
        else:
            s = a.copy()
            t = s
            s += b
            ctx.check(s is t, "+= changes the histogram in place")
        checkcells(ctx, cells(ctx, s), want, "sum")
        ctx.check(set(map(str, blocks(s))) == set(map(str, list(blocks(a)) + list(blocks(b)))), "the sum has the categories of both")
        ctx.check((s._content is None) == (a._content is None and b._content is None), "the sum is unfilled exactly when both are")
        ctx.check([repr(x) for x in s.axis] == [repr(x) for x in a.axis], "the sum has the axes of the operands")
        r = b + a
        checksame(ctx, s, r, "commutative")
        return
    if k == "assoc":
        a, b, c = mk(ctx, cfg, "a", cfg["a"]), mk(ctx, cfg, "b", cfg["b"]), mk(ctx, cfg, "c", cfg["c"])
        checksame(ctx, (a + b) + c, a + (b + c), "associative")
        return
    if k == "chain":
        # in-place arithmetic over and over: the operands on the right (and whatever the left one was derived from) keep their contents
        a, b, c = mk(ctx, cfg, "a", cfg["a"]), mk(ctx, cfg, "b", cfg["b"]), mk(ctx, cfg, "c", cfg["c"])
        ca, cb, cc = cells(ctx, a), cells(ctx, b), cells(ctx, c)
        v = ctx.real("factor", -2, 2, 24)

        def operands(what):
            for n, x, was in (("first", a, ca), ("second", b, cb), ("third", c, cc)):
                checkcells(ctx, cells(ctx, x), was, "%s: the %s operand is unchanged" % (what, n))
        for what, first in (("copyonfill", a.copyonfill()), ("copy", a.copy()), ("sum", a + b)):
            w = ca if what != "sum" else combine(ctx, ca, cb, plus)
            s = first
            s += b
            w = combine(ctx, w, cb, plus)
            operands("%s += second" % what)
            s += c
            s += b
            w = combine(ctx, combine(ctx, w, cc, plus), cb, plus)
            checkcells(ctx, cells(ctx, s), w, "%s, then += three times" % what)
            operands("%s += three times" % what)
            s *= v
            w = mapcells(w, lambda x: x * v)
            checkcells(ctx, cells(ctx, s), w, "%s, += and *=" % what)
            operands("%s, += and *=" % what)
            t = s + a
            t *= 2
            checkcells(ctx, cells(ctx, t), mapcells(combine(ctx, w, ca, plus), lambda x: x * 2), "sum of a sum, *= 2")
            checkcells(ctx, cells(ctx, s), w, "*= of a later sum leaves the earlier one")
            operands("a later sum, *= 2")
        s = a.copyonfill()
        s *= v
        checkcells(ctx, cells(ctx, s), mapcells(ca, lambda x: x * v), "copyonfill *=")
        operands("copyonfill *=")
        s = a.copy()
        s += s
        checkcells(ctx, cells(ctx, s), mapcells(ca, lambda x: x * 2), "h += h doubles it")
        operands("h += h")
        return
    if k == "mul":
        a = mk(ctx, cfg, "a", cfg["a"])
        v = ctx.real("factor", -2, 2, 24)
        before = cells(ctx, a)
        want = mapcells(before, lambda x: x * v)
        checkcells(ctx, cells(ctx, a * v), want, "h*v")
        checkcells(ctx, cells(ctx, v * a), want, "v*h")
        c = a.copy()
        d = c
        c *= v
        ctx.check(c is d, "*= changes the histogram in place")
        checkcells(ctx, cells(ctx, c), want, "h*=v")
        checksame(ctx, 2 * a, a + a, "2*h == h+h")
        checkcells(ctx, cells(ctx, a * 3), mapcells(before, lambda x: x * 3), "h*3")
        checkcells(ctx, cells(ctx, a * 0), mapcells(before, lambda x: 0.0), "h*0")
        checkcells(ctx, cells(ctx, a * ctx.np.float64(0.5)), mapcells(before, lambda x: x * 0.5), "numpy factor")
        for zero in (0, 0.0):
            z = a.copy()
            z *= zero
            for what, y in (("h*0", a * zero), ("h*=0", z)):
                ctx.check((y._content is None) == (a._content is None), "%s is filled exactly when h is" % what)
                ctx.check(sorted(map(str, blocks(y))) == sorted(map(str, blocks(a))), "%s keeps the categories" % what)
            checkcells(ctx, cells(ctx, z), mapcells(before, lambda x: 0.0), "h*=0")
        checkcells(ctx, cells(ctx, a), before, "operand unchanged")
        if cfg["a"] == "unfilled":
            ctx.check((a * v)._content is None and c._content is None, "a scaled unfilled histogram is unfilled")
        ctx.check([repr(x) for x in (a * v).axis] == [repr(x) for x in a.axis], "scaling keeps the axes")
        return
    if k == "data":
        axes, opts, fills = HISTS[cfg["h"]]

        def entry(i):
            e = {}
            for ax in axes:
                if ax[0] == "groupby":
                    e[ax[1]] = ctx.choose("%s%d" % (ax[1], i), ["a", "b"])
                elif ax[0] == "cut":
                    e[ax[1]] = ctx.boolean("%s%d" % (ax[1], i))
                else:
                    e[ax[1]] = ctx.real("%s%d" % (ax[1], i), -2, 2, 4)
            if opts.get("weight") == "w":
                e["w"] = ctx.real("w%d" % i, -8, 8, 4)
            if opts.get("filter"):
                e["x"] = ctx.real("x%d" % i, -8, 8, 4)
            return e
        es = [entry(0), entry(1)]
        arr = lambda sub: dict((f, ctx.array([e[f] for e in sub])) for f in es[0])
        hs = [mkhist(ctx, axes, **opts) for i in range(3)]
        hs[0].fill(arr(es[:1]))
        hs[1].fill(arr(es[1:]))
        hs[2].fill(arr(es))
        if cfg["op"] == "add":
            s = hs[0] + hs[1]
        else:
            s = hs[0]
            s += hs[1]
        checksame(ctx, s, hs[2], "sum equals filling with both data sets")
        return
    H, Bk = ctx.hb.Hist, ctx.hb.Book
    if k == "book":
        A = lambda n: arbitrary(ctx, H(ctx.hb.cut("x")), n, g=4)
        G = lambda n: arbitrary(ctx, H(ctx.hb.groupby("g"), weight="w"), n, [{"g": ctx.array(["k"]), "w": ctx.array([1.0])}], g=4)
        sh = cfg["shape"]
        if sh == "same":
            b1, b2 = Bk(u=A("a"), v=G("b")), Bk(v=G("c"), u=A("d"))
        elif sh == "onesided":
            b1, b2 = Bk(u=A("a"), v=G("b")), Bk(u=A("c"), w=A("d"))
        elif sh == "nested":
            b1, b2 = Bk(n=Bk(u=A("a"), v=G("b")), t=A("c")), Bk(n=Bk(u=A("d"), v=G("e")), t=A("f"))
        elif sh == "nestedonesided":
            b1, b2 = Bk(n=Bk(u=A("a")), t=A("c")), Bk(n=Bk(u=A("d"), v=G("e")), m=Bk(z=A("f")))
        else:
            b1, b2 = Bk(u=A("a")), Bk()
        before1 = dict((n, cells(ctx, x)) for n, x in b1.allitems(onlyhist=True))
        before2 = dict((n, cells(ctx, x)) for n, x in b2.allitems(onlyhist=True))
        order = [n for n, x in b1.allitems(onlyhist=True)]
        v = ctx.real("factor", -2, 2, 24)
        if cfg["op"] in ("add", "iadd"):
            if cfg["op"] == "add":
                s = b1 + b2
                for n, x in b1.allitems(onlyhist=True):
                    checkcells(ctx, cells(ctx, x), before1[n], "left operand unchanged")
            else:
                s = b1
                s += b2
                ctx.check(s is b1, "+= in place")
            want = dict((n, combine(ctx, before1.get(n, {}), before2.get(n, {}), plus)) for n in list(before1) + list(before2))
            for n, x in b2.allitems(onlyhist=True):
                checkcells(ctx, cells(ctx, x), before2[n], "right operand unchanged")
        else:
            if cfg["op"] == "mul":
                s = b1 * v
                r = v * b1
                for n, x in r.allitems(onlyhist=True):
                    checkcells(ctx, cells(ctx, x), mapcells(before1[n], lambda c: c * v), "v*book")
                for n, x in b1.allitems(onlyhist=True):
                    checkcells(ctx, cells(ctx, x), before1[n], "operand unchanged")
            else:
                s = b1
                s *= v
                ctx.check(s is b1, "*= in place")
            want = dict((n, mapcells(before1[n], lambda c: c * v)) for n in before1)
        if cfg["op"] in ("add", "mul"):
            later = b1.copy() + b2
            sums = [(s, want)] if cfg["op"] == "mul" else [(s, want), (later, want)]
            for d, wd in sums:
                e = d.copy()
                for n, x in e.allitems(onlyhist=True):
                    x *= 3
                e += b2
                for n, x in list(d.allitems(onlyhist=True)):
                    checkcells(ctx, cells(ctx, x), wd[n], "changing a copy of the result leaves the result")
            for d, wd in sums:
                d2 = d + d
                d *= 5
                for n, x in d.allitems(onlyhist=True):
                    x += x.copy()
            for b_, was in ((b1, before1), (b2, before2)):
                for n, x in b_.allitems(onlyhist=True):
                    checkcells(ctx, cells(ctx, x), was[n], "changing the result later leaves the operands")
            want = dict((n, mapcells(w_, lambda c: c * 10)) for n, w_ in want.items())
        elif cfg["op"] == "iadd":
            s += b2
            s *= 2
            for n, x in b2.allitems(onlyhist=True):
                checkcells(ctx, cells(ctx, x), before2[n], "right operand unchanged by later changes of the left one")
            want = dict((n, mapcells(combine(ctx, want[n], before2.get(n, {}), plus), lambda c: c * 2)) for n in want)
        got = dict(s.allitems(onlyhist=True))
        ctx.check(set(got) == set(want), "the members are those of both books: %s" % sorted(got))
        for n in want:
            if n in got:
                checkcells(ctx, cells(ctx, got[n]), want[n], "member %s" % n)
        if cfg["op"] in ("mul", "imul"):
            ctx.check([n for n, x in s.allitems(onlyhist=True)] == order, "members keep their order")
        return
    # refused
    hb = ctx.hb
    h = arbitrary(ctx, H(hb.cut("x")), "a")
    w = arbitrary(ctx, H(hb.cut("x"), weight="w"), "b")
    o = arbitrary(ctx, H(hb.cut("y")), "c")
    m = arbitrary(ctx, H(hb.bin("x", 2, 0, 1)), "d")
    m2 = arbitrary(ctx, H(hb.bin("x", 2, 0, 1, closedlow=False)), "e")
    two = arbitrary(ctx, H(hb.cut("x"), hb.cut("y")), "f")
    pp = [arbitrary(ctx, H(hb.cut("x"), *[hb.profile(e) for e in es]), "p%d" % i) for i, es in enumerate((("p",), ("q",), ("p", "q"), ("q", "p")))]
    gg = [H(hb.groupby("g"), hb.cut("x")), H(hb.groupby("k"), hb.cut("x")), H(hb.groupby("g"), hb.cut("y")), H(hb.groupbin("g", 1), hb.cut("x")), H(hb.cut("x"))]
    for x in gg[:3]:
        arbitrary(ctx, x, "g%d" % gg.index(x), [dict((n, ctx.array([v])) for n, v in (("g", "a"), ("k", "a"), ("x", True), ("y", True)))])
    before = [(x, cells(ctx, x)) for x in [h, w, o, m, m2, two] + pp + gg]

    def iadd(x, y):
        x += y

    def imul(x, y):
        x *= y
    b = Bk(u=h)
    pairs = [(x, y) for xs in (pp, gg) for x in xs for y in xs if x is not y]
    for what, fn in [("%s + %s" % (x, y), lambda x=x, y=y: x + y) for x, y in pairs] + [("%s += %s" % (x, y), lambda x=x, y=y: iadd(x, y)) for x, y in pairs] + [("hist + number", lambda: h + 1), ("hist += number", lambda: iadd(h, 1)), ("other axes", lambda: h + o), ("other axes +=", lambda: iadd(h, o)),
                     ("other closure", lambda: m + m2), ("other binning", lambda: h + m), ("more axes", lambda: h + two), ("fewer axes", lambda: two + h),
                     ("hist * string", lambda: h * "a"), ("hist * hist", lambda: h * o), ("hist *= string", lambda: imul(h, "2")),
                     ("unweighted + weighted", lambda: h + w), ("weighted + unweighted", lambda: w + h), ("unweighted += weighted", lambda: iadd(h, w)), ("weighted += unweighted", lambda: iadd(w, h)),
                     ("book + hist", lambda: b + h), ("hist + book", lambda: h + b), ("book += hist", lambda: iadd(b, h)), ("book * string", lambda: b * "a"),
                     ("member with other axes", lambda: b + Bk(u=o)), ("member of other kind", lambda: b + Bk(u=Bk(u=h)))]:
        raises(ctx, fn, (TypeError,), "%s is refused" % what)
        for x, c in before:
            checkcells(ctx, cells(ctx, x), c, "refused operation (%s) changes nothing" % what)
