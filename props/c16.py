"""C16: a book behaves as a nested ordered mapping of paths to histograms."""
from props.lib import *

BOUNDS = ("books of up to seven histograms nested up to three deep (also empty, and with names made of wildcard characters), of all four kinds of books; names, paths and patterns are symbolic strings of one to five characters (histories: up to three each), every character any printable one but [ (which occurs in constant names and patterns); "
          "one operation followed by reading an arbitrary path, and histories of two (thorough: also three) operations out of assigning histograms and books, deleting, popping, setdefault, update, popitem, each followed by comparing all listings")
ASSUMPTIONS = ["fnmatch.fnmatchcase of the standard library decides which names match a pattern; an object assigned under several names is only one object; names with wildcards that exist are names"]
OPTS = {"witnesses": 4, "text": True}

SHAPES = {
    "empty": [],
    "flat": ["a", "b"],
    "nested": ["a", "n/c", "n/m/d", "b"],
    "odd": ["x*", "x?/*", "n/[a]", "n/a", "*/?", "ab"],
    "deep": ["n/m/d", "n/m/e", "n/c", "m/c", "c"],
}
OPS = ["set", "set book", "del", "pop", "setdefault", "popitem", "update", "update book"]
PATTERNS = ["*", "?", "n*", "*c", "n/*", "*/*", "[ab]", "[!a]", "n/[a-c]", "n?c", "*m*", "zz*", "??", "*[*]", "n/[[]a]", "*/[mn]", "[", "[]", "*["]


def configs(tier):
    out = []
    q = tier == "quick"

    def add(name, k, **kw):
        out.append(dict(kw, name=name, k=k, seconds=30 if q else 300))
    for shape in SHAPES:
        for n in range(1, 6 if q else 7):
            add("%s: read %d" % (shape, n), "read", shape=shape, n=n, wild=False)
        for n in range(1, 4 if q else 5):
            add("%s: read pattern %d" % (shape, n), "read", shape=shape, n=n, wild=True)
            add("%s: delete pattern %d" % (shape, n), "history", shape=shape, ops=["del"], n=[n], probe=0, wild=True)
        for op in OPS:
            for n in range(1, 6 if q else 7):
                if n > 1 and op in ("popitem", "update book"):
                    continue
                add("%s: %s %d" % (shape, op, n), "history", shape=shape, ops=[op], n=[n], probe=3 if n < 4 else 1, wild=False)
        for op in ("set", "set book", "update"):
            for n in (1, 2) if q else (1, 2, 3):
                add("%s: %s wild %d" % (shape, op, n), "history", shape=shape, ops=[op], n=[n], probe=min(n, 2), wild=True)
        for p in PATTERNS:
            add("%s: pattern %s" % (shape, p), "pattern", shape=shape, pattern=p, wild=False)
        for op in OPS[:5]:
            for op2 in OPS[:5]:
                for n, m in ((3, 3), (1, 5)) if q else ((1, 1), (1, 3), (3, 1), (3, 3), (2, 3), (3, 5), (5, 3), (4, 4)):
                    if q and m == 5 and (shape != "nested" or op not in ("set book", "del") or op2 not in ("set", "del")):
                        continue
                    add("%s: %s %d, %s %d" % (shape, op, n, op2, m), "history", shape=shape, ops=[op, op2], n=[n, m], probe=0, wild=False)
        for n in range(1, 4 if q else 6):
            add("%s: symbolic names %d" % (shape, n), "names", shape=shape, n=n, wild=False)
            add("%s: view %d" % (shape, n), "view", shape=shape, n=n, wild=True)
    add("three names", "names", shape="empty", n=1, wild=True)
    if not q:
        for ops in (["set", "del", "set"], ["set book", "set", "del"], ["del", "set", "pop"], ["set", "set", "del"]):
            add("three: %s" % ", ".join(ops), "history", shape="nested", ops=ops, n=[3, 3, 3], probe=0, wild=False)
    out += [{"name": k, "k": k, "wild": False} for k in ("constructors", "samples", "types", "copies")]
    return out


# ------------------------------------------------------------------ the model: a list of [name, histogram or (book, list)]

class Node(object):
    def __init__(self, book=None):
        self.book = book
        self.items = []

    def find(self, name):
        for it in self.items:
            if it[0] == name:
                return it
        return None

    def get(self, parts):
        it = self.find(parts[0])
        if it is None:
            return None
        if len(parts) == 1:
            return it[1]
        return it[1].get(parts[1:]) if isinstance(it[1], Node) else None

    def set(self, parts, value):
        it = self.find(parts[0])
        if len(parts) == 1:
            if it is None:
                self.items.append([parts[0], value])
            else:
                it[1] = value
            return True
        if it is None:
            it = [parts[0], Node()]
            self.items.append(it)
        return isinstance(it[1], Node) and it[1].set(parts[1:], value)

    def delete(self, parts):
        it = self.find(parts[0])
        if it is None:
            return False
        if len(parts) == 1:
            self.items = [x for x in self.items if x is not it]
            return True
        return isinstance(it[1], Node) and it[1].delete(parts[1:])

    def listing(self, recursive, onlyhist, path=None):
        out = []
        for n, x in self.items:
            full = n if path is None else path + "/" + n
            if not onlyhist or not isinstance(x, Node):
                out.append((full, x))
            if recursive and isinstance(x, Node):
                out.extend(x.listing(recursive, onlyhist, full))
        return out


def wild(name):
    return "*" in name or "?" in name or "[" in name


def hist(ctx):
    return ctx.hb.Hist(ctx.hb.bin("x", 2, 0, 2))


def isthe(ctx, got, want):
    """the object read is the one the model holds"""
    if isinstance(want, Node):
        if want.book is None:
            # made on the way: a book of its own from now on
            if not isinstance(got, ctx.hb.book.GenericBook):
                return False
            want.book = got
        return got is want.book
    return got is want


def verify(ctx, b, m, msg):
    for recursive in (False, True):
        for onlyhist in (False, True):
            at = "%s (recursive=%s, onlyhist=%s)" % (msg, recursive, onlyhist)
            want = m.listing(recursive, onlyhist)
            got = b.items(recursive=recursive, onlyhist=onlyhist)
            ctx.check(len(got) == len(want), "%s: %d items instead of %d" % (at, len(got), len(want)))
            ctx.check(all(n == k for (n, x), (k, v) in zip(got, want)), "%s: a name is wrong or out of order" % at)
            ctx.check(all(isthe(ctx, x, v) for (n, x), (k, v) in zip(got, want)), "%s: an item is not what was assigned" % at)
            lists = [(b.keys(recursive=recursive, onlyhist=onlyhist), b.values(recursive=recursive, onlyhist=onlyhist)),
                     (list(b.iterkeys(recursive=recursive, onlyhist=onlyhist)), list(b.itervalues(recursive=recursive, onlyhist=onlyhist)))]
            if recursive:
                lists.append((b.allkeys(onlyhist=onlyhist), b.allvalues(onlyhist=onlyhist)))
                lists.append(([n for n, x in b.allitems(onlyhist=onlyhist)], [x for n, x in b.allitems(onlyhist=onlyhist)]))
                if onlyhist:
                    lists.append(([n for n, x in b], [x for n, x in b]))
            ctx.check(all(len(ns) == len(xs) == len(got) and all(n == g[0] for n, g in zip(ns, got)) and all(x is g[1] for x, g in zip(xs, got)) for ns, xs in lists), "%s: the listings disagree" % at)
    ctx.check(len(b) == len(m.items), "%s: the length is not the number of names" % msg)
    wrong = 0
    for k, v in m.listing(True, False):
        try:
            got = b[k] if k in b else None
        except KeyError:
            got = None
        if not isthe(ctx, got, v):
            wrong += 1
    ctx.check(wrong == 0, "%s: what is read is not what was assigned" % msg)


def build(ctx, cls, shape, word=None):
    word = word or ctx.word
    b, m = cls(), Node()
    m.book = b
    for p in SHAPES[shape]:
        h = hist(ctx)
        p = word(p)
        b[p] = h
        m.set(p.split("/"), h)
    return b, m


def text(ctx, name, n):
    out = ctx.text(name, n)
    if not ctx.cfg["wild"]:
        ctx.assume(not wild(out))
    return out


def reads(ctx, b, m, q, msg):
    want = m.get(q.split("/"))
    if want is None and wild(q):
        got = b[q]
        expect = [v for k, v in m.listing(True, False) if ctx.matches(k, q)]
        ctx.check(isinstance(got, list) and len(got) == len(expect) and all(isthe(ctx, x, v) for x, v in zip(got, expect)), "%s: a pattern gives all that match, in order" % msg)
        return
    try:
        got = b[q]
    except KeyError:
        got = None
    ctx.check((got is None) == (want is None), "%s: %s" % (msg, "a name that does not exist is found" if want is None else "a name is not found"))
    ctx.check((q in b) == (want is not None), "%s: contained exactly if it can be read" % msg)
    if want is not None:
        ctx.check(isthe(ctx, got, want), "%s: what is read is not what was assigned" % msg)


def apply(ctx, b, m, op, p, msg):
    parts = p.split("/")
    if op in ("set", "set book", "update", "update book"):
        if op.endswith("book") and op != "update book":
            h = hist(ctx)
            x = ctx.hb.Book()
            x[ctx.word("k")] = h
            v = Node(x)
            v.items.append([ctx.word("k"), h])
        else:
            x = v = hist(ctx)
        try:
            if op == "update":
                b.update({p: x})
            elif op == "update book":
                # a book keeps paths in books of its own
                ctx.assume("/" not in p)
                o = ctx.hb.Book()
                o[p] = x
                b.update(o)
            else:
                b[p] = x
            done = True
        except KeyError:
            done = False
        ctx.check(done == m.set(parts, v), "%s: assigned unless a histogram is in the way" % msg)
    elif op == "setdefault":
        ctx.assume(not wild(p))
        old = m.get(parts)
        x = hist(ctx)
        try:
            got = b.setdefault(p, x)
            done = True
        except KeyError:
            done = False
        if old is not None:
            ctx.check(done and isthe(ctx, got, old), "%s: setdefault keeps what is there" % msg)
        else:
            ctx.check(done == m.set(parts, x), "%s: assigned unless a histogram is in the way" % msg)
            if done:
                ctx.check(got is x, "%s: setdefault returns the new value" % msg)
    elif op == "popitem":
        try:
            got = b.popitem()
        except KeyError:
            got = None
        if not m.items:
            ctx.check(got is None, "%s: nothing to pop" % msg)
        elif ctx.check(got is not None, "%s: something to pop" % msg):
            k, v = got
            it = m.find(k)
            ctx.check(it is not None and isthe(ctx, v, it[1]), "%s: one of the items" % msg)
            ctx.check(it is m.items[-1], "%s: the last of the items" % msg)
            m.delete([k])
    elif op == "del" and wild(p) and m.get(parts) is None:
        gone = [k for k, v in m.listing(True, False) if ctx.matches(k, p)]
        try:
            del b[p]
        except KeyError:
            ctx.check(not gone, "%s: refused only if nothing matches" % msg)
        for k in gone:
            m.delete(k.split("/"))
    else:
        if op == "pop":
            ctx.assume(not wild(p))
        old = m.get(parts)
        try:
            if op == "pop":
                got = b.pop(p)
            else:
                del b[p]
                got = None
            done = True
        except KeyError:
            done = False
        ctx.check(done == (old is not None), "%s: deleted exactly if it was there" % msg)
        if old is not None:
            if op == "pop":
                ctx.check(isthe(ctx, got, old), "%s: pop returns what was there" % msg)
            m.delete(parts)
        elif op == "pop":
            ctx.check(b.pop(p, None) is None, "%s: pop with a default" % msg)


def run(ctx, cfg):
    return globals()["t_" + cfg["k"]](ctx, cfg)


def kind(ctx, cfg):
    B = ctx.hb.book
    return [B.Book, B.GenericBook, B.ChannelsBook, B.ViewBook][sum(map(ord, cfg["name"])) % 4]


def t_read(ctx, cfg):
    b, m = build(ctx, kind(ctx, cfg), cfg["shape"])
    verify(ctx, b, m, "a new book")
    reads(ctx, b, m, text(ctx, "q", cfg["n"]), "reading")


def t_history(ctx, cfg):
    b, m = build(ctx, kind(ctx, cfg), cfg["shape"])
    for i, (op, n) in enumerate(zip(cfg["ops"], cfg["n"])):
        p = text(ctx, "p%d" % i, n)
        apply(ctx, b, m, op, p, op)
        verify(ctx, b, m, "after %s" % ", ".join(cfg["ops"][:i + 1]))
    if cfg["probe"]:
        reads(ctx, b, m, text(ctx, "q", cfg["probe"]), "reading after %s" % cfg["ops"][0])


def t_pattern(ctx, cfg):
    """constant patterns, one histogram with an arbitrary name among the others"""
    b, m = build(ctx, kind(ctx, cfg), cfg["shape"])
    p = text(ctx, "p", 2)
    apply(ctx, b, m, "set", p, "set")
    pat = ctx.word(cfg["pattern"])
    reads(ctx, b, m, pat, "reading %s" % cfg["pattern"])
    apply(ctx, b, m, "del", pat, "deleting %s" % cfg["pattern"])
    verify(ctx, b, m, "after deleting %s" % cfg["pattern"])


def t_names(ctx, cfg):
    """all names are arbitrary"""
    b, m = kind(ctx, cfg)(), Node()
    for i in range(3 if cfg["n"] == 1 else 2):
        apply(ctx, b, m, "set", text(ctx, "n%d" % i, cfg["n"]), "set")
        verify(ctx, b, m, "after setting %d" % i)


def t_view(ctx, cfg):
    B = ctx.hb.book
    b, m = build(ctx, B.ChannelsBook, cfg["shape"])
    pat = text(ctx, "p", cfg["n"])
    want = [(k, v) for k, v in m.listing(True, True) if ctx.matches(k, pat)]
    try:
        view = b.view(pat)
    except ValueError:
        view = None
    ctx.check((view is None) == (not want), "a view unless nothing matches")
    if view is not None:
        got = view.items(recursive=True, onlyhist=True)
        ctx.check(len(got) == len(want) and all(n == k and x is v for (n, x), (k, v) in zip(got, want)), "the view holds the histograms that match")
        view.fill(x=ctx.array([0.5]))
        for k, v in m.listing(True, True):
            n = ctx.sum(c["sumw"] for c in cells(ctx, v).values())
            ctx.check(ctx.same(n, 1.0 if any(v is x for j, x in want) else 0.0), "filling a view fills what it shows")
    verify(ctx, b, m, "after taking a view")


def t_constructors(ctx, cfg):
    import collections
    B = ctx.hb.book
    for cls in (B.Book, B.GenericBook, B.ChannelsBook):
        hs = [hist(ctx) for i in range(3)]
        for b, names in [(cls(*hs), ["0", "1", "2"]), (cls(collections.OrderedDict(zip("cab", hs))), ["c", "a", "b"]), (cls(c=hs[0], a=hs[1], b=hs[2]), ["c", "a", "b"]),
                         (cls(collections.OrderedDict([("z", hs[0])]), y=hs[1], x=hs[2]), ["z", "y", "x"]), (cls(hs[0], y=hs[1], x=hs[2]), ["0", "y", "x"]),
                         (cls.fromdicts(collections.OrderedDict(zip("cab", hs)), {}), ["c", "a", "b"]), (cls(cls(*hs[:2]), hs[2]), ["0/0", "0/1", "1"]),
                         (cls({"p/q": hs[0]}, **{"p/r": hs[1], "p/a/b": hs[2]}), ["p/q", "p/r", "p/a/b"])]:
            ctx.check(isinstance(b, cls) and b.allkeys(onlyhist=True) == names and [x for x in b.allvalues(onlyhist=True)] == hs and all(x is y for x, y in zip(b.allvalues(onlyhist=True), hs)), "constructing %s: %r" % (names, b.allkeys()))
        raises(ctx, lambda: cls({"a": hs[0]}, hs[1]), TypeError, "a dict and more")
        raises(ctx, lambda: cls(1), TypeError, "not a histogram")
        raises(ctx, lambda: cls({"a": 1}), TypeError, "not a histogram in a dict")
        raises(ctx, lambda: cls(a="x"), TypeError, "not a histogram by name")
    x = ctx.boolean("x")
    ctx.check(ctx.lor(x, ctx.lnot(x)), "decided")


def t_types(ctx, cfg):
    b, m = build(ctx, ctx.hb.Book, "nested")
    for key in (0, None, 1.5, ("a",), b"a" if str is not bytes else 1):
        raises(ctx, lambda: b[key], TypeError, "reading with a key that is not a string")
        raises(ctx, lambda: b.__setitem__(key, hist(ctx)), TypeError, "assigning with a key that is not a string")
        raises(ctx, lambda: b.__delitem__(key), TypeError, "deleting with a key that is not a string")
    for v in (0, None, "a", {}, [hist(ctx)], ctx.hb.bin("x", 2, 0, 2)):
        raises(ctx, lambda: b.__setitem__(ctx.word("z"), v), TypeError, "assigning what is not a histogram")
        raises(ctx, lambda: b.__setitem__(ctx.word("n/z"), v), TypeError, "assigning what is not a histogram")
    verify(ctx, b, m, "after refused assignments")
    p = text(ctx, "p", 1)
    raises(ctx, lambda: b.__setitem__(ctx.word("a/") + p, hist(ctx)), KeyError, "a histogram is in the way")
    raises(ctx, lambda: b.__setitem__(ctx.word("n/c/") + p, hist(ctx)), KeyError, "a histogram is in the way")
    verify(ctx, b, m, "after refused assignments")


def t_samples(ctx, cfg):
    B, hb = ctx.hb.book, ctx.hb
    s1, s2 = text(ctx, "s1", 1), text(ctx, "s2", 1)
    for s in (s1, s2):
        ctx.assume("/" not in s)
    h, g = hist(ctx), hist(ctx)
    b = B.SamplesBook([s1, s2], {ctx.word("h"): h, ctx.word("n/g"): g})
    want = [s1] if s1 == s2 else [s1, s2]
    got = b.allkeys(onlyhist=True)
    expect = [s + "/" + x for s in want for x in ("h", "n/g")]
    ctx.check(len(got) == len(expect) and all(x == y for x, y in zip(got, expect)), "every sample has every histogram")
    before = [frozen(ctx, x) for x in (h, g)]
    b[s1].fill(x=ctx.array([0.5, 0.5]))
    for s in want:
        for x in ("h", "n/g"):
            n = ctx.sum(c["sumw"] for c in cells(ctx, b[s + "/" + x]).values())
            ctx.check(ctx.same(n, 2.0 if s == s1 else 0.0), "samples are filled on their own")
    for x, f in zip((h, g), before):
        ctx.check(ctx.same(ctx.sum(c["sumw"] for c in cells(ctx, x).values()), 0.0), "the histograms given are not filled")


def t_copies(ctx, cfg):
    b, m = build(ctx, ctx.hb.Book, "nested")
    p = text(ctx, "p", 3)
    apply(ctx, b, m, "set", ctx.word("z/") + p, "set")
    for how in ("copy", "copyonfill", "cleared"):
        c = getattr(b, how)()
        ctx.check(type(c) is type(b), "%s: the same kind of book" % how)
        for (n, x), (k, v) in zip(c.allitems(), b.allitems()):
            ctx.check(n == k and x is not v, "%s: the same names, other objects" % how)
        ctx.check(len(c.allitems()) == len(b.allitems()), "%s: the same number of names" % how)
        del c[ctx.word("a")]
        del c[ctx.word("n/m/d")]
        c[ctx.word("n/m/z")] = hist(ctx)
        verify(ctx, b, m, "after changing a %s" % how)
