"""C20: a refused fill changes nothing."""
from props.lib import *

BOUNDS = ("histograms of every axis kind (also two axes, computed expressions, definitions, weights, profiles, filters) and books of up to five of them (nested two deep, one histogram under two names, shared copies); "
          "prior contents: none, or every column of every bin any multiple of 1/16 in [-8,8]; refusals: any one field missing, fields whose lengths are any of none (a number), 0, 1, 2 or 3 elements, two-dimensional arrays, fields that cannot be read at any point of the fill, "
          "text where numbers are expected; up to two refused fills in a row, followed by a correct fill of one or two rows with symbolic values (multiples of 1/16 in [-3,3]); every list of fields compared with the names in the expressions")
ASSUMPTIONS = ["values are exactly representable, so equality is exact"]
OPTS = {"witnesses": 3}

# name -> (axes, options, fields in them)
HISTS = {
    "bin": ([["bin", "x", 2, 0.0, 2.0]], {}, ["x"]),
    "bin+w": ([["bin", "x", 2, 0.0, 2.0]], {"weight": "w"}, ["x", "w"]),
    "bin+p+w": ([["bin", "x", 2, 0.0, 2.0, {"overflow": False}], ["profile", "y"]], {"weight": "w"}, ["x", "y", "w"]),
    "computed": ([["bin", "x + y", 2, 0.0, 2.0]], {"weight": "2*w"}, ["x", "y", "w"]),
    "split+cut": ([["split", "x", [0.0, 1.0]], ["cut", "y > z"]], {}, ["x", "y", "z"]),
    "two bins": ([["bin", "x", 1, 0.0, 1.0], ["bin", "y", 1, 0.0, 1.0, {"nanflow": False}]], {}, ["x", "y"]),
    "filter": ([["bin", "x", 2, 0.0, 2.0]], {"filter": "y > 0"}, ["x", "y"]),
    "filter only": ([], {"filter": "x > z"}, ["x", "z"]),
    "weight only": ([], {"weight": "x - z"}, ["x", "z"]),
    "profiles": ([["profile", "x"], ["profile", "y"]], {"filter": "x > y"}, ["x", "y"]),
    "defs": ([["bin", "d", 2, 0.0, 2.0], ["cut", "e > y"]], {"defs": {"d": "x + y", "e": "x + z"}}, ["x", "y", "z"]),
    "groupby": ([["groupby", "g"]], {}, ["g"]),
    "groupby+": ([["groupby", "g"], ["cut", "x > 0"], ["profile", "y"]], {"weight": "w"}, ["g", "x", "y", "w"]),
    "groupby2": ([["groupby", "g"], ["groupby", "k"], ["bin", "x", 1, 0.0, 1.0]], {}, ["g", "k", "x"]),
    "groupbin": ([["groupbin", "x", 1.0]], {"weight": "w", "filter": "y < 1"}, ["x", "w", "y"]),
    "number weight": ([["cut", "x > y"]], {"weight": 2.0}, ["x", "y"]),
}
BOOKS = {
    "two": {"a": "bin", "b": "bin+w"},
    "disjoint": {"a": "bin", "b": "weight only", "c": "groupby"},
    "nested": {"a": "groupby+", "n/b": "filter", "n/m/c": "split+cut", "d": "bin"},
    "profiles": {"a": "bin+p+w", "n/a": "computed", "b": "defs"},
}
STRINGS = ("g", "k")
MORE = {"twice": ["a", "b"], "shared": ["a", "b"]}
PRIORS = ("unfilled", "filled", "copied")


def configs(tier):
    out = []
    q = tier == "quick"

    def add(name, k, **kw):
        out.append(dict(kw, name=name, k=k, seconds=60 if q else 600))
    things = [("hist", h) for h in HISTS] + [("book", b) for b in list(BOOKS) + ["twice", "shared"]]
    for kind, t in things:
        for prior in PRIORS:
            if prior == "copied" and kind == "book":
                continue
            p = "%s %s %s: " % (kind, t, prior)
            add(p + "missing", "missing", kind=kind, t=t, prior=prior)
            add(p + "unreadable", "unreadable", kind=kind, t=t, prior=prior)
            if prior != "copied":
                add(p + "lengths", "lengths", kind=kind, t=t, prior=prior, choices=[2, 1] if q else [2, 1, 0])
                add(p + "one odd", "odd", kind=kind, t=t, prior=prior, base=2, odd=[0, 1, 3])
                add(p + "one odd of one", "odd", kind=kind, t=t, prior=prior, base=1, odd=[0, 2])
                add(p + "one odd of none", "odd", kind=kind, t=t, prior=prior, base=0, odd=[1, 2])
                add(p + "two-dimensional", "2d", kind=kind, t=t, prior=prior)
                add(p + "numbers", "numbers", kind=kind, t=t, prior=prior)
            if prior == "filled" and (not q or kind == "book" or len(HISTS[t][2]) > 2):
                add(p + "two refusals", "two", kind=kind, t=t, prior=prior)
        add("%s %s: fields" % (kind, t), "fields", kind=kind, t=t)
        add("%s %s: text" % (kind, t), "text", kind=kind, t=t)
    for b in list(BOOKS) + ["twice", "shared"]:
        add("book %s: member afterwards" % b, "member", kind="book", t=b, prior="filled")
    add("constants", "constants")
    return out


# ------------------------------------------------------------------ subjects

def hist(ctx, t):
    axes, opts, fields = HISTS[t]
    return mkhist(ctx, axes, **opts)


def fieldsof(cfg):
    if cfg["kind"] == "hist":
        return list(HISTS[cfg["t"]][2])
    if cfg["t"] in MORE:
        return ["x", "w"]
    out = []
    for h in BOOKS[cfg["t"]].values():
        out += [f for f in HISTS[h][2] if f not in out]
    return out


def subject(ctx, cfg, fill=None):
    """(what is filled, {path: histogram})"""
    if cfg["kind"] == "hist":
        h = hist(ctx, cfg["t"])
        return h, {"": h}
    if cfg["t"] == "twice":
        h = hist(ctx, "bin+w")
        b = ctx.hb.Book()
        b["a"] = h
        b["n/b"] = h
        return b, {"a": h}
    if cfg["t"] == "shared":
        h = hist(ctx, "bin+w")
        if fill is not None:
            fill(h, "h")
        b = ctx.hb.Book()
        b["a"] = h
        b["b"] = h.copy()
        return b, {"a": b["a"], "b": b["b"]}
    b = ctx.hb.Book()
    out = {}
    for path, t in BOOKS[cfg["t"]].items():
        out[path] = b[path] = hist(ctx, t)
    return b, out


def start(ctx, cfg):
    """subject, histograms, histograms that share contents with them"""
    def fill(h, name):
        some = None
        if h._group:
            some = [dict((f, ctx.array(["a" if f in STRINGS else 0.5])) for f in ("g", "k", "x", "y", "w", "z"))]
        arbitrary(ctx, h, name, some)
    prior = cfg.get("prior", "unfilled")
    s, hists = subject(ctx, cfg, fill if prior != "unfilled" else None)
    others = []
    if prior != "unfilled":
        for i, p in enumerate(hists):
            if cfg["t"] != "shared":
                fill(hists[p], "c%d" % i)
    if prior == "copied":
        others = [s.copy() for _ in range(2)]
    return s, hists, others


def data(ctx, cfg, name, n):
    """field -> array of n rows"""
    out = {}
    for f in fieldsof(cfg):
        out[f] = column(ctx, f, "%s_%s" % (name, f), n)
    return out


def column(ctx, f, name, n):
    if f in STRINGS:
        return ctx.array(["ab"[i % 2] for i in range(n)]) if n else ctx.np.array([], dtype="<U1")
    return ctx.array([ctx.real("%s%d" % (name, i), -3, 3, 4) for i in range(n)]) if n else ctx.np.array([], dtype=float)


def refused(ctx, s, arrays, kinds, msg):
    try:
        s.fill(arrays)
    except kinds:
        return True
    ctx.fail("%s: the fill is not refused" % msg)
    return False


def snapshot(ctx, s, hists, others):
    return [(p, h, frozen(ctx, h)) for p, h in hists.items()] + [("copy", h, frozen(ctx, h)) for h in others]


def unchanged(ctx, cfg, snap, msg):
    for p, h, before in snap:
        checkfrozen(ctx, h, before, "%s: %s after a refused fill" % (msg, p))
        if not before["filled"] and cfg["t"] != "shared":
            t = cfg["t"] if cfg["kind"] == "hist" else BOOKS[cfg["t"]][p] if cfg["t"] in BOOKS else "bin+w"
            ctx.check(h == hist(ctx, t), "%s: %s equals a histogram that has never been filled" % (msg, p))


def later(ctx, cfg, s, hists, others, snap, n=1):
    """a correct fill counts as if nothing had been refused"""
    arrays = data(ctx, cfg, "later", n)
    s.fill(arrays)
    counts(ctx, cfg, hists, snap, arrays, "a correct fill after a refused one")
    for p, h, before in snap:
        if p == "copy":
            checkfrozen(ctx, h, before, "copy after the correct fill")


def counts(ctx, cfg, hists, snap, arrays, msg):
    fresh, fhists = subject(ctx, cfg)
    for p in fhists:                        # one by one, so that no book is needed
        fhists[p].fill(arrays)
    befores = dict((p, b) for p, h, b in snap if p != "copy")
    for p in hists:
        want = combine(ctx, befores[p]["cells"], cells(ctx, fhists[p]), lambda a, b: a + b)
        checkcells(ctx, cells(ctx, hists[p]), want, "%s: %s" % (msg, p))


class Broken(Exception):
    pass


class Unreadable(object):
    """a mapping whose n-th read, and every read of a bad field, fails"""

    def __init__(self, arrays, bad, n):
        self.arrays, self.bad, self.n, self.count = arrays, bad, n, 0

    def __getitem__(self, name):
        self.count += 1
        if name == self.bad or self.count == self.n:
            raise Broken(name)
        return self.arrays[name]

    def __contains__(self, name):
        return name in self.arrays

    def __len__(self):
        return len(self.arrays)

    def __iter__(self):
        return iter(self.arrays)

    def keys(self):
        return list(self.arrays)

    def get(self, name, default=None):
        return self[name] if name in self else default


# ------------------------------------------------------------------ checks

def run(ctx, cfg):
    k = cfg["k"]
    if k == "constants":
        return constants(ctx)
    fields = fieldsof(cfg)
    if k == "fields":
        s, hists = subject(ctx, cfg)
        ctx.check(list(s.fields) == sorted(fields), "fields %r are the names in the expressions %r" % (s.fields, sorted(fields)))
        arrays = data(ctx, cfg, "d", 1)
        extra = dict(arrays)
        extra["another"] = ctx.array([1.0])
        extra["axis"] = ctx.array(["u"])
        before = snapshot(ctx, s, hists, [])
        s.fill(extra)
        counts(ctx, cfg, hists, before, arrays, "exactly the fields and unrelated ones")
        ctx.check(list(s.fields) == sorted(fields), "fields stay the same after a fill")
        return
    if k == "text":
        # text where a number is expected, in the field that is read last, first or in between
        for prior in ("unfilled", "filled"):
            for f in fields:
                if f in STRINGS:
                    continue
                c = dict(cfg, prior=prior)
                s, hists, others = start(ctx, c)
                snap = snapshot(ctx, s, hists, others)
                arrays = data(ctx, c, "bad_%s_%s" % (prior, f), 1)
                arrays[f] = ctx.np.array(["u"])
                try:
                    s.fill(arrays)
                except Exception:
                    unchanged(ctx, c, snap, "text in %s" % f)
        return

    s, hists, others = start(ctx, cfg)
    snap = snapshot(ctx, s, hists, others)
    advertised = list(s.fields)
    if k == "missing":
        arrays = data(ctx, cfg, "bad", 1)
        gone = ctx.choose("gone", fields)
        del arrays[gone]
        refused(ctx, s, arrays, (ValueError, KeyError, TypeError), "without %s" % gone)
    elif k == "unreadable":
        arrays = data(ctx, cfg, "bad", 1)
        bad = ctx.choose("bad", fields + [1, 2, 3, 5, 8])
        m = Unreadable(arrays, bad if isinstance(bad, str) else None, None if isinstance(bad, str) else bad)
        try:
            s.fill(m)
        except Broken:
            pass
        else:
            if isinstance(bad, str):
                ctx.fail("the fill does not need %s" % bad)
            return                               # fewer reads than that
    elif k in ("odd", "lengths"):
        if k == "odd":
            odd = ctx.choose("odd", fields)
            m = ctx.choose("length", cfg["odd"])
            lens = dict((f, m if f == odd else cfg["base"]) for f in fields)
        else:
            lens = dict((f, ctx.choose("len " + f, cfg["choices"] + ["number"])) for f in (fields if len(fields) < 4 else fields[:3] + fields[-1:]))
            for f in fields:
                lens.setdefault(f, cfg["choices"][0])
        arrays = {}
        for f in fields:
            if lens[f] == "number":
                arrays[f] = "a" if f in STRINGS else ctx.real("num_" + f, -3, 3, 4)
            else:
                arrays[f] = column(ctx, f, "bad_" + f, lens[f])
        some = sorted(set(x for x in lens.values() if x != "number"))
        if len(some) < 2:
            n = some[0] if some else 1
            full = dict((f, (ctx.array([arrays[f]] * n) if n else column(ctx, f, "none_" + f, 0)) if lens[f] == "number" else arrays[f]) for f in fields)
            s.fill(arrays)
            counts(ctx, cfg, hists, snap, full, "equal lengths %r" % lens)
            return
        refused(ctx, s, arrays, (ValueError, IndexError, TypeError), "lengths %r" % lens)
    elif k == "2d":
        arrays = data(ctx, cfg, "bad", 2)
        f = ctx.choose("two-dimensional", fields)
        arrays[f] = column(ctx, f, "flat_" + f, 4).reshape((2, 2))
        refused(ctx, s, arrays, (ValueError, IndexError, TypeError), "two-dimensional %s" % f)
    elif k == "numbers":
        arrays = dict((f, "a" if f in STRINGS else ctx.real("num_" + f, -3, 3, 4)) for f in fields)
        gone = ctx.choose("gone", fields)
        some = dict((f, x) for f, x in arrays.items() if f != gone)
        refused(ctx, s, some, (ValueError, KeyError, TypeError), "numbers without %s" % gone)
        unchanged(ctx, cfg, snap, k)
        s.fill(arrays)
        counts(ctx, cfg, hists, snap, dict((f, ctx.array([arrays[f]])) for f in fields), "numbers")
        return
    elif k == "two":
        arrays = data(ctx, cfg, "bad", 2)
        gone = ctx.choose("gone", fields)
        odd = ctx.choose("odd", fields)
        some = dict(arrays)
        del some[gone]
        wrong = dict(arrays)
        wrong[odd] = column(ctx, odd, "odd", 1)
        first = ctx.choose("first", [0, 1])
        for i in (first, 1 - first):
            if i == 0:
                refused(ctx, s, some, (ValueError, KeyError, TypeError), "without %s" % gone)
            elif len(fields) > 1:
                refused(ctx, s, wrong, (ValueError, IndexError, TypeError), "one %s" % odd)
    elif k == "member":
        arrays = data(ctx, cfg, "bad", 2)
        gone = ctx.choose("gone", fields)
        some = dict(arrays)
        del some[gone]
        refused(ctx, s, some, (ValueError, KeyError, TypeError), "without %s" % gone)
        unchanged(ctx, cfg, snap, k)
        for p in hists:
            hists[p].fill(arrays)
        counts(ctx, cfg, hists, snap, arrays, "filling each on its own after a refused fill of the book")
        return
    unchanged(ctx, cfg, snap, k)
    ctx.check(list(s.fields) == advertised, "fields stay the same after a refused fill")
    later(ctx, cfg, s, hists, others, snap, 1)


def constants(ctx):
    """named constants may be left out, or supplied like any field"""
    import math
    hb = ctx.hb
    for name, value in (("pi", math.pi), ("e", math.e)):
        for make in (lambda: hb.Hist(hb.bin("x + %s" % name, 2, 0.0, 8.0), weight="w"), lambda: hb.Hist(hb.bin("x", 2, 0.0, 2.0), weight="w + %s" % name)):
            x, w = ctx.array([ctx.real("x_%s" % name, -3, 3, 4)]), ctx.array([ctx.real("w_%s" % name, -3, 3, 4)])
            a, b = make(), make()
            ctx.check(set(a.fields) - set([name]) == set(["x", "w"]), "fields of an expression with %s" % name)
            a.fill(x=x, w=w)
            b.fill({"x": x, "w": w, name: ctx.array([value])})
            for i, c in cells(ctx, a).items():
                d = cells(ctx, b)[i]
                for n in c:
                    ctx.check(ctx.close(c[n], d[n], 1e-9, 50.0), "%s left out counts as its value" % name)
            raises(ctx, lambda: make().fill({"x": x, name: ctx.array([value])}), (ValueError, KeyError), "w is needed")
