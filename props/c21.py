"""C21: exports carry the numbers and labels of the table."""
import types

from props.lib import *

BOUNDS = ("histograms of one to three axes of every kind and with every combination of underflow, overflow, nanflow and closed edges, zero to three keys per group axis (also none filled), profiles and weights; every column of every bin any multiple of 1/16 in [-8,8] (sums of squares and, for profiles, counts non-negative); "
          "Pandas: all options of table and fraction, every choice of cuts; ROOT: one-dimensional counts and profiles of regular and irregular axes, projected out of one or two axes")
ASSUMPTIONS = ["the stand-ins for pandas and ROOT take what these modules document: Interval(left, right, closed), MultiIndex.from_arrays(arrays, names), DataFrame(data, index, columns); TH1D(name, title, n, low, high) or (name, title, n, edges), SetContent, SetError, SetBinContent and so on; TProfile as ROOT 6 documents it (content divided by entries, error from the sum of squares)",
               "labels of infinite edges may be open or closed; the order of the rows is free"]
OPTS = {"witnesses": 3}

FLOWS = [dict(zip(("underflow", "overflow", "nanflow", "closedlow"), [bool(i & 8), bool(i & 4), bool(i & 2), bool(i & 1)])) for i in range(16)]
KEYS = {"many": ["t1", "t10", "t2", "T", "", "zz"], "many2": [0.5, 10.5, NAN, -7.5, 2.5, 100.0], "g": ["a", "b"], "k": [3, 1, 2], "x": [0.5, NAN, -2.0, 7.25], "y": [0.5]}


def configs(tier):
    out = []
    q = tier == "quick"

    def add(name, k, axes, opts={}, **kw):
        out.append(dict(kw, name="%s: %s" % (k, name), k=k, axes=axes, opts=opts, seconds=60 if q else 600))
    ONE = {}
    for i, f in enumerate(FLOWS):
        fl = "".join(str(int(f[n])) for n in ("underflow", "overflow", "nanflow", "closedlow"))
        ONE["bin " + fl] = ["bin", "x", 3, 0.1, 0.7, f]
        ONE["split " + fl] = ["split", "x", [-1.0, 0.3, 2.5], f]
        if i < 4:
            ONE["intbin %d" % i] = ["intbin", "x", -1, 1, {"underflow": bool(i & 1), "overflow": bool(i & 2)}]
    ONE["split one"] = ["split", "x", 2.0]
    ONE["cut"] = ["cut", "x > 0"]
    ONE["groupby"] = ["groupby", "g"]
    ONE["groupby numbers"] = ["groupby", "k"]
    ONE["groupbin"] = ["groupbin", "x", 1.0]
    ONE["groupbin open"] = ["groupbin", "x", 0.5, {"closedlow": False, "origin": 0.25}]
    for n, a in ONE.items():
        add(n, "table", [a], symbolic=True)
        add(n + " weight", "table", [a], {"weight": "w"})
        if n[0] in "bs":
            add(n, "root", [a])
            add(n + " weight", "root", [a], {"weight": "w"})
            if n.endswith("11"):
                add(n + " filter", "root", [a], {"filter": "x < 9"})
                add(n + " filter weight", "root", [a], {"filter": "x < 9", "weight": "w"})
            if n.endswith("11") or n.endswith("00") or not q:
                add(n + " profile", "rootp", [a, ["profile", "p"]])
                add(n + " profile weight", "rootp", [a, ["profile", "p"]], {"weight": "w"})
        elif n[0] in "i":
            add(n, "root", [a])
    add("cut", "root", [["cut", "x > 0"]])
    P, P2 = ["profile", "p"], ["profile", "p + y"]
    B, S, I, C, C2, G, K, GB = ["bin", "x", 2, 0.0, 2.0], ["split", "x", [0.0, 1.0], {"underflow": False}], ["intbin", "y", 0, 1], ["cut", "x > 0"], ["cut", "y > 0"], ["groupby", "g"], ["groupby", "k"], ["groupbin", "x", 1.0]
    add("no axis", "table", [])
    add("no axis weight profile", "table", [P], {"weight": "w"}, pick=["p"])
    add("profiles", "table", [B, P, P2], {"weight": "w"}, pick=["p + y"])
    add("profiles both", "table", [G, C, P, P2], {}, pick=["p + y", "p"])
    two = [("bin cut", [B, C2]), ("cut bin", [C2, B]), ("split intbin", [S, I]), ("group bin", [G, B]), ("bin group", [B, G]), ("two groups", [G, K]), ("group groupbin", [G, GB]), ("groupbin group", [GB, G]),
           ("groupbin cut", [GB, C2]), ("three", [C, I, C2]), ("group and two", [K, C2, S]), ("two groups bin", [G, GB, C2])]
    for n, a in two:
        add(n, "table", a, {"weight": "w"})
        add(n + " profile", "table", a + [P], {}, pick=["p"])
        add(n + " unfilled", "table", a, unfilled=True)
        add(n + " one key", "table", a, one=True)
        if "group" not in n:
            add(n + " normalized", "table", a, {"weight": "w"}, topts={"normalized": True})
        for o in ({"count": False}, {"error": False}, {"effcount": True}, {"count": False, "effcount": True, "error": False}):
            if o.get("count") is False and "effcount" not in o:
                add(n + " no count", "table", a + [P], pick=["p"], topts=o)
            else:
                add("%s %s" % (n, sorted(o)), "table", a, {"weight": "w"}, topts=o)
    cuts = [("cut", [C], [["x > 0"]]), ("two cuts", [C, C2], [["x > 0"], ["y > 0"], ["x > 0", "y > 0"], ["y > 0", "x > 0"]]), ("group cut", [G, C], [["x > 0"]]), ("bin cut", [B, C2], [["y > 0"]]),
            ("cut bin profile", [C2, B, P], [["y > 0"]]), ("groups cut", [G, GB, C2], [["y > 0"]]), ("group cuts", [K, C, C2], [["x > 0"], ["x > 0", "y > 0"]]), ("cut group cut bin", [C2, G, C, S], [["y > 0"], ["x > 0"]])]
    for n, a, picks in cuts:
        for p in picks:
            add("%s %s" % (n, p), "fraction", a, {"weight": "w"} if len(a) % 2 else {}, pick=p, topts={"error": None})
            if len(a) < 3 or not q:
                add("%s %s error" % (n, p), "fraction", a, {}, pick=p, topts={}, nonneg=True)
            add("%s %s no count" % (n, p), "fraction", a, {}, pick=p, topts={"count": False, "error": None})
    for n, a in (("bin", B), ("split", S), ("bin under", ["bin", "x", 2, 0.0, 2.0, {"overflow": False, "nanflow": False}])):
        add("project %s of cut" % n, "root", [C2, a], {"weight": "w"}, pick=["x"])
        add("project %s of group" % n, "root", [G, a], {}, pick=["x"])
        add("project %s of three" % n, "root", [a, G, C2], {"weight": "w"}, pick=["x"])
        add("project %s of cut profile" % n, "rootp", [C2, a, P], {"weight": "w"}, pick=["x"])
    for n, a in (("bin", ["bin", "x", 7, 0.1, 0.8]), ("split", ["split", "x", [-1.0, 0.3, 2.5, 3.0, 4.5, 7.0]]), ("split open", ["split", "x", [-1.0, 0.3, 2.5, 3.0, 4.5], {"closedlow": False, "nanflow": False}]), ("intbin", ["intbin", "x", -3, 12])):
        add("long %s" % n, "table", [a], {"weight": "w"})
        add("long %s and cut" % n, "table", [C2, a])
        if n != "intbin":
            add("long %s" % n, "root", [a], {"weight": "w"})
            add("long %s profile" % n, "rootp", [a, P, P2], {"weight": "w"}, prof=1)
            add("short %s profile" % n, "rootp", [B if n == "bin" else S, P, P2], {"weight": "w"} if n == "split" else {}, prof=n != "split open" and 1 or 0)
    add("many categories", "table", [["groupby", "many"], C2], {"weight": "w"})
    add("many groups", "table", [["groupbin", "many2", 1.0], G], {})
    out += [{"name": "refusals", "k": "refusals"}]
    return out


# ------------------------------------------------------------------ stand-ins

class Interval(object):
    def __init__(self, left, right, closed="right"):
        if closed not in ("left", "right", "both", "neither"):
            raise ValueError("invalid option for 'closed': %r" % (closed,))
        self.left, self.right, self.closed = left, right, closed


class MultiIndex(object):
    def __init__(self, arrays, names):
        self.arrays, self.names = [list(a) for a in arrays], names

    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        arrays = list(arrays)
        if len(arrays) == 0:
            raise ValueError("Must pass non-zero number of levels/codes")
        if len(set(len(a) for a in arrays)) != 1:
            raise ValueError("all arrays must be same length")
        if names is None:
            names = [None] * len(arrays)
        if len(names) != len(arrays):
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        return cls(arrays, list(names))


    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        return cls.from_arrays(list(zip(*tuples)), names=names)


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        self.data, self.index, self.columns = data, index, columns


class TAxis(object):
    pass


class TH1D(object):
    def __init__(self, name, title, n, *edges):
        self.name, self.title, self.n = name, title, n
        if len(edges) == 2:
            self.edges = [edges[0] + i * (edges[1] - edges[0]) / float(n) for i in range(n)] + [edges[1]]
        else:
            (e,) = edges
            self.edges = [e[i] for i in range(n + 1)]
            if len(e) < n + 1:
                raise ValueError("too few edges")
        self.content = [0.0] * (n + 2)
        self.error = None
        self.entries = 0.0

    def full(self, array):
        if len(array) != self.n + 2:
            raise ValueError("%d numbers for %d bins" % (len(array), self.n))
        return [array[i] for i in range(self.n + 2)]

    def SetContent(self, array):
        self.content = self.full(array)

    def SetError(self, array):
        self.error = self.full(array)

    def SetBinContent(self, i, x):
        self.content[i] = x

    def SetBinError(self, i, x):
        if self.error is None:
            self.error = [None] * (self.n + 2)
        self.error[i] = x

    def SetEntries(self, n):
        self.entries = n

    def GetName(self):
        return self.name


class TProfile(TH1D):
    def __init__(self, *args):
        TH1D.__init__(self, *args)
        self.binentries = [0.0] * (self.n + 2)

    def SetBinEntries(self, i, x):
        self.binentries[i] = x


def modules():
    pd, root = types.ModuleType("pandas"), types.ModuleType("ROOT")
    pd.Interval, pd.MultiIndex, pd.DataFrame = Interval, MultiIndex, DataFrame
    root.TH1D, root.TProfile = TH1D, TProfile
    return pd, root


# ------------------------------------------------------------------ subjects

def subject(ctx, cfg):
    h = mkhist(ctx, cfg["axes"], **cfg["opts"])
    if cfg.get("unfilled"):
        return h
    nonneg = ("sumw2",) + (("sumw",) if cfg.get("nonneg") or cfg.get("pick") or cfg.get("topts", {}).get("effcount") or cfg["k"] == "rootp" or "weight" not in cfg["opts"] else ())
    fills = None
    if h._group:
        n = 1 if cfg.get("one") else 6 if "many" in cfg["name"] else 4
        fills = [dict((f, ctx.array([KEYS[f][i % len(KEYS[f])]])) for f in KEYS) for i in range(n)]
        for f in fills:
            f["w"] = ctx.array([1.0])
            f["p"] = ctx.array([1.0])
    arbitrary(ctx, h, "c", fills, nonneg=nonneg)
    if cfg["k"] == "fraction" or cfg.get("pick") or cfg.get("topts", {}).get("effcount"):
        # all but the first and the last bin surely have entries: empty bins are told apart by case split
        j = columns(h)["sumw"]
        every = [(arr, idx) for key, arr in blocks(h).items() for idx in ndindex(ctx.shape(arr)[:-1])]
        for i, (arr, idx) in enumerate(every[1:-1]):
            arr[idx + (j,)] = ctx.real("n%d" % i, 1, 8, 4)
        cols = columns(h)
        for i, (arr, idx) in enumerate(every):
            if cfg["k"] == "table":
                # what is divided by is picked, different in every bin
                if "sumw2" in cols:
                    arr[idx + (cols["sumw2"],)] = (i + 1) / 16.0
                if h._profile:
                    arr[idx + (j,)] = (0.0, float(i + 1))[i > 0 or ctx.choose("any", [0, 1])]
    if cfg.get("topts", {}).get("normalized") or cfg.get("nonneg"):
        j = columns(h)["sumw"]
        for i, (arr, idx) in enumerate([(arr, idx) for key, arr in blocks(h).items() for idx in ndindex(ctx.shape(arr)[:-1])]):
            if i > 2 or cfg["k"] == "table":
                arr[idx + (j,)] = float(i + 1)
    if cfg["k"] == "rootp":
        # counts and sums are picked, so that the squares that a TProfile stores stay within reach
        cols = columns(h)
        n = 0
        every = [(arr, idx) for key, arr in blocks(h).items() for idx in ndindex(ctx.shape(arr)[:-1])]
        which = ctx.choose("which", list(range(len(every))))
        for arr, idx in every:
            n += 1
            arr[idx + (cols["sumw"],)] = 0.0 if n == 3 else float(n)
            for m in range(len(h._profile)):
                arr[idx + (cols["sumwx%d" % m],)] = n * 0.75 - 2 - m
                if n - 1 != which or m != cfg.get("prof", 0):
                    arr[idx + (cols["sumwx2%d" % m],)] = n * 1.25 + m
            if "sumw2" in cols:
                arr[idx + (cols["sumw2"],)] = n * 0.5
    return h


def sameedge(ctx, a, b, open1, open2):
    """numbers a and b are the same edge"""
    a, b = ctx.scalar(a), ctx.scalar(b)
    if not ctx.issym(b) and abs(b) == INF:
        return not ctx.issym(a) and a == b
    return ctx.land(open1 == open2, ctx.eq(a, b))


def samelabel(ctx, label, key, axis):
    I, N = ctx.hb.axis.Interval, ctx.hb.axis.IntervalNaN
    if isinstance(key, N):
        return isinstance(label, str) and "nan" in label.lower()
    if isinstance(key, I):
        if not isinstance(label, Interval):
            return False
        return ctx.decide(ctx.land(sameedge(ctx, label.left, key.low, label.closed in ("left", "both"), key.closedlow), sameedge(ctx, label.right, key.high, label.closed in ("right", "both"), key.closedhigh)))
    if isinstance(key, bool):
        return label is key or (not isinstance(label, str) and label == key)
    if isinstance(axis, ctx.hb.axis.intbin):
        return label == key or label == str(key)
    return type(label) is type(key) and label == key or label == key


def rows(ctx, axes, content, record):
    """[(published keys, record)] of a table"""
    out = []

    def rec(j, node, key):
        if j == len(axes):
            out.append((key, record(node)))
        elif isinstance(node, dict):
            for k, x in axes[j].items(node):
                rec(j + 1, x, key + (k,))
        else:
            for i, k in enumerate(axes[j].keys()):
                rec(j + 1, node[i], key + (k,))
    rec(0, content, ())
    return out


def checkframe(ctx, h, df, axes, content, columns, msg):
    want = rows(ctx, axes, content, lambda r: [ctx.scalar(r[n]) for n in columns])
    ctx.check(list(df.columns) == list(columns), "%s: columns %r are %r" % (msg, list(df.columns), list(columns)))
    if len(axes):
        ctx.check(isinstance(df.index, MultiIndex) and list(df.index.names) == [str(a.expr) for a in axes], "%s: the levels %r are the axes" % (msg, getattr(df.index, "names", None)))
        labels = list(zip(*df.index.arrays))
    else:
        labels = [()]
    ctx.check(len(labels) == len(want), "%s: %d rows for %d bins" % (msg, len(labels), len(want)))
    if len(want) == 0:
        return
    if df.data is None:
        ctx.fail("%s: the frame has no data" % msg)
        return
    if not ctx.isarray(df.data):
        df.data = ctx.np.array(df.data)
    ctx.check(tuple(ctx.shape(df.data)) == (len(labels), len(columns)), "%s: data of shape %r" % (msg, ctx.shape(df.data)))
    taken = set()
    for key, values in want:
        found = [i for i, l in enumerate(labels) if i not in taken and len(l) == len(key) and all(samelabel(ctx, x, k, a) for x, k, a in zip(l, key, axes))]
        if len(found) == 0:
            ctx.fail("%s: no row is labelled %r" % (msg, key))
            continue
        taken.add(found[0])
        for j, v in enumerate(values):
            got = ctx.scalar(df.data[found[0], j])
            ctx.check(ctx.same(got, v), "%s: %s at %r: %s != %s" % (msg, columns[j], key, show(ctx, got), show(ctx, v)))
    ctx.check(len(taken) == len(labels), "%s: every row is a bin" % msg)


def run(ctx, cfg):
    pd, root = modules()
    ctx.stub("pandas", pd)
    ctx.stub("ROOT", root)
    try:
        export(ctx, cfg)
    finally:
        ctx.unstub("pandas")
        ctx.unstub("ROOT")


def export(ctx, cfg):
    k = cfg["k"]
    if k == "refusals":
        return refusals(ctx)
    ctx.ideal()
    h = subject(ctx, cfg)
    before = frozen(ctx, h)
    o = cfg.get("topts", {})
    if k == "table":
        pick = cfg.get("pick", [])
        df = h.pandas(*[h.axis[p] if len(pick) > 1 else p for p in pick], **dict(o))
        content, columns = h.table(*pick, columns=True, **dict(o))
        checkframe(ctx, h, df, h._group + h._fixed, content, columns, "pandas")
    elif k == "fraction":
        df = h.pandas(*cfg["pick"], **dict(o))
        content, columns = h.fraction(*cfg["pick"], columns=True, **dict(o))
        axes = [a for a in h._group + h._fixed if str(a.expr) not in [str(h.axis[p].expr) for p in cfg["pick"]]]
        checkframe(ctx, h, df, axes, content, columns, "pandas")
    else:
        checkroot(ctx, cfg, h, k == "rootp")
    checkfrozen(ctx, h, before, "exporting")


def checkroot(ctx, cfg, h, prof):
    names = (cfg.get("pick") or [h._fixed[0].expr if not isinstance(h._fixed[0].expr, str) else h._fixed[0].expr])
    ax = [a for a in h._fixed if str(a.expr) == str(names[0])][0]
    k = cfg.get("prof", 0)
    pick = [ax] + ([h._profile[k]] if prof else [])
    cache = {}
    try:
        out = h.root(*pick, name="n", title="t", cache=cache)
    except Exception as err:
        if isinstance(ax, ctx.hb.bin) or isinstance(ax, ctx.hb.split):
            ctx.fail("root: %s cannot be exported: %r" % (ax, err))
        return
    p = h.project(ax)
    if prof:
        content = p.table(p._profile[k], recarray=False)
    else:
        content = p.table(recarray=False)
    ctx.check(out.name == "n" and out.title == "t" and cache.get("n") is out, "root: name, title and cache")
    ctx.check(isinstance(out, TProfile) == prof, "root: class")
    keys = ax.keys()
    expect = {}
    for i, key in enumerate(keys):
        if isinstance(key, ctx.hb.axis.IntervalNaN):
            continue                       # ROOT has no place for it
        if not isinstance(key, ctx.hb.axis.Interval):
            key = ctx.hb.axis.Interval(key, key)
        if key.low == -INF:
            j = 0
        elif key.high == INF:
            j = out.n + 1
        else:
            js = [j for j in range(out.n) if ctx.decide(ctx.land(ctx.close(out.edges[j], key.low, 1e-12, 10.0), ctx.close(out.edges[j + 1], key.high, 1e-12, 10.0)))]
            if len(js) != 1:
                ctx.fail("root: the bins from %r have no bin %r" % (out.edges, key))
                continue
            j = js[0] + 1
        expect[j] = i
    ctx.check(len(expect) == len([k for k in keys if not isinstance(k, ctx.hb.axis.IntervalNaN)]), "root: every bin has its own")
    total = 0.0
    for j in range(out.n + 2):
        i = expect.get(j)
        n = 0.0 if i is None else ctx.scalar(content[i, 0])
        total = total + n
        if not prof:
            ctx.check(ctx.same(ctx.scalar(out.content[j]), n), "root: content of bin %d" % j)
            if out.error is None:
                ctx.check(h._weightparsed is None, "root: errors of a weighted histogram")
            else:
                ctx.check(ctx.same(ctx.scalar(out.error[j]), 0.0 if i is None else ctx.scalar(content[i, 1])), "root: error of bin %d" % j)
        else:
            mean, err = (0.0, 0.0) if i is None else (ctx.scalar(content[i, 2]), ctx.scalar(content[i, 3]))
            c, e, s = ctx.scalar(out.content[j]), ctx.scalar(out.binentries[j]), ctx.scalar(out.error[j])
            ctx.check(ctx.same(e, n), "root: entries of bin %d" % j)
            ctx.check(ctx.close(c, mean * n, 1e-6, 100.0), "root: mean of bin %d" % j)
            ctx.check(ctx.close(s * s, (err * err * n + mean * mean) * n, 1e-6, 1e4), "root: error of bin %d" % j)
    ctx.check(ctx.close(ctx.scalar(out.entries), total, 1e-9, 100.0), "root: entries")


def refusals(ctx):
    hb = ctx.hb
    h = hb.Hist(hb.bin("x", 2, 0, 2), hb.cut("y > 0"), hb.profile("p"))
    before = frozen(ctx, h)
    raises(ctx, lambda: h.pandas("x"), (TypeError, IndexError), "a bin is neither a profile nor a cut")
    raises(ctx, lambda: h.pandas("p", "y > 0"), (TypeError, IndexError), "a cut is not a profile")
    raises(ctx, lambda: h.pandas("zz"), (IndexError, KeyError), "no such axis")
    raises(ctx, lambda: h.root("zz"), (IndexError, KeyError), "no such axis")
    raises(ctx, lambda: h.root(hb.bin("x", 3, 0, 2)), (IndexError, KeyError, ValueError), "no such binning")
    raises(ctx, lambda: h.root("p"), TypeError, "no axis")
    raises(ctx, lambda: h.root("x", nonsense=1), TypeError, "no such option")
    raises(ctx, lambda: h.pandas(nonsense=1), TypeError, "no such option")
    checkfrozen(ctx, h, before, "refused exports")
