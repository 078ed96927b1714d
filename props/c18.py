"""C18: plots show the numbers of the table."""
import re

from props.lib import *

BOUNDS = ("histograms with 1-4 axes of every kind (flow bins on and off), unweighted and weighted, with profiles; up to four bins with arbitrary contents, the others holding fixed different numbers; every terminal operation (bar, step, area, line, marker, heatmap) along every kind of axis, "
          "with and without error bars, counts, profiles and normalised counts, linear and logarithmic scale, every channel (overlay, stack with and without order, beside, below) over every kind of axis and their combinations over up to four axes; combinations overlay, beside, below, grid of 1-4 plots and of 30 plots, nested twice; unfilled histograms")
ASSUMPTIONS = ["the Vega-Lite renderer is trusted: what is judged is the specification, read according to the Vega-Lite documentation (data, filter and calculate transforms, encoding fields, types and scale domains); how marks are interpolated between points and how axes are drawn is outside",
               "bins of labelled axes are identified by their published text, so edges that agree in six digits are outside", "an overlay and a stack in the same plot use the same colour channel and are outside; so are error bars on stacked plots"]
OPTS = {"witnesses": 2, "query_ms": 3000}
OPTS_QUICK = {"budget_s": 150}

AX = {
    "bin": ["bin", "x", 2, 0.0, 2.0],
    "bin low": ["bin", "x", 2, 0.0, 2.0, {"overflow": False, "closedlow": False}],
    "bin bare": ["bin", "x", 3, -0.1, 0.3, {"underflow": False, "overflow": False, "nanflow": False}],
    "split": ["split", "x", [0.0, 1.0, 3.0]],
    "split one": ["split", "x", [0.5]],
    "split bare": ["split", "x", [-1.0, 0.25, 1.0], {"underflow": False, "overflow": False, "nanflow": False}],
    "int": ["intbin", "n", 0, 1],
    "int bare": ["intbin", "n", -1, 1, {"underflow": False, "overflow": False}],
    "cut": ["cut", "p"],
    "cat": ["groupby", "g"],
    "catint": ["groupby", "n"],
    "catbool": ["groupby", "p"],
    "catbin": ["groupbin", "x", 1.0],
    "cut2": ["cut", "q"],
    "y": ["bin", "y", 2, 0.0, 4.0, {"underflow": False, "nanflow": False}],
    "ysplit": ["split", "y", [1.0, 2.0]],
    "k": ["groupby", "k"],
    "m": ["intbin", "m", 1, 2, {"overflow": False}],
}
ONE = ["bin", "bin low", "bin bare", "split", "split one", "split bare", "int", "int bare", "cut", "cat", "catint", "catbool", "catbin"]
TERMS = ["bar", "step", "area", "line", "marker"]


def configs(tier):
    out = []

    def add(name, **kw):
        out.append(dict(kw, name=name))
    for t in TERMS:
        for a in ONE:
            for w in ("", "w"):
                for e in (False, True):
                    for what in ("count", "profile", "norm", "log"):
                        if what == "norm" and a == "split one":
                            continue        # no finite bin to normalise
                        if tier == "quick" and what != "count" and (a in ("bin low", "catint", "catbool", "int bare", "split bare") or (what == "log") != (w == "")):
                            continue
                        add("%s %s%s%s %s" % (t, a, " weighted" if w else "", " error" if e else "", what), k="one", axes=[a], chain=[], last=a, term=t, w=w, error=e, what=what)
    for ch in ("overlay", "stack", "beside", "below"):
        for a in ("cat", "catint", "catbool", "catbin", "cut", "int", "bin", "split", "ysplit", "m"):
            for last in ("y", "cut2", "k"):
                for t in (["area", "bar"] if ch == "stack" else ["step", "marker"] if tier == "quick" else TERMS):
                    if a == "ysplit" and last == "y":
                        continue
                    add("%s %s then %s %s" % (ch, a, t, last), k="one", axes=[last, a] if last != "k" or tier == "thorough" else [a, last], chain=[[ch, a]], last=last, term=t, w="", error=False, what="count" if len(out) % 3 else "profile")
    for a in ("cat", "cut", "bin", "int"):
        add("stack %s in order" % a, k="one", axes=["y", a], chain=[["stack", a, "order"]], last="y", term="area", w="", error=False, what="count")
        add("overlay %s with errors" % a, k="one", axes=["y", a], chain=[["overlay", a]], last="y", term="step", w="w", error=True, what="count")
        add("overlay %s with errors of means" % a, k="one", axes=["y", a], chain=[["overlay", a]], last="y", term="marker", w="w", error=True, what="profile")
    for i, chain in enumerate([["overlay", "beside"], ["beside", "overlay"], ["below", "stack"], ["beside", "below"], ["below", "overlay", "beside"], ["stack", "beside", "below"]]):
        for j, pick in enumerate([["cat", "cut", "ysplit"], ["cut", "k", "cat"], ["ysplit", "cat", "cut"], ["k", "cat", "cut2"]]):
            last = "bin"
            axes = pick[:len(chain)]
            for t in ("area", "bar") if "stack" in chain else ("line", "step"):
                add("%s of %s %s" % (" ".join(chain), " ".join(axes), t), k="one", axes=[last] + axes if (i + j) % 2 else axes + [last], chain=[[c, a] for c, a in zip(chain, axes)], last=last, term=t, w="", error=False, what="profile" if (i + j) % 3 == 0 else "count", extra=["catint"] if j == 3 else [])
    # axes that are not shown are summed over
    for last in ("bin", "cat", "cut", "int"):
        for extra in (["cut2"], ["k"], ["y"], ["k", "cut2"]):
            for what in ("count", "profile"):
                add("%s without %s %s" % (last, " ".join(extra), what), k="one", axes=[last], chain=[], last=last, term="bar", w="w" if what == "profile" else "", error=True, what=what, extra=extra)
    for a in ("bin", "bin bare", "int", "int bare", "cut", "cat", "catbin"):
        for b in ("y", "cut2", "k", "m"):
            for flip in (False, True):
                for what in ("count", "profile"):
                    add("heatmap %s %s%s %s" % (a, b, " flipped" if flip else "", what), k="heat", axes=[a, b], flip=flip, what=what, w="w" if flip else "", chain=[], extra=["ysplit"] if b == "k" and a != "cut" else [])
    for ch in ("beside", "below"):
        for c in ("cat", "cut", "ysplit"):
            add("heatmap %s %s" % (ch, c), k="heat", axes=["bin", "m"], flip=False, what="count", w="", chain=[[ch, c]], extra=[])
    for n in ("overlay", "beside", "below", "grid"):
        for err in (False, True):
            for count in (1, 2, 3) if n != "grid" else (1, 2, 3, 4):
                add("%s of %d%s" % (n, count, " with errors" if err else ""), k="comb", comb=n, n=count, error=err, nest="")
            for nest in ("overlay", "beside", "below"):
                if (n, nest) in (("beside", "overlay"), ("beside", "below"), ("below", "overlay"), ("below", "beside"), ("grid", "overlay")):
                    add("%s of %s%s" % (n, nest, " with errors" if err else ""), k="comb", comb=n, n=3, error=err, nest=nest)
        add("%s of 30" % n, k="many", comb=n)
    for a in ONE:
        add("unfilled %s" % a, k="unfilled", a=a)
    add("refused", k="refused")
    add("defaults", k="defaults")
    return out


def run(ctx, cfg):
    return globals()["t_" + cfg["k"]](ctx, cfg)


# ------------------------------------------------------------------ reading a specification

class Datum(object):
    def __init__(self, row):
        self.__dict__.update(row)


def calculate(expr, row):
    py = expr.replace("===", "==").replace("if(", "iff(")
    return eval(py, {"__builtins__": {}, "iff": lambda c, a, b: a if c else b}, {"datum": Datum(row)})


def read(ctx, spec, data=None, out=None, place=()):
    """every single view of a specification: [(place, mark, encoding, rows)] after transforms"""
    if out is None:
        out = []
    if "data" in spec:
        data = spec["data"]["values"]
    for n in ("layer", "hconcat", "vconcat"):
        if n in spec:
            for i, s in enumerate(spec[n]):
                read(ctx, s, data, out, place + ((n, i),))
            return out
    rows = [dict(r) for r in data]
    for t in spec.get("transform", []):
        if "filter" in t:
            rows = [r for r in rows if r.get(t["filter"]["field"]) == t["filter"]["equal"]]
    for t in spec.get("transform", []):
        if "calculate" in t:
            for r in rows:
                try:
                    r[t["as"]] = calculate(t["calculate"], r)
                except AttributeError as err:
                    ctx.fail("a calculation on a row that has no such field: %s" % err)
    out.append((place, spec["mark"] if isinstance(spec["mark"], str) else spec["mark"]["type"], spec["encoding"], rows))
    return out


def val(ctx, r, enc, ch):
    if ch not in enc:
        return None
    f = enc[ch]["field"]
    if f not in r:
        ctx.fail("a row without the field of %s: it belongs to another plot" % ch)
        return None
    return r[f]


def text(ctx, key):
    key = ctx.scalar(key)
    return ("pass" if key else "fail") if isinstance(key, bool) else str(key)


# ------------------------------------------------------------------ what should be seen

def data(ctx):
    d = {"x": [0.5, 1.5], "y": [1.0, 2.0], "z": [1.0, -1.0], "w": [1.0, 2.0], "n": [0, 1], "m": [1, 2], "p": [True, False], "q": [True, True], "g": ["a", "b"], "k": ["u", "v"]}
    return dict((n, ctx.array(v)) for n, v in d.items())


def contents(ctx, h, cfg, salt=0):
    """fixed different numbers in every bin, arbitrary ones in three of them"""
    if len(h._group) > 1 and cfg.get("term") in ("step", "area"):
        # every outer category has its own inner ones
        for i in (1, 0):
            h.fill(dict((n, v[i:i + 1]) for n, v in data(ctx).items()))
    else:
        h.fill(data(ctx))
    cols = columns(h)
    todo = []
    for key, arr in sorted(blocks(h).items(), key=lambda kv: [str(k) for k in kv[0]]):
        for idx in ndindex(ctx.shape(arr)[:-1]):
            todo.append((arr, idx))
    what = cfg.get("what", "count")
    s0 = sum(map(ord, cfg["name"])) + salt
    pick = set([s0 % len(todo), (3 * s0 + 1) % len(todo), (5 * s0 + 2) % len(todo)])
    if what == "fixed":
        pick = set()
    elif salt or "comb" in cfg:
        pick = set([s0 % len(todo)])
    for i, (arr, idx) in enumerate(todo):
        s = float(i % 5 + (i % 3) * 4 + 1 + salt)
        c = {"sumw": s, "sumw2": s * (1.5 if i % 4 else 2.0), "sumwx0": s * (i + 1 + salt) / 4.0, "sumwx20": s * ((i + 1 + salt) * (i + 1 + salt) / 16.0 + (0.25 if i % 5 else 0.0))}
        if i in pick:
            if what == "profile":
                if not cfg.get("error"):
                    c["sumwx0"] = ctx.real("sumwx%d" % (i + 1000 * salt), -8, 8, 4)
            else:
                c["sumw"] = ctx.real("sumw%d" % (i + 1000 * salt), 0.25 if what == "norm" else 0 if cfg.get("error") else -8, 8, 4)
                c["sumw2"] = ctx.real("sumw2%d" % (i + 1000 * salt), 0.25, 8, 4)
        elif i % 7 == 3 and what != "norm":
            c = dict((n, 0.0) for n in c)
        for n, j in cols.items():
            arr[idx + (j,)] = c[n]
    return h


def published(ctx, h, ax):
    """what the bins of an axis are called, by position or group key"""
    if ax in h._fixed:
        return dict(enumerate((ax.bin() if type(ax).__name__ == "intbin" else ax).keys()))
    out = {}

    def rec(node, depth):
        if depth == ax._dictindex:
            for k, v in [(k, k) for k in node] if type(ax).__name__ == "groupby" else [(k, v) for (v, x) in ax.items(node) for k in node if node[k] is x]:
                out[k] = v
        else:
            for x in node.values():
                rec(x, depth + 1)
    if h._content is not None:
        rec(h._content, 0)
    return out


def sums(ctx, h, shown):
    """(published bin of every shown axis, in the order of shown) -> {column: sum over the other axes}"""
    axes = list(h._group + h._fixed)
    pub = [published(ctx, h, ax) for ax in axes]
    out = {}
    for idx, c in cells(ctx, h).items():
        key = tuple(pub[j][idx[j]] for j in [axes.index(ax) for ax in shown])
        if key in out:
            out[key] = dict((n, out[key][n] + c[n]) for n in c)
        else:
            out[key] = c
    return out


def finite(ctx, key):
    return not isinstance(key, ctx.hb.axis.IntervalNaN) and abs(key.low) != INF and abs(key.high) != INF


def numeric(ctx, ax):
    return type(ax).__name__ in ("bin", "intbin", "split")


def quantities(ctx, h, all, what, cols):
    """published bins -> (predicate on the value, predicate on the error)"""
    weighted = h._weightparsed is not None
    total = None
    if what == "norm":
        def volume(key):
            v = 1.0
            for k in key:
                if isinstance(k, ctx.hb.axis.Interval):
                    v = INF if not finite(ctx, k) else v * (k.high - k.low)
            return v
        heights = dict((key, 0.0 if volume([k for k, ax in zip(key, cols) if ax in h._fixed]) == INF else c["sumw"] / volume([k for k, ax in zip(key, cols) if ax in h._fixed])) for key, c in all.items())
        total = ctx.sum(heights.values())
    out = {}
    for key, c in all.items():
        w2 = c["sumw2"] if weighted else c["sumw"]
        if what == "profile":
            some = c["sumw"] > 0
            out[key] = (lambda v, c=c, some=some: ctx.close(v * c["sumw"], c["sumwx0"]) if some else ctx.eq(v, 0.0),
                        lambda e, c=c, w2=w2, some=some: ctx.land(ctx.le(0.0, e), ctx.close(e * e * c["sumw"] ** 4, (c["sumwx20"] * c["sumw"] - c["sumwx0"] * c["sumwx0"]) * w2, scale=4096.0)) if some else ctx.eq(e, 0.0))
        elif what == "norm":
            out[key] = (lambda v, key=key: ctx.close(v * total, heights[key], tol=1e-8),
                        lambda e, key=key, c=c, w2=w2: ctx.land(ctx.le(0.0, e), ctx.close(e * e * total * total * c["sumw"] * c["sumw"], heights[key] * heights[key] * w2, scale=64.0)))
        else:
            out[key] = (lambda v, c=c: ctx.same(v, c["sumw"]), lambda e, w2=w2: ctx.land(ctx.le(0.0, e), ctx.close(e * e, w2)))
    return out


CHANNELS = {"overlay": "color", "stack": "color", "beside": "column", "below": "row"}


def check1d(ctx, views, h, chain, last, term, error, what, msg, log=False):
    """the views of one plot show exactly the bins"""
    if not ctx.check(len(views) == (2 if error else 1), "%s: one layer of marks%s" % (msg, " and one of error bars" if error else "")):
        return
    shown = [ax for c, ax in chain] + [last]
    allsums = sums(ctx, h, shown)
    want = quantities(ctx, h, allsums, what, shown)
    place, mark, enc, rows = views[0]
    continuous = numeric(ctx, last) and term != "bar"
    ctx.check(enc["x"]["type"] == ("quantitative" if continuous else "ordinal" if numeric(ctx, last) else "nominal") and enc["y"]["type"] == "quantitative", "%s: kinds of scales" % msg)
    used = ["x", "y"] + [CHANNELS[c] for c, ax in chain]
    ctx.check(len(set(enc[ch]["field"] for ch in used if ch in enc)) == len(used), "%s: every channel shows its own field" % msg)
    # group the rows by category
    seen = {}
    for r in rows:
        cat = tuple(val(ctx, r, enc, CHANNELS[c]) for c, ax in chain)
        seen.setdefault(cat, []).append(r)
    cats = {}
    for key in allsums:
        cats.setdefault(tuple(text(ctx, k) for k in key[:-1]), []).append(key)
    for cat in seen:
        ctx.check(cat in cats, "%s: a category %r that does not exist" % (msg, cat))
    for i, (c, ax) in enumerate(chain):
        labels = sorted(set(cat[i] for cat in cats))
        if c in ("overlay", "stack") and not log and rows:
            dom = enc["color"]["scale"]["domain"]
            ctx.check(sorted(dom) == labels and len(set(dom)) == len(dom), "%s: the legend of %s lists %r instead of %r" % (msg, c, dom, labels))
        if c == "stack":
            order = {}
            for cat, rs in seen.items():
                for r in rs:
                    o = r.get(enc["order"]["field"])
                    order.setdefault(cat[i], o)
                    ctx.check(order[cat[i]] == o, "%s: one place in the stack per category" % msg)
            if not log and rows:
                ctx.check(len(set(order.values())) == len(order), "%s: every category has its own place in the stack: %r" % (msg, order))
                ctx.check(sorted(order, key=lambda n: order[n]) == [n for n in reversed(dom) if n in order], "%s: the legend in the order of the stack" % msg)
            ctx.check(enc["y"].get("aggregate") == "sum", "%s: stacked values are summed" % msg)
    # every bin of every category once
    for cat, keys in cats.items():
        rs = seen.get(cat, [])
        if continuous:
            keys = [k for k in keys if finite(ctx, k[-1])]
            keys.sort(key=lambda k: k[-1].low)
            xs = [val(ctx, r, enc, "x") for r in rs]
            rs = [r for x, r in sorted(zip(xs, rs), key=lambda xr: xr[0])]
            width = (keys[-1][-1].high - keys[0][-1].low) if keys else 0.0
            marks = [(k, (k[-1].low + k[-1].high) / 2.0 if term in ("line", "marker") else k[-1].low, k[-1].low) for k in keys]
            if term in ("step", "area") and keys:
                marks = [(None, keys[0][-1].low, None)] + marks + [(None, keys[-1][-1].high, None)]
        else:
            where = {}
            for r in rs:
                x = val(ctx, r, enc, "x")
                ctx.check(x not in where, "%s: bin %r is shown twice in %r" % (msg, x, cat))
                where[x] = r
            for x in where:
                ctx.check(x in [text(ctx, k[-1]) for k in keys], "%s: a bin %r that does not exist" % (msg, x))
            marks = [(k, text(ctx, k[-1]), None) for k in keys]
        if log:
            # only what can be shown
            pos = []
            for k, x, low in marks:
                if k is not None and ctx.decide(ctx.lt(0.0, positive(ctx, allsums[k], what))):
                    pos.append((k, x, low))
            marks = pos
        if not continuous:
            for k, x, low in marks:
                ctx.check(x in where, "%s: bin %r of %r is missing" % (msg, x, cat))
            rs = [where[x] for k, x, low in marks if x in where]
        if not ctx.check(len(rs) == len(marks), "%s: %d points in %r instead of %d" % (msg, len(rs), cat, len(marks))):
            continue
        for r, (k, x, low) in zip(rs, marks):
            got = val(ctx, r, enc, "x")
            if continuous:
                ctx.check(ctx.isnumber(got) and (got == x or (term in ("step", "area") and k is not None and x <= got <= x + 1e-9 * width) or (abs(got - x) <= 1e-12 * width)), "%s: the bin at %r is drawn at %r" % (msg, x, got))
            y = val(ctx, r, enc, "y")
            if k is None:
                ctx.check(ctx.eq(y, 0.0), "%s: the outline starts and ends at zero" % msg)
            else:
                ctx.check(want[k][0](y), "%s: bin %s of %r is shown as %s" % (msg, k[-1], cat, show(ctx, y)))
    if error:
        checkerrors(ctx, views, h, last, term, want, cats, continuous, log, chain, msg)


def positive(ctx, c, what):
    return c["sumwx0"] if what == "profile" else c["sumw"]


def checkerrors(ctx, views, h, last, term, want, cats, continuous, log, chain, msg):
    place, mark, enc, rows = views[0]
    eplace, emark, eenc, erows = views[1]
    ctx.check(eenc["x"]["type"] == enc["x"]["type"], "%s: error bars are placed on the same kind of axis" % msg)
    if not ctx.check(len(erows) == len(rows), "%s: one error bar per mark" % msg):
        return
    lookup = {}
    for cat, keys in cats.items():
        for k in keys:
            lookup[cat, text(ctx, k[-1])] = k
    for r, er in zip(rows, erows):
        y = val(ctx, r, enc, "y")
        lo, hi = val(ctx, er, eenc, "y"), val(ctx, er, eenc, "y2")
        e = (hi - lo) / 2.0
        ctx.check(ctx.close(hi + lo, 2.0 * y), "%s: error bars are centred on the value" % msg)
        x, ex = val(ctx, r, enc, "x"), val(ctx, er, eenc, "x")
        cat = tuple(val(ctx, r, enc, CHANNELS[c]) for c, ax in chain)
        if continuous:
            keys = [k for k in cats.get(cat, []) if finite(ctx, k[-1])]
            edge = min(k[-1].low for k in keys) if keys else None
            high = max(k[-1].high for k in keys) if keys else None
            if term in ("step", "area") and (x == edge or x == high):
                ctx.check(ctx.eq(e, 0.0), "%s: no error where the outline starts and ends" % msg)
                continue
            inside = [k for k in keys if k[-1].low < x < k[-1].high or (term in ("step", "area") and k[-1].low == x)]
            if not ctx.check(len(inside) == 1, "%s: an error bar at %r" % (msg, x)):
                continue
            k = inside[0]
            ctx.check(abs(ex - (k[-1].low + k[-1].high) / 2.0) <= 1e-9 * (high - edge), "%s: error bars in the middle of the bin" % msg)
        else:
            ctx.check(ex == x, "%s: error bar of %r at %r" % (msg, x, ex))
            if not ctx.check((cat, x) in lookup, "%s: an error bar at %r" % (msg, x)):
                continue
            k = lookup[cat, x]
        ctx.check(want[k][1](e), "%s: error of bin %s is %s" % (msg, k[-1], show(ctx, e)))


def axisof(ctx, h, name):
    want = mkaxis(ctx, AX[name])
    for ax in h._group + h._fixed:
        if ax == want:
            return ax
    raise AssertionError(name)


def build(ctx, cfg, salt=0):
    names = []
    for a in list(cfg["axes"]) + [c[1] for c in cfg["chain"]] + list(cfg.get("extra", [])):
        if a not in names:
            names.append(a)
    h = mkhist(ctx, [AX[a] for a in names] + [["profile", "z"]], **({"weight": "w"} if cfg["w"] else {}))
    return contents(ctx, h, cfg, salt)


def begin(ctx, h, cfg):
    p = h
    chain = []
    for c in cfg["chain"]:
        ax = axisof(ctx, h, c[1])
        kw = {}
        if len(c) > 2:
            labels = [text(ctx, k) for k in published(ctx, h, ax).values()]
            kw["order"] = sorted(labels, key=lambda s: s[::-1], reverse=True)
        p = getattr(p, c[0])(ax if len(c[0]) % 2 else ax.expr, **kw)
        chain.append((c[0], ax))
    return p, chain


def t_one(ctx, cfg):
    ctx.ideal()
    h = build(ctx, cfg)
    before = frozen(ctx, h)
    last = axisof(ctx, h, cfg["last"])
    p, chain = begin(ctx, h, cfg)
    kw = {"error": cfg["error"]}
    if cfg["what"] == "profile":
        kw["profile"] = "z"
    if cfg["what"] == "norm":
        kw["normalized"] = True
    if cfg["what"] == "log":
        kw["yscale"] = "log" if cfg["w"] else {"type": "log"}
    arg = last if len(cfg["name"]) % 2 else last.expr
    p = getattr(p, cfg["term"])(arg, **kw)
    spec = p.vegalite()
    msg = cfg["name"]
    for c in cfg["chain"]:
        if len(c) > 2:
            labels = sorted([text(ctx, k) for k in published(ctx, h, axisof(ctx, h, c[1])).values()], key=lambda s: s[::-1], reverse=True)
            dom = read(ctx, spec)[0][2]["color"]["scale"]["domain"]
            ctx.check(list(reversed(dom)) == labels, "%s: stacked in the order that was asked for: %r" % (msg, dom))
    check1d(ctx, read(ctx, spec), h, chain, last, cfg["term"], cfg["error"], "count" if cfg["what"] == "log" else cfg["what"], msg, cfg["what"] == "log")
    if len(cfg["name"]) % 4 == 0:
        got = []
        p.to(got.append)
        ctx.check(len(got) == 1 and len(read(ctx, got[0])[0][3]) == len(read(ctx, spec)[0][3]), "%s: the same plot again" % msg)
    checkfrozen(ctx, h, before, "plotting")


def t_heat(ctx, cfg):
    ctx.ideal()
    h = build(ctx, cfg)
    before = frozen(ctx, h)
    a, b = [axisof(ctx, h, n) for n in cfg["axes"]]
    if cfg["flip"]:
        a, b = b, a
    p, chain = begin(ctx, h, cfg)
    kw = {"profile": "z"} if cfg["what"] == "profile" else {}
    views = read(ctx, p.heatmap(a, b.expr, **kw).vegalite())
    checkheat(ctx, views, h, chain, a, b, cfg["what"], cfg["name"])
    checkfrozen(ctx, h, before, "plotting")


def checkheat(ctx, views, h, chain, a, b, what, msg):
    ctx.check(len(views) == 1, "%s: one view" % msg)
    place, mark, enc, rows = views[0]
    shown = [ax for c, ax in chain] + [a, b]
    allsums = sums(ctx, h, shown)
    want = quantities(ctx, h, allsums, what, shown)

    def interval(ax):
        return isinstance(ax, (ctx.hb.bin, ctx.hb.intbin, ctx.hb.groupbin))

    def at(ax, key):
        """the cell a bin is drawn in; None if it cannot be drawn"""
        if interval(ax):
            return (key.low + key.high) / 2.0 if finite(ctx, key) else None
        return text(ctx, key)
    expect = {}
    for key in allsums:
        x, y = at(a, key[-2]), at(b, key[-1])
        if x is not None and y is not None:
            expect[tuple(text(ctx, k) for k in key[:-2]) + (x, y)] = key
    for ch, ax in (("x", a), ("y", b)):
        ctx.check(enc[ch]["type"] == ("quantitative" if numeric(ctx, ax) else "nominal"), "%s: kind of scale" % msg)
        if numeric(ctx, ax):
            fin = [k for k in published(ctx, h, ax).values() if finite(ctx, k)]
            ext = enc[ch]["bin"]["extent"]
            ctx.check(abs(ext[0] - fin[0].low) < 1e-9 and abs(ext[1] - fin[-1].high) < 1e-9, "%s: the %s axis goes from %r to %r" % (msg, ch, ext[0], ext[1]))
            step = enc[ch]["bin"]["minstep"]
            ctx.check(abs(step * len(fin) - (ext[1] - ext[0])) <= 1e-6 * (ext[1] - ext[0]), "%s: width of the cells" % msg)
    got = {}
    for r in rows:
        k = tuple(val(ctx, r, enc, CHANNELS[c]) for c, ax in chain) + (val(ctx, r, enc, "x"), val(ctx, r, enc, "y"))
        k = tuple(close(k[i], [e[i] for e in expect]) for i in range(len(k)))
        ctx.check(k in expect and k not in got, "%s: a cell at %r" % (msg, k))
        got[k] = r
    for k, key in expect.items():
        if ctx.check(k in got, "%s: the cell at %r is missing" % (msg, k)):
            v = val(ctx, got[k], enc, "color")
            ctx.check(want[key][0](v), "%s: the cell at %r is shown as %s" % (msg, k, show(ctx, v)))


def close(x, among):
    if isinstance(x, float):
        for a in among:
            if isinstance(a, float) and abs(a - x) < 1e-9:
                return a
    return x


PLOTS = [("step", "bin", "count", []), ("marker", "split", "profile", []), ("line", "int", "count", [["overlay", "cat"]]), ("area", "cut", "norm", []), ("bar", "bin low", "count", [["overlay", "cut"]])]


def some(ctx, cfg, i, error):
    term, last, what, chain = PLOTS[i % len(PLOTS)]
    if cfg.get("comb") == "heat":
        pass
    c = {"name": cfg["name"], "comb": True, "axes": [last], "chain": chain, "w": "w" if i % 2 else "", "what": what, "error": error}
    h = build(ctx, c, i)
    ax = axisof(ctx, h, last)
    p, ch = begin(ctx, h, c)
    kw = {"error": error}
    if what == "profile":
        kw["profile"] = "z"
    if what == "norm":
        kw["normalized"] = True
    p = getattr(p, term)(ax, **kw)
    return p, lambda views, msg: check1d(ctx, views, h, ch, ax, term, error, what, "%s %s %s" % (msg, term, last))


def heat(ctx, cfg, i):
    c = {"name": cfg["name"], "axes": ["bin", "m"], "chain": [], "w": "", "what": "count"}
    h = build(ctx, c, i)
    a, b = axisof(ctx, h, "bin"), axisof(ctx, h, "m")
    return h.heatmap(a, b), lambda views, msg: checkheat(ctx, views, h, [], a, b, "count", msg + " heatmap")


def arranged(views, depth):
    """views by the path to them, without the layers of one plot"""
    out = {}
    for v in views:
        out.setdefault(v[0][:depth], []).append(v)
    return out


def t_comb(ctx, cfg):
    ctx.ideal()
    hb = ctx.hb
    err, n, comb = cfg["error"], cfg["n"], cfg["comb"]
    make = {"overlay": hb.overlay, "beside": hb.beside, "below": hb.below, "grid": lambda *a, **k: hb.grid(2, *a, **k)}
    parts = [some(ctx, cfg, i, err) for i in range(n)]
    if comb != "overlay" and not cfg["nest"]:
        parts[-1] = heat(ctx, cfg, n)
    inner = None
    if cfg["nest"]:
        inner = [some(ctx, cfg, i + n, err) for i in range(2)]
        if cfg["nest"] != "overlay":
            inner[1] = heat(ctx, cfg, n + 2)
        args = [parts[0][0], make[cfg["nest"]](*[p for p, c in inner])] + [p for p, c in parts[1:]]
    else:
        args = [p for p, c in parts]
    spec = make[comb](*args, config={"a": 1}).vegalite() if len(cfg["name"]) % 2 else make[comb](args).vegalite()
    views = read(ctx, spec)
    flat = [parts[0][1]] + [c for p, c in inner] + [c for p, c in parts[1:]] if inner else [c for p, c in parts]
    # the plots in the order given; a plot with error bars has two views
    i = 0
    groups = []
    for j, c in enumerate(flat):
        isheat = any(c is q for q in [x[1] for x in (parts + (inner or [])) if type(x[0]).__name__ == "Plotable2d"])
        k = 2 if err and not isheat else 1
        groups.append(views[i:i + k])
        i += k
    if not ctx.check(i == len(views), "%s: %d views" % (cfg["name"], len(views))):
        return
    for j, (c, g) in enumerate(zip(flat, groups)):
        c(g, "%s: plot %d" % (cfg["name"], j))
    # where they are
    kind = {"overlay": "layer", "beside": "hconcat", "below": "vconcat", "grid": "vconcat"}
    for j, g in enumerate(groups):
        for v in g:
            if comb == "grid":
                slot = j if not inner else [0, 1, 1, 2, 3][j]
                ctx.check(v[0][:2] == (("vconcat", slot // 2), ("hconcat", slot % 2)), "%s: place of plot %d is %r" % (cfg["name"], j, v[0]))
            elif inner and j in (1, 2):
                ctx.check(v[0][0] == (kind[comb], 1) and v[0][1][0] == kind[cfg["nest"]] and (cfg["nest"] == "overlay" or v[0][1][1] == j - 1), "%s: place of plot %d is %r" % (cfg["name"], j, v[0]))
            elif comb != "overlay":
                slot = j if not inner or j == 0 else j - 1
                ctx.check(v[0][0] == (kind[comb], slot), "%s: place of plot %d is %r" % (cfg["name"], j, v[0]))
            else:
                ctx.check(v[0][0][0] == "layer", "%s: place of plot %d is %r" % (cfg["name"], j, v[0]))


def t_many(ctx, cfg):
    """more plots than letters"""
    ctx.ideal()
    hb = ctx.hb
    hs = []
    for i in range(30):
        h = hb.Hist(hb.cut("p"))
        h.fill(p=ctx.array([True]))
        arr = blocks(h)[()]
        arr[0, 0], arr[1, 0] = float(i), ctx.real("c%d" % i, 0.25, 8, 4) if i in (0, 26) else float(100 + i)
        hs.append(h)
    plots = [h.bar() for h in hs]
    f = getattr(hb, cfg["comb"])
    views = read(ctx, (f(4, *plots) if cfg["comb"] == "grid" else f(*plots)).vegalite())
    ctx.check(len(views) == 30, "one view per plot")
    for h, v in zip(hs, views):
        check1d(ctx, [v], h, [], h._fixed[0], "bar", False, "count", cfg["name"])


def t_unfilled(ctx, cfg):
    hb = ctx.hb
    a = cfg["a"]
    h = mkhist(ctx, [AX[a], AX["cut2"]])
    ax, c = axisof(ctx, h, a), axisof(ctx, h, "cut2")
    h2 = mkhist(ctx, [AX[a], AX["cut2"]])
    if not h2._group:
        h2._prefill()
    for p, chain, last, term in [(h.overlay(c).step(ax), [("overlay", c)], ax, "step"), (h.bar(ax), [], ax, "bar"), (h.beside(ax).line(c), [("beside", ax)], c, "line"), (h.overlay(ax).bar(c), [("overlay", ax)], c, "bar"), (h.stack(ax).area(c), [("stack", ax)], c, "area"), (h.marker(ax), [], ax, "marker")]:
        views = read(ctx, p.vegalite())
        if h._group and not (chain == [] or last is ax):
            ctx.check(len(views[0][3]) == 0, "nothing to show")
        elif h._group:
            ctx.check(len(views[0][3]) == 0, "nothing to show")
        else:
            check1d(ctx, views, h2, chain, last, term, term == "marker", "count", "unfilled %s" % term)


def t_refused(ctx, cfg):
    hb = ctx.hb
    h = hb.Hist(hb.bin("x", 2, 0, 2), hb.cut("p"), hb.groupby("g"), hb.profile("z"))
    h.fill(data(ctx))
    before = frozen(ctx, h)
    raises(ctx, lambda: h.step(), TypeError, "which axis?")
    raises(ctx, lambda: h.overlay("p").overlay("g"), TypeError, "two overlays")
    raises(ctx, lambda: h.stack("p").stack("g"), TypeError, "two stacks")
    raises(ctx, lambda: h.stack("p").step("x"), TypeError, "steps cannot be stacked")
    raises(ctx, lambda: h.stack("p").line("x"), TypeError, "lines cannot be stacked")
    raises(ctx, lambda: h.stack("p").marker("x"), TypeError, "markers cannot be stacked")
    raises(ctx, lambda: h.beside("p").beside("g"), TypeError, "beside twice")
    raises(ctx, lambda: h.below("p").below("g"), TypeError, "below twice")
    for t in TERMS:
        raises(ctx, lambda: getattr(h.beside("p"), t)("x", error=True), NotImplementedError, "error bars in facets")
        raises(ctx, lambda: getattr(h.below("p"), t)("x", error=True), NotImplementedError, "error bars in facets")
    raises(ctx, lambda: h.heatmap(), TypeError, "which axes?")
    raises(ctx, lambda: h.heatmap("x"), TypeError, "which axis?")
    raises(ctx, lambda: h.overlay("p").heatmap("x", "g"), TypeError, "no overlaid heatmaps")
    raises(ctx, lambda: h.stack("p").heatmap("x", "g"), TypeError, "no stacked heatmaps")
    raises(ctx, lambda: hb.overlay(3), TypeError, "not a plot")
    raises(ctx, lambda: hb.overlay(h.step("x"), nosuch=1), TypeError, "unknown option")
    raises(ctx, lambda: h.step("nosuch"), IndexError, "no such axis")
    checkfrozen(ctx, h, before, "refused plots")


def t_defaults(ctx, cfg):
    """the only axis by default, options passed on"""
    hb = ctx.hb
    for a in ONE:
        h = mkhist(ctx, [AX[a]])
        contents(ctx, h, dict(cfg, what="fixed", error=True))
        ax = (h._group + h._fixed)[0]
        for t in TERMS:
            p = getattr(h, t)(width=300, height=200, title="t", config={"c": 1}, xscale="log", yscale={"type": "sqrt"})
            spec = p.vegalite()
            ctx.check(spec["width"] == 300 and spec["height"] == 200 and spec["title"] == "t" and spec["config"] == {"c": 1}, "options")
            views = read(ctx, spec)
            ctx.check(views[0][2]["x"]["scale"] == {"type": "log"} and views[0][2]["y"]["scale"] == {"type": "sqrt"}, "scales")
            ctx.check(views[0][2]["x"]["axis"]["title"] == ax.expr, "the title of the axis")
            check1d(ctx, views, h, [], ax, t, t == "marker", "count", "%s by default" % t)
    h = mkhist(ctx, [AX["bin"], AX["k"]])
    contents(ctx, h, dict(cfg, what="fixed"))
    k, b = h._group[0], h._fixed[0]
    checkheat(ctx, read(ctx, h.heatmap().vegalite()), h, [], k, b, "count", "the two axes by default")
