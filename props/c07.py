"""C07: selecting bins equals filtering the data before filling."""
import math
from props.lib import *

BOUNDS = ("1 to 2 entries with arbitrary value, weight and profiled value (multiples of 1/16 in [-8,8], NaN and infinities where the axis can hold them); selections at concrete edges written as text in every spelling, "
          "and one comparison whose threshold is itself symbolic (any multiple of 1/1024 in [-4,4]); bin, split, intbin, cut, groupby, groupbin axes in every closure and flow setting, alone or with a second axis; and/or/not of comparisons; thresholds written with named constants; a symbolic entry among nine to eighteen filled categories")
ASSUMPTIONS = ["bin edges are exactly representable; a threshold is either exactly an edge or at least 1/1024 away from it (select's tolerance is 1e-12)",
               "intbin axes are filled with integers", "comparing with nan selects the NaN bin (documented convention), 'x != nan' everything else"]
OPTS = {"witnesses": 3}

U = [{"underflow": u, "overflow": o, "nanflow": n, "closedlow": c} for u in (True, False) for o in (True, False) for n in (True, False) for c in (True, False)]


def fname(f):
    return "".join(k[0].upper() if f.get(k) else "_" for k in ("underflow", "overflow", "nanflow", "closedlow") if k in f)


def configs(tier):
    out = []

    def add(name, axes, text, cond, n=1, **kw):
        if isinstance(cond, str):
            raise AssertionError
        out.append(dict({"name": "%s: %s" % (name, text), "axes": axes, "text": text, "cond": cond, "n": n}, **kw))
    # ---- symbolic threshold
    for f in U:
        for op in ("<", "<=", ">", ">=", "==", "!="):
            out.append({"name": "bin %s x %s t" % (fname(f), op), "axes": [["bin", "x", 3, -1.0, 2.0, f]], "sym": op, "n": 1, "edges": [-1.0, 0.0, 1.0, 2.0], "f": f})
            out.append({"name": "split %s x %s t" % (fname(f), op), "axes": [["split", "x", [-1.0, 0.5, 2.0], f]], "sym": op, "n": 1, "edges": [-1.0, 0.5, 2.0], "f": f})
    for c in (True, False):
        for n in (True, False):
            for op in ("<", "<=", ">", ">="):
                f = {"nanflow": n, "closedlow": c}
                out.append({"name": "groupbin %s x %s t" % (fname(f), op), "axes": [["groupbin", "x", 2.0, dict(f, origin=0.5)]], "sym": op, "n": 1, "edges": [0.5 + 2 * k for k in range(-3, 3)], "f": f, "range": 3})
    for u in (True, False):
        for o in (True, False):
            for op in ("<", "<=", ">", ">=", "==", "!="):
                f = {"underflow": u, "overflow": o}
                out.append({"name": "intbin %s x %s t" % (fname(f), op), "axes": [["intbin", "x", -1, 3, f]], "sym": op, "n": 1, "edges": "int", "f": f})
    # ---- texts
    allf = {"underflow": True, "overflow": True, "nanflow": True}
    for kind, spec in (("bin", ["bin", "x", 4, 0.0, 4.0]), ("split", ["split", "x", [0.0, 1.0, 2.0, 4.0]])):
        for c in (True, False):
            for flow in (True, False):
                f = {"underflow": flow, "overflow": flow, "nanflow": flow, "closedlow": c}
                ax = [spec + [f]]
                lt, ge = ("<", ">=") if c else ("<=", ">")
                nm = "%s %s" % (kind, fname(f))
                add(nm, ax, "x %s 2" % lt, [lt, "x", 2.0])
                add(nm, ax, "x %s 2.0" % ge, [ge, "x", 2.0])
                add(nm, ax, "2 %s x" % {"<": ">", "<=": ">="}[lt], [lt, "x", 2.0])
                add(nm, ax, "1 + 1 %s x" % {">=": "<=", ">": "<"}[ge], [ge, "x", 2.0])
                add(nm, ax, "not x %s 1" % ge, ["and", [lt, "x", 1.0]], nonan=True)
                add(nm, ax, "x %s 1 and x %s 4" % (ge, lt), ["and", [ge, "x", 1.0], [lt, "x", 4.0]], n=2)
                add(nm, ax, "x %s 0" % ge, [ge, "x", 0.0])
                add(nm, ax, "x >= -inf", ["notnan", "x"])
                add(nm, ax, "x <= inf", ["notnan", "x"])
                add(nm, ax, "x != nan", ["notnan", "x"])
                if flow:
                    add(nm, ax, "x == nan", ["nan", "x"])
                    add(nm, ax, "x %s 0" % lt, [lt, "x", 0.0])
                    add(nm, ax, "x %s 4" % ge, [ge, "x", 4.0])
                if c:
                    add(nm, ax, "1 <= x < 2", ["and", [">=", "x", 1.0], ["<", "x", 2.0]], n=2)
    for u in (True, False):
        for o in (True, False):
            f = {"underflow": u, "overflow": o}
            ax = [["intbin", "x", 0, 3, f]]
            nm = "intbin %s" % fname(f)
            for text, cond in (("x < 2", ["<", "x", 2]), ("x <= 2", ["<=", "x", 2]), ("x > 1", [">", "x", 1]), ("x >= 3", [">=", "x", 3]), ("x > 0 and x < 3", ["and", [">", "x", 0], ["<", "x", 3]]),
                               ("2 > x", ["<", "x", 2]), ("x > -inf", ["true"]), ("x >= -inf", ["true"]), ("x < inf", ["true"]), ("x <= inf", ["true"]), ("not x < 2", [">=", "x", 2])):
                add(nm, ax, text, cond, n=2)
    for text, cond in (("p", ["is", "p"]), ("not p", ["not", ["is", "p"]]), ("p == True", ["is", "p"]), ("p == False", ["not", ["is", "p"]]), ("p != True", ["not", ["is", "p"]]), ("True == p", ["is", "p"])):
        add("cut", [["cut", "p"]], text, cond, n=2)
        add("cut+bin", [["bin", "x", 2, 0.0, 2.0], ["cut", "p"]], text, cond, n=1, fork=True)
        add("groupby+cut", [["groupby", "g"], ["cut", "p"]], text, cond, n=2, w=True)
    add("cut x > 1", [["cut", "x > 1"]], "x > 1", [">", "x", 1.0], n=2)
    add("cut x > 1", [["cut", "x > 1"]], "1 < x", [">", "x", 1.0], n=2)
    add("cut x < z", [["cut", "x < z"], ["groupby", "g"]], "x < z", ["<", "x", "z"], n=2, cats=["a", "b"])
    add("cut x < z", [["cut", "x < z"], ["profile", "z"]], "z > x", ["<", "x", "z"], n=2, w=True)
    add("cut and bin", [["cut", "p"], ["bin", "x", 2, 0.0, 2.0]], "p and x < 1", ["and", ["is", "p"], ["<", "x", 1.0]], n=1, fork=True, w=True)
    add("two cuts", [["cut", "p"], ["cut", "q"]], "p and q", ["and", ["is", "p"], ["is", "q"]], n=2)
    add("two cuts", [["cut", "p"], ["cut", "q"]], "q", ["is", "q"], n=2)
    gb = [["groupby", "g"]]
    for text, cond in (("g == 'a'", ["==", "g", "a"]), ("g != 'a'", ["!=", "g", "a"]), ("g < 'b'", ["<", "g", "b"]), ("g >= 'b'", [">=", "g", "b"]), ("g in {'a', 'c'}", ["in", "g", ["a", "c"]]),
                       ("g not in {'a', 'c'}", ["not", ["in", "g", ["a", "c"]]]), ("g == 'a' or g == 'b'", ["in", "g", ["a", "b"]]), ("g == 'a' or g == 'b' or g == 'c'", ["in", "g", ["a", "b", "c"]]),
                       ("g != 'a' and g != 'b'", ["not", ["in", "g", ["a", "b"]]]), ("not (g == 'a' or g == 'c')", ["not", ["in", "g", ["a", "c"]]]), ("(g > 'a' and g < 'c') or g == 'd'", ["in", "g", ["b", "d"]]),
                       ("g < 'c' or g < 'b'", ["<", "g", "c"]), ("g < 'c' or g > 'a'", ["true"]), ("g <= 'b' or g == 'b' or g == 'a'", ["<=", "g", "b"]), ("(g >= 'a' and g < 'c') or (g > 'a' and g < 'd')", ["in", "g", ["a", "b", "c"]]),
                       ("'a' == g", ["==", "g", "a"]), ("g > 'b'", [">", "g", "b"]), ("g <= 'b'", ["<=", "g", "b"]), ("g == 'zz'", ["false"])):
        add("groupby", gb, text, cond, n=2, cats=["a", "b", "c", "d"])
        if "or" in text or "in" in text or text == "g == 'a'":
            add("groupby+bin+p", [["groupby", "g"], ["bin", "x", 2, 0.0, 2.0], ["profile", "z"]], text, cond, n=1, cats=["a", "b", "c", "d"], w=True)
            add("groupby second", [["groupby", "k"], ["groupby", "g"]], text, cond, n=2, cats=["a", "b", "d"], w=True)
            add("groupby first", [["groupby", "g"], ["groupby", "k"]], text, cond, n=2, cats=["a", "c"], w=True)
    for text, cond in (("g == 'a7'", ["==", "g", "a7"]), ("g != 'a3'", ["!=", "g", "a3"]), ("g >= 'a1' and g < 'a8'", ["in", "g", ["a%d" % i for i in range(1, 8)]]), ("g in {'a0', 'a6', 'a8', 'b'}", ["in", "g", ["a0", "a6", "a8", "b"]])):
        add("groupby many", gb, text, cond, n=1, cats=["a8", "b", "a2"], more=[{"g": "a%d" % i} for i in range(9)])
        add("groupby many second", [["groupby", "k"], ["groupby", "g"]], text, cond, n=1, cats=["a8", "b"], more=[{"g": "a%d" % (i // 2), "k": "uv"[i % 2]} for i in range(18)])
        add("groupby many first", [["groupby", "g"], ["bin", "x", 2, 0.0, 2.0]], text, cond, n=1, cats=["a8", "b"], more=[{"g": "a%d" % i, "x": i / 4.0} for i in range(9)])
    for text, cond in (("x >= -3 and x < 4", ["and", [">=", "x", -3.0], ["<", "x", 4.0]]), ("x < 4", ["<", "x", 4.0]), ("x >= 0", [">=", "x", 0.0]), ("x < -2 or x >= 3", ["or", ["<", "x", -2.0], [">=", "x", 3.0]])):
        add("groupbin many", [["groupbin", "x", 1.0]], text, cond, n=1, range=2, more=[{"x": i + 0.25} for i in range(-5, 6)])
    add("groupby ints", gb, "g < 3", ["<", "g", 3], n=2, cats=[1, 3, 5])
    add("groupby ints", gb, "g == 3 or g == 5 or g == 1", ["in", "g", [1, 3, 5]], n=2, cats=[1, 3, 5, 7])
    for c in (True, False):
        for n in (True, False):
            f = {"nanflow": n, "closedlow": c}
            lt, ge = ("<", ">=") if c else ("<=", ">")
            ax = [["groupbin", "x", 1.0, f]]
            nm = "groupbin %s" % fname(f)
            for text, cond in (("x %s 1" % lt, [lt, "x", 1.0]), ("x %s 0" % ge, [ge, "x", 0.0]), ("x %s 0 and x %s 2" % (ge, lt), ["and", [ge, "x", 0.0], [lt, "x", 2.0]]), ("x >= -inf", ["notnan", "x"]), ("x > -inf", [">", "x", "-inf"]),
                               ("x < inf", ["<", "x", "inf"]), ("x <= inf", ["notnan", "x"]), ("x != inf", ["!=", "x", "inf"]), ("x != -inf", ["!=", "x", "-inf"]), ("x == nan", ["nan", "x"]), ("x != nan", ["notnan", "x"]),
                               ("x %s 0 or x %s 1" % (lt, ge), ["or", [lt, "x", 0.0], [ge, "x", 1.0]]), ("x %s 0 or x %s 1" % (lt, lt), [lt, "x", 1.0]),
                               ("x %s 1 or x %s 0" % (lt, ge), ["notnan", "x"])):
                add(nm, ax, text, cond, n=1, range=2)
            add(nm, [["groupbin", "x", 1.0, f], ["cut", "p"], ["profile", "z"]], "x %s 1 and p" % lt, ["and", [lt, "x", 1.0], ["is", "p"]], n=1, range=2, w=True)
    # expressions, definitions, other axes, profiles, filters
    add("expression", [["bin", "x + y", 2, 0.0, 2.0]], "y + x < 1", ["<", "x+y", 1.0], n=1)
    add("expression", [["bin", "x * y", 2, 0.0, 2.0], ["bin", "y", 2, 0.0, 2.0]], "y*x < 1 and y < 1", ["and", ["<", "x*y", 1.0], ["<", "y", 1.0]], n=1, fork=True)
    add("definition", [["bin", "r", 2, 0.0, 2.0]], "r >= 1", [">=", "x+y", 1.0], n=1, defs={"r": "x + y"})
    add("definition spelled out", [["bin", "r", 2, 0.0, 2.0]], "x + y >= 1", [">=", "x+y", 1.0], n=1, defs={"r": "x + y"})
    add("filtered", [["bin", "x", 2, 0.0, 2.0]], "x >= 1", [">=", "x", 1.0], n=2, filter="y > 0")
    add("same expression twice", [["bin", "x", 2, 0.0, 2.0], ["split", "x", [0.5, 1.5]]], "x < 1.5", ["<", "x", 1.5], n=1, fork=True)
    add("same expression twice", [["bin", "x", 2, 0.0, 2.0], ["split", "x", [0.5, 1.5]]], "x >= 1", [">=", "x", 1.0], n=1, fork=True)
    add("bin+bin+p", [["bin", "x", 2, 0.0, 2.0], ["bin", "y", 2, 0.0, 2.0], ["profile", "z"]], "y < 1", ["<", "y", 1.0], n=1, w=True, fork=True)
    add("bin+bin+p", [["bin", "x", 2, 0.0, 2.0], ["bin", "y", 2, 0.0, 2.0], ["profile", "z"]], "x >= 1 and y < 1", ["and", [">=", "x", 1.0], ["<", "y", 1.0]], n=1, w=True, fork=True)
    add("groupby+bin+cut", [["groupby", "g"], ["bin", "x", 2, 0.0, 2.0], ["cut", "p"]], "x < 1 and p and g == 'a'", ["and", ["<", "x", 1.0], ["is", "p"], ["==", "g", "a"]], n=1, cats=["a", "b"], w=True)
    # an edge counts as hit when the threshold is within the given tolerance
    for nm, ax in (("bin", ["bin", "x", 2, 0.0, 2.0]), ("split", ["split", "x", [0.0, 1.0, 2.0]]), ("groupbin", ["groupbin", "x", 1.0])):
        for text, cond in (("x < 1.01", ["<", "x", 1.0]), ("x >= 0.99", [">=", "x", 1.0]), ("x >= 0.99 and x < 2.01", ["and", [">=", "x", 1.0], ["<", "x", 2.0]]), ("x >= 0.01 and x < 2", ["and", [">=", "x", 0.0], ["<", "x", 2.0]])):
            if nm != "groupbin":
                add(nm + " tolerance", [ax], text, cond, n=1, tol=0.05, range=2)
                out.append({"name": "refused without tolerance %s: %s" % (nm, text), "axes": [ax], "refused": text, "n": 1, "range": 2})
                out.append({"name": "refused beyond tolerance %s: %s" % (nm, text), "axes": [ax], "refused": text, "n": 1, "range": 2, "tol": 0.005})
    # thresholds written with named constants
    pi, e = math.pi, math.e
    for text, cond in (("x < pi - 1", ["<", "x", pi - 1]), ("x >= 1 - pi", [">=", "x", 1 - pi]), ("x < pi/e", ["<", "x", pi / e]), ("x >= e - pi", [">=", "x", e - pi]), ("x < 2*pi", ["<", "x", 2 * pi]), ("pi/2 <= x", [">=", "x", pi / 2]), ("x < 1/e", ["<", "x", 1 / e]),
                       ("x < pi - 1 and x >= -pi", ["and", ["<", "x", pi - 1], [">=", "x", -pi]])):
        add("constants", [["split", "x", [-pi, 1 - pi, e - pi, 1 / e, pi / e, pi / 2, pi - 1, 2 * pi]]], text, cond, n=1)
    # many edges
    ten = [float(i * i) / 2 for i in range(13)]
    for t, cond in (("x < 40.5", ["<", "x", 40.5]), ("x >= 60.5", [">=", "x", 60.5]), ("x >= 32 and x < 72", ["and", [">=", "x", 32.0], ["<", "x", 72.0]])):
        add("split 13 edges", [["split", "x", ten]], t, cond, n=1, range=80)
    for t, cond in (("x < 30", ["<", "x", 30.0]), ("x >= 39", [">=", "x", 39.0]), ("x >= 17 and x < 38", ["and", [">=", "x", 17.0], ["<", "x", 38.0]])):
        add("bin 40 bins", [["bin", "x", 40, 0.0, 40.0]], t, cond, n=1, range=50)
    # off an edge by more than the tolerance, by little
    for nm, ax, ts in (("bin 40", ["bin", "x", 40, 0.0, 40.0], ["x < 3.00000000001", "x >= 38.99999999998"]), ("split", ["split", "x", [0.0, 1.0, 1000.0]], ["x < 1000.0000000001", "x >= 999.9999999999", "x < 1.00000000001"]),
                       ("bin wide", ["bin", "x", 4, 0.0, 4000.0], ["x < 1000.0000000001", "x >= 2999.9999999999"]), ("groupbin", ["groupbin", "x", 1.0], ["x < 3.00000000001"]), ("groupbin wide", ["groupbin", "x", 1000.0], ["x < 1000.000000001"]),
                       ("intbin", ["intbin", "x", 0, 3], ["x < 2.00000000001"])):
        for t in ts:
            out.append({"name": "refused %s: %s" % (nm, t), "axes": [ax], "refused": t, "n": 1, "range": 2})
    # refusals
    for nm, axes, texts in (("bin", [["bin", "x", 2, 0.0, 2.0]], ["x < 0.5", "x <= 1", "x > 1", "x == 1", "x != 1", "y < 1", "x < 3", "x < -1", "x < 1 or x >= 1.5", "x + 1", "x < y", "1 < 2", "x", "x in {1, 2}"]),
                            ("bin high", [["bin", "x", 2, 0.0, 2.0, {"closedlow": False}]], ["x < 1", "x >= 1", "x <= 0.5"]),
                            ("split", [["split", "x", [0.0, 1.0]]], ["x < 0.5", "x <= 1", "x < 1.001", "x > 1", "x == 0"]),
                            ("intbin", [["intbin", "x", 0, 3]], ["x < 0.5", "x == 1", "x != 1", "x < 7", "x > 5", "x < -1", "x == nan"]),
                            ("cut", [["cut", "p"]], ["p < True", "q", "p == 1.5", "p == 'a'"]),
                            ("groupby", [["groupby", "g"]], ["h == 'a'", "g == 'a' or h == 'b'"]),
                            ("groupbin", [["groupbin", "x", 1.0]], ["x < 0.5", "x <= 1", "x > 1", "x == 0"])):
        for t in texts:
            out.append({"name": "refused %s: %s" % (nm, t), "axes": axes, "refused": t, "n": 1})
    if tier == "thorough":
        more = []
        for c in out:
            if c["n"] < 3 and "refused" not in c:
                more.append(dict(c, name=c["name"] + " n+1", n=c["n"] + 1, seconds=120, fork=True))
        out += more
    return out


def fields(axes, cfg):
    f = {}
    for ax in axes:
        k, e = ax[0], ax[1]
        if k == "profile":
            f[e] = "plain"
        elif e in ("x + y", "x * y", "r"):
            f["x"] = f["y"] = "plain"
        elif e == "x > 1":
            f["x"] = "plain"
        elif e == "x < z":
            f["x"] = f["z"] = "plain"
        elif k in ("bin", "split"):
            f.setdefault(e, "plain" if cfg.get("w") and cfg.get("fork") else "real")
        else:
            f[e] = k
    if cfg.get("filter"):
        f["y"] = "plain"
    if cfg.get("w"):
        f["w"] = "plain"
    return f


def entry(ctx, cfg, i, tag=""):
    r = cfg.get("range", 8)
    e = {}
    for n, kind in sorted(fields(cfg["axes"], cfg).items()):
        nm = "%s%s%d" % (tag, n, i)
        if kind == "plain":
            e[n] = ctx.real(nm, -4, 4, 3)
        elif kind == "real":
            e[n] = ctx.real(nm, -r, r, 4, nan=not cfg.get("nonan"), inf=True)
        elif kind == "groupbin":
            e[n] = ctx.real(nm, -r, r, 4, nan=True, inf=True)
        elif kind == "intbin":
            e[n] = ctx.int(nm, -6, 8)
        elif kind == "cut":
            e[n] = ctx.boolean(nm)
        elif kind == "groupby":
            e[n] = ctx.choose(nm, cfg.get("cats", ["a", "b"]) if n == "g" else ["u", "v"])
    return e


def truth(ctx, e, c):
    op = c[0]
    if op == "and":
        return ctx.land(*[truth(ctx, e, x) for x in c[1:]])
    if op == "or":
        return ctx.lor(*[truth(ctx, e, x) for x in c[1:]])
    if op == "not":
        return ctx.lnot(truth(ctx, e, c[1]))
    if op == "true":
        return True
    if op == "false":
        return False
    v = e["x"] + e["y"] if c[1] == "x+y" else e["x"] * e["y"] if c[1] == "x*y" else e[c[1]]
    if op == "is":
        return v
    if op == "nan":
        return ctx.isnan(v)
    if op == "notnan":
        return ctx.lnot(ctx.isnan(v))
    if op == "in":
        return v in c[2]
    t = unspec(c[2]) if isinstance(c[2], str) and c[2].endswith("inf") else c[2]
    if t == "z":
        t = e["z"]
    if isinstance(v, str) or isinstance(t, str):
        return {"==": v == t, "!=": v != t, "<": v < t, "<=": v <= t, ">": v > t, ">=": v >= t}[op]
    return {"==": lambda: ctx.eq(v, t), "!=": lambda: ctx.lnot(ctx.eq(v, t)), "<": lambda: ctx.lt(v, t), "<=": lambda: ctx.le(v, t), ">": lambda: ctx.lt(t, v), ">=": lambda: ctx.le(t, v)}[op]()


def names(c):
    return set().union(*[names(x) for x in c[1:]]) if c[0] in ("and", "or", "not") else set(c[1:2])


def arrays(ctx, es):
    return dict((n, ctx.array([e[n] for e in es])) for n in es[0])


def run(ctx, cfg):
    if cfg.get("fork"):
        ctx.fork_index()
    opts = dict((k, cfg[k]) for k in ("defs", "filter") if k in cfg)
    if cfg.get("w"):
        opts["weight"] = "w"
    if "sym" in cfg:
        t = ctx.real("t", -4, 4, 10)
        opts["defs"] = {"t": t}
    h = mkhist(ctx, cfg["axes"], **opts)
    tol = {"tolerance": cfg["tol"]} if "tol" in cfg else {}
    if "refused" in cfg:
        e = dict(entry(ctx, cfg, 0))
        h.fill(arrays(ctx, [e]))
        before = frozen(ctx, h)
        raises(ctx, lambda: h.select(cfg["refused"], **tol), (ValueError, TypeError, OverflowError), "selecting %r is refused" % cfg["refused"])
        checkfrozen(ctx, h, before, "a refused selection changes nothing")
        return
    es = [dict(e) for e in cfg.get("more", [])] + [entry(ctx, cfg, i) for i in range(cfg["n"])]
    h.fill(arrays(ctx, es))
    if "sym" in cfg:
        op = cfg["sym"]
        cond = [op, "x", t]
        try:
            sel = h.select("x %s t" % op)
        except ValueError:
            sel = None
        f = cfg["f"]
        if cfg["edges"] == "int":
            ok = ctx.land(ctx.eq(t, ctx.np.floor(t)), op in ("<", "<=", ">", ">="),
                          ctx.le(-1 + (1 if op == "<" else 0), t), ctx.le(t, 3 - (1 if op == ">" else 0)))
        else:
            right = (op in ("<", ">=")) if f["closedlow"] else (op in (">", "<="))
            last = len(cfg["edges"]) - 1
            ed = cfg["edges"]
            if "underflow" in f:
                # a selection that leaves no bin at all may be refused
                ed = [x for i, x in enumerate(ed) if not (i == 0 and op in ("<", "<=") and not f["underflow"]) and not (i == last and op in (">", ">=") and not f["overflow"])]
            ok = ctx.land(right, ctx.lor(*[ctx.eq(t, x) for x in ed]))
            maybe = ctx.land(right, ctx.lor(*[ctx.eq(t, x) for x in cfg["edges"]]))
        if sel is None:
            ctx.check(ctx.lnot(ok), "a selection exactly at an edge, with the right inequality, is accepted")
            return
        if cfg["edges"] != "int":
            ctx.check(maybe, "a selection that cuts through a bin is refused")
        else:
            ctx.check(ctx.land(ctx.eq(t, ctx.np.floor(t)), op not in ("==", "!=")), "a selection between integers is refused")
    else:
        cond = cfg["cond"]
        sel = h.select(cfg["text"], **tol)
    keep = [e for e in es if ctx.decide(truth(ctx, e, cond))]
    ref = mkhist(ctx, cfg["axes"], **opts)
    if keep:
        ref.fill(arrays(ctx, keep))
    left = [repr(x.expr) for x in sel._group + sel._fixed]
    gone = [repr(x.expr) for x in h._group + h._fixed if repr(x.expr) not in left]
    ctx.check(all(isinstance(x, ctx.hb.cut) for x in h._group + h._fixed if repr(x.expr) in gone), "only cut axes disappear in a selection")
    checkcells(ctx, labelled(ctx, sel, h), without(ctx, labelled(ctx, ref), gone), "selection equals filling with the selected data")
    ctx.check([repr(p.expr) for p in sel._profile] == [repr(p.expr) for p in h._profile] and sel._weightoriginal == h._weightoriginal and sel._filteroriginal == h._filteroriginal, "profiles, weight and filter are kept")
    if sel._content is not None and not sel._group:
        ctx.check(ctx.shape(sel._content) == tuple(sel._shape), "contents have the shape of the axes")
    for i, ax in enumerate(sel._group):
        if isinstance(ax, ctx.hb.groupby) and ax.expr == "g" and names(cond) == set(["g"]):
            for key in blocks(sel):
                ctx.check(truth(ctx, {"g": key[i], "x": 0.0, "p": True}, cond), "only selected categories remain (%r)" % (key[i],))
