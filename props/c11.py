"""C11: axes are found by any algebraically equal expression, and only by those."""
import itertools

from props.lib import *
from props.c10 import meaning, env, uses, MONO, SUMS

BOUNDS = ("(a) every ordered pair of a corpus of expressions (arithmetic with one to four terms, powers, calls, comparisons, logic, sets): if one finds the axis of the other their values agree for all operands (reals in [-8,8], booleans); "
          "(b) every order of up to four summands or factors, with arbitrary symbolic coefficients; (c) families of respellings; (d) lookup by position, expression, class and options, and through select, project, drop, rebin and groupkeys, among up to five similar axes")
ASSUMPTIONS = ["exact real arithmetic; operands where either text is undefined (division by zero) are excluded"]
OPTS = {"witnesses": 2, "query_ms": 6000}

ARITH = ["x", "y", "-x", "2*x", "x + 1", "1 - x", "x - 1", "2*x + 1", "x + y", "x - y", "y - x", "x + 2*y", "2*x + y", "x*y", "x/y", "y/x", "1/x", "1/y", "1/(x*y)", "2*x*y", "x*y/2", "2/(x*y)", "x*x", "x**2", "x**3", "x*x*y", "x*y*y", "x/y/y", "x*x/y", "x**-2",
         "x + y + z", "x + y - z", "x - y + z", "x - y - z", "x*y*z", "x*y/z", "x/y/z", "x/(y/z)", "x*(y + z)", "x*y + z", "x*y + x*z", "x*(y - z)", "(x + y)*(x - y)", "x*x - y*y", "x*x + y*y", "(x + y)**2", "x*x + 2*x*y + y*y", "(x - y)**2", "(y - x)**2",
         "1/(x + y)", "1/(x - y)", "1/(y - x)", "x/(x + y)", "y/(x + y)", "1 - y/(x + y)", "(x + 1)*(y + 1)", "x*y + x + y + 1", "x*y + x + y", "(x + 1)*(y - 1)", "0*x", "x - x", "x/x", "1", "2", "x*0.5", "x/2", "x + 0.5", "x**5", "x**0.5", "x**y", "y**x", "2**x", "x % 2", "x % y",
         "y % x", "x // y", "x // 2", "2*(x % y)", "x % (2*y)", "(2*x) % y", "abs(x)", "abs(-x)", "abs(x - y)", "abs(y - x)", "-abs(x)", "2*abs(x)", "abs(2*x)", "sqrt(x)", "sqrt(x + y)", "sqrt(y + x)", "sqrt(x*y)", "sqrt(x)*sqrt(y)", "max(x, y)", "max(y, x)", "min(x, y)", "max(x, 1)",
         "max(x, 2)", "floor(x)", "ceil(x)", "floor(-x)", "-ceil(x)", "where(x < y, x, y)", "where(y > x, x, y)", "where(x < y, y, x)", "where(x <= y, x, y)", "where(x < y, 1, 0)", "where(not x < y, x, y)", "c*x", "d*x", "c*x + d*y", "d*x + c*y", "c + x", "x - c", "x/c", "c*d*x", "(c + d)*x", "c*x + d*x"]
ARITH += [t for t in SUMS if t not in ARITH]
LOGIC = ["x < y", "x <= y", "x > y", "x >= y", "y < x", "y <= x", "x == y", "x != y", "y == x", "not x < y", "not x == y", "x < 1", "x <= 1", "1 < x", "x > 1", "x == 1", "x + 1 < y", "x < y + 1", "x < y < z", "x < y and y < z", "x < y or y < z", "y < z and x < y", "x < y and y <= z", "x < z",
         "p", "q", "not p", "p and q", "p or q", "p and not q", "not p and q", "not (p and q)", "not (p or q)", "not p and not q", "not p or not q", "p and (q or x < y)", "p and q or p and x < y", "p or q and x < y", "(p or q) and x < y", "p and q and x < y", "p or q or x < y", "x in {1, 2}",
         "x in {2, 1}", "x in {1}", "x in {1, 2, 3}", "x not in {1, 2}", "not x in {1, 2}", "y in {1, 2}", "x in {}", "g == 'a'", "g == 'b'", "g != 'a'", "not g == 'a'", "g in {'a', 'b'}", "g in {'b', 'a'}", "g in {'a'}", "g not in {'a'}", "x < c", "x < d", "c*x < y", "x < c + d"]

# each list: spellings of one expression
SAME = [["x + y", "y + x", "x - (-y)", "-(-x - y)", "+x + y", "(x) + (y)", "(x + z) + y - z"], ["x - y", "-y + x", "-(y - x)", "x + -y", "x - y + 0", "0 + x - y"], ["2*x", "x*2", "x + x", "3*x - x", "x*2.0", "4*x/2", "x/0.5"], ["x*y", "y*x", "x*y*1", "--x*y", "(-x)*(-y)"],
        ["x*y*z", "z*y*x", "y*(x*z)", "(z*x)*y"], ["x/y", "x*(1/y)", "1/y*x", "1/(y/x)", "(x*z)/(y*z)", "x*x/(y*x)"], ["x**2", "x*x", "(-x)**2", "x**3/x"], ["x**3", "x*x*x", "x**2*x", "x*x**2"], ["x**-1", "1/x", "x/x**2"], ["(x + y)*z", "x*z + y*z", "z*(y + x)", "z*y + z*x"],
        ["x*y + x + y + 1", "(x + 1)*(y + 1)", "(1 + y)*(1 + x)", "1 + y + x + y*x"], ["x + 5", "5 + x", "x + 2 + 3", "2 + x + 3", "x + 10 - 5"], ["6*x", "x*2*3", "2*x*3"], ["x/2", "x*0.5", "0.5*x"], ["y", "x - x + y", "x*y/x", "y + 0*x", "1*y", "--y", "+y"],
        ["-x - y", "-(x + y)", "-1*(x + y)", "-y - x"], ["x/(y*z)", "x/y/z", "x/z/y", "1/y/z*x"], ["1/(x + y)", "1/(y + x)", "(x + y)**-1"], ["x < y", "y > x", "not x >= y", "not y <= x"], ["x <= y", "y >= x", "not x > y", "not y < x"], ["x == y", "y == x", "not x != y", "not y != x"],
        ["x < y and y < z", "x < y < z", "z > y > x", "y < z and x < y", "z > y and y > x", "not (x >= y or z <= y)"], ["x < y or y < z", "y < z or x < y", "z > y or y > x"], ["not p or not q", "not q or not p", "not (p and q)"], ["not p and not q", "not (p or q)", "not (q or p)"],
        ["p and (q or x < y)", "(x < y or q) and p", "p and q or p and x < y", "p and (y > x or q)"], ["p and q and x < y", "x < y and p and q", "q and (x < y and p)", "p and p and q and x < y"], ["sqrt(x + y)", "sqrt(y + x)", "math.sqrt(x + y)", "numpy.sqrt(y + x)"],
        ["arctan2(y, x + 1)", "math.atan2(y, 1 + x)", "numpy.arctan2(y, x + 1)"], ["x in {1, 2}", "x in {2, 1}", "not x not in {1, 2}"], ["g == 'a'", "'a' == g", "not g != 'a'"], ["g in {'a', 'b'}", "g in {'b', 'a'}"], ["where(x < y, x + y, 1)", "where(y > x, y + x, 1)"],
        ["x % (y + z)", "x % (z + y)"], ["(x + y) % z", "(y + x) % z"], ["x**(y + z)", "x**(z + y)"], ["sqrt(x)*y + z", "z + y*sqrt(x)"], ["c*x + d", "d + x*c"], ["c*(x + d)", "c*x + c*d", "(d + x)*c"], ["x/c", "x*(1/c)", "1/(c/x)"]]
TERMS = [["x", "y", "z"], ["c*x", "d*y", "z"], ["c*x", "d*x", "y"], ["c", "x", "d"], ["x*y", "y*z", "x*z"], ["x", "x*x", "x*y"], ["sqrt(x)", "x", "abs(y)"], ["1/x", "x", "1/y"], ["x % y", "x", "y"], ["abs(x)", "abs(y)", "sqrt(x)"], ["max(x, y)", "max(y, z)", "max(x, z)"],
         ["x**0.5", "y**0.5", "x"], ["1/(x + y)", "1/(y + z)", "x"], ["(x + y)", "(y + z)", "(x + z)"], ["where(x < y, 1, 2)", "where(y < x, 1, 2)", "x"], ["x/y", "y/x", "x*y"], ["2", "x", "3"], ["x", "y", "z", "2"], ["c*x", "y", "d", "z"]]
CONDS = [["x < y", "y < z", "p"], ["p", "q", "not p"], ["x < y", "y < x", "x == y"], ["x in {1, 2}", "y in {1, 2}", "x in {2, 3}"], ["g == 'a'", "g == 'b'", "p"], ["x < c", "x < d", "p"], ["x < y", "x <= y", "x < y + 1"], ["p", "q", "x < y", "y < z"]]


def configs(tier):
    out = []
    for kind, corpus in (("value", ARITH), ("truth", LOGIC)):
        for i, t in enumerate(corpus):
            out.append({"name": "%s: what finds %s" % (kind, t), "k": kind, "text": t, "seconds": 120})
    for i, g in enumerate(SAME):
        out.append({"name": "spellings of %s" % g[0], "k": "same", "i": i})
    for ts in TERMS:
        for op in (" + ", " - ", "*", "/"):
            if op == "/" and ("1/" in ts[0] or "c" in "".join(ts)):
                continue
            out.append({"name": "order of %s%s..." % (op.join(ts), op), "k": "order", "terms": ts, "op": op, "seconds": 120, "max_paths": 3000})
    for ts in CONDS:
        for op in (" and ", " or "):
            out.append({"name": "order of %s" % op.join(ts), "k": "order", "terms": ts, "op": op, "logic": True})
    for i in range(len(MANY)):
        out.append({"name": "among %s" % (MANY[i],), "k": "many", "i": i})
    for o in ("options", "missing", "select", "project", "drop", "rebin", "groupkeys", "defs"):
        out.append({"name": o, "k": o})
    return out


MANY = [["x + y", "x - y", "y - x", "x*y", "x/y"], ["c*x", "d*x", "x"], ["x", "2*x", "x/2", "-x"], ["abs(x)", "abs(y)", "abs(x - y)"], ["x % y", "y % x", "x"], ["x**2", "x**3", "2*x"], ["x + c", "x - c", "x + d"]]


def operands(ctx, texts):
    allt = " ; ".join(texts)
    vals, defs = {}, {}
    for n in ("x", "y", "z", "p", "q", "g", "c", "d"):
        if uses(allt, n):
            if n in "pq":
                vals[n] = ctx.boolean(n)
            elif n == "g":
                vals[n] = ctx.choose("g", ["a", "b", "c"])
            else:
                vals[n] = ctx.real(n, 0.125 if "0.5" in allt or "sqrt" in allt or "**x" in allt or "**y" in allt or "**(" in allt else -8, 8, 3)
            if n in "cd":
                defs[n] = vals[n]
    return vals, defs


def mk(ctx, text, logic, defs):
    hb = ctx.hb
    ax = hb.cut(text) if logic else hb.split(text, (0, 1))
    return hb.Hist(ax, defs=defs) if defs else hb.Hist(ax)


def finds(h, text):
    try:
        h.axis[text]
    except IndexError:
        return False
    return True


def run(ctx, cfg):
    ctx.ideal()
    hb = ctx.hb
    k = cfg["k"]
    if k in ("value", "truth"):
        return pairs(ctx, cfg)
    if k == "same":
        g = SAME[cfg["i"]]
        vals, defs = operands(ctx, g)
        for n in defs:
            ctx.assume(ctx.lnot(ctx.eq(vals[n], 0.0)))
        logic = isinstance(hb.expr.Expr.parse(g[0], defs=defs), (hb.expr.Relation, hb.expr.Logical, hb.expr.Predicate))
        for a in g:
            h = mk(ctx, a, logic, defs)
            for b in g:
                ctx.check(finds(h, b), "the axis %s is found as %s" % (a, b))
        return
    if k == "order":
        return order(ctx, cfg)
    return globals()["t_" + k](ctx, cfg)


def pairs(ctx, cfg):
    hb = ctx.hb
    a, logic = cfg["text"], cfg["k"] == "truth"
    corpus = LOGIC if logic else ARITH
    partners = [b for b in corpus if b != a and (not (uses(b, "c") or uses(b, "d")) or uses(a, "c") or uses(a, "d"))]
    vals, defs = operands(ctx, [a] + [b for b in partners if uses(a, "c") or uses(a, "d")])
    h = mk(ctx, a, logic, defs)
    found = [b for b in partners if finds(h, b)]
    ctx.check(finds(h, a), "%s finds its own axis" % a)
    pa = hb.expr.Expr.parse(a, defs=defs)
    need = [a] + found
    for n in ("x", "y", "z", "p", "q", "g"):
        if n not in vals and any(uses(t, n) for t in need):
            vals[n] = ctx.boolean(n) if n in "pq" else ctx.choose("g", ["a", "b", "c"]) if n == "g" else ctx.real(n, -8, 8, 3)
    e = env(ctx, vals)
    for b in found:
        try:
            va, vb = meaning(ctx, a, e), meaning(ctx, b, e)
        except ZeroDivisionError:
            continue
        ctx.check(ctx.same(va, vb), "the axis %s is found as %s, which has a different value" % (a, b))
        pb = hb.expr.Expr.parse(b, defs=defs)
        if not defs:
            ctx.check(pa == pb and hash(pa) == hash(pb) and not (pa != pb), "%s and %s are equal and have the same hash" % (a, b))


def join(op, ts):
    return op.join("(%s)" % t for t in ts)


def order(ctx, cfg):
    ts, op = cfg["terms"], cfg["op"]
    vals, defs = operands(ctx, ts)
    rest = list(ts)
    if op in (" - ", "/"):
        first, rest = rest[0], rest[1:]
    perm = []
    pool = list(rest)
    while pool:
        perm.append(pool.pop(ctx.choose("pick%d" % len(pool), list(range(len(pool))))) if len(pool) > 1 else pool.pop())
    if op in (" - ", "/"):
        a, b = join(op, [first] + rest), join(op, [first] + perm)
    else:
        a, b = join(op, rest), join(op, perm)
    h = mk(ctx, a, cfg.get("logic"), defs)
    ctx.check(finds(h, b), "the axis %s is found as %s" % (a, b))


def t_many(ctx, cfg):
    """among several axes, the one found is one with the same value"""
    hb = ctx.hb
    exprs = MANY[cfg["i"]]
    vals, defs = operands(ctx, exprs)
    if "c" in vals:
        ctx.assume(ctx.lnot(ctx.eq(vals["c"], 0.0)))
    h = hb.Hist(*[hb.bin(t, 2, 0, i + 1) for i, t in enumerate(exprs)], **({"defs": defs} if defs else {}))
    e = env(ctx, vals)
    for t in exprs:
        ax = h.axis[t]
        i = [ctx.decide(ctx.eq(ax.high, j + 1.0)) for j in range(len(exprs))].index(True)
        try:
            ctx.check(ctx.same(meaning(ctx, exprs[i], e), meaning(ctx, t, e)), "%s finds the axis %s" % (t, exprs[i]))
        except ZeroDivisionError:
            pass
    for i, t in enumerate(exprs):
        ctx.check(h.axis[i].high == i + 1, "position %d is the axis %s" % (i, t))
        ctx.check(h.axis[i - len(exprs)].high == i + 1, "position %d is the axis %s" % (i - len(exprs), t))


def t_options(ctx, cfg):
    hb = ctx.hb
    lo, hi, w = ctx.int("lo", -3, 0), ctx.int("hi", 1, 3), ctx.int("w", 1, 2)
    h = hb.Hist(hb.bin("x", 2, lo, hi), hb.bin("x", 3, lo, hi), hb.bin("x", 2, lo, hi + 1, closedlow=False), hb.intbin("x", 0, 2), hb.intbin("x", 0, 3), hb.split("x", (0, 1)), hb.split("x", (0, 1, 2), underflow=False), hb.cut("x < y"), hb.groupby("x"), hb.groupbin("x", w),
                hb.groupbin("x", w + 1, closedlow=False), hb.profile("x"))
    want = [(lambda: h.axis.bin("x", numbins=2), lambda a: isinstance(a, hb.bin) and a.numbins == 2), (lambda: h.axis.bin("x", numbins=3), lambda a: isinstance(a, hb.bin) and a.numbins == 3),
            (lambda: h.axis.bin("x", closedlow=False), lambda a: isinstance(a, hb.bin) and not a.closedlow and a.numbins == 2), (lambda: h.axis.bin("x", high=hi + 1), lambda a: isinstance(a, hb.bin) and not a.closedlow),
            (lambda: h.axis.intbin("x", max=3), lambda a: isinstance(a, hb.intbin) and a.max == 3), (lambda: h.axis.split("x", underflow=False), lambda a: isinstance(a, hb.split) and len(a.edges) == 3), (lambda: h.axis.split("x"), lambda a: isinstance(a, hb.split) and len(a.edges) == 2),
            (lambda: h.axis.cut("y > x"), lambda a: isinstance(a, hb.cut)), (lambda: h.axis.groupby("x"), lambda a: isinstance(a, hb.groupby)), (lambda: h.axis.groupbin("x", closedlow=False), lambda a: isinstance(a, hb.groupbin) and ctx.decide(ctx.eq(a.binwidth, w + 1))),
            (lambda: h.axis.groupbin("x", binwidth=w), lambda a: isinstance(a, hb.groupbin) and a.closedlow), (lambda: h.axis.profile("x"), lambda a: isinstance(a, hb.profile))]
    for i, (get, ok) in enumerate(want):
        ctx.check(ok(get()), "lookup %d by class and options" % i)
    for i, f in enumerate([lambda: h.axis.bin("x", numbins=4), lambda: h.axis.bin("y"), lambda: h.axis.bin("x", nosuch=1), lambda: h.axis.intbin("x", min=1), lambda: h.axis.split("x", closedlow=False), lambda: h.axis.cut("x <= y"), lambda: h.axis.groupby("2*x"),
                           lambda: h.axis.groupbin("x", binwidth=w + 2), lambda: h.axis.profile("y"), lambda: h.axis.bin("x", low=hi)]):
        raises(ctx, f, IndexError, "lookup %d of an axis that is not there is refused" % i)


def t_missing(ctx, cfg):
    hb = ctx.hb
    c = ctx.real("c", -8, 8, 3)
    h = hb.Hist(hb.bin("c*x + y", 2, 0, 1), hb.cut("x < c"), hb.groupby("g"), hb.profile("z"), defs={"c": c})
    ctx.assume(ctx.lnot(ctx.eq(c, 0.0)))
    ctx.assume(ctx.lnot(ctx.eq(c, 2.0)))
    for t in ("x + 2*y", "2*x + y", "c*x - y", "x < 2", "x <= c", "c < x", "z + g", "k", "c*x", "y"):
        raises(ctx, lambda: h.axis[t], IndexError, "no axis is %s" % t)
        raises(ctx, lambda: h.project(t), IndexError, "nothing is projected onto %s" % t)
    for i in (4, 7, -5):
        raises(ctx, lambda: h.axis[i], IndexError, "there is no axis %d" % i)
    ctx.check(len(h.axis) == 4 and finds(h, "y + c*x") and finds(h, "c > x") and finds(h, "g") and finds(h, "z"), "the axes that are there are found")


def filled(ctx):
    hb = ctx.hb
    h = hb.Hist(hb.groupby("g"), hb.bin("x + y", 2, 0, 2), hb.bin("x - y", 2, -2, 2), hb.cut("x < y"), hb.profile("x*y"), hb.profile("x/y"), weight="w")
    arbitrary(ctx, h, "h", [{"g": ctx.array(["a", "b"]), "x": ctx.array([1.0, 1.0]), "y": ctx.array([1.0, 1.0]), "w": ctx.array([1.0, 1.0])}], only=(1, 1, 0))
    return h


def agree(ctx, a, b, msg):
    ctx.check([repr(x) for x in a.axis] == [repr(x) for x in b.axis], "%s: same axes" % msg)
    checksame(ctx, a, b, msg)


def t_select(ctx, cfg):
    h = filled(ctx)
    for a, bs in (("x + y < 1", ("y + x < 1", "1 > x + y", "1 > y + x", "not x + y >= 1", "2*y/2 + x < 1")), ("x - y >= 0", ("-y + x >= 0", "0 <= x - y", "not x - y < 0")), ("x < y", ("y > x", "not x >= y")), ("g == 'a'", ("'a' == g",)),
                  ("g in {'a', 'c'}", ("g in {'c', 'a'}",)), ("x + y < 1 and x - y >= 0", ("x - y >= 0 and y + x < 1", "1 > y + x and 0 <= x - y"))):
        for b in bs:
            agree(ctx, h.select(a), h.select(b), "select %s as %s" % (a, b))
    # the axis selected is the one named
    for t, ax in (("x + y < 1", 1), ("x - y < 0", 2)):
        s = h.select(t)
        ctx.check([repr(x) for i, x in enumerate(s.axis) if i != ax] == [repr(x) for i, x in enumerate(h.axis) if i != ax] and repr(s.axis[ax]) != repr(h.axis[ax]), "select %s changes that axis only" % t)
    for t in ("y - x < 0", "x*y < 1", "x + 2*y < 1", "k == 'a'", "y < x", "2*x < y"):
        raises(ctx, lambda: h.select(t), (ValueError, TypeError, IndexError), "nothing to select %s with" % t)


def t_project(ctx, cfg):
    h = filled(ctx)
    for a, b in (("x + y", "y + x"), ("x - y", "-y + x"), ("x < y", "y > x"), ("x - y", "-(y - x)"), ("g", "g")):
        agree(ctx, h.project(a), h.project(b), "project %s as %s" % (a, b))
    agree(ctx, h.project("x + y", "x < y"), h.project("y > x", "y + x"), "project two")
    ctx.check([x.expr for x in h.project("y + x").axis][:1] == ["x + y"], "the axis projected onto is the one named")
    raises(ctx, lambda: h.project("y - x"), IndexError, "no such axis")


def t_drop(ctx, cfg):
    h = filled(ctx)
    for a, b in (("x*y", "y*x"), ("x/y", "1/y*x")):
        agree(ctx, h.drop(a), h.drop(b), "drop %s as %s" % (a, b))
    ctx.check([x.expr for x in h.drop("y*x").axis][-1] == "x/y", "the profile dropped is the one named")
    raises(ctx, lambda: h.drop("y/x"), IndexError, "no such profile")
    raises(ctx, lambda: h.drop("x + y"), IndexError, "not a profile")


def t_rebin(ctx, cfg):
    hb = ctx.hb
    h = filled(ctx)
    for a, b in (("x + y", "y + x"), ("x - y", "-y + x"), ("x - y", "-(y - x)")):
        agree(ctx, h.rebinby(a, 2), h.rebinby(b, 2), "rebinby %s as %s" % (a, b))
        agree(ctx, h.rebin(a, (0, 2) if a == "x + y" else (-2, 2)), h.rebin(b, (0, 2) if a == "x + y" else (-2, 2)), "rebin %s as %s" % (a, b))
    r = h.rebinby("-y + x", 2)
    ctx.check([repr(x) for i, x in enumerate(r.axis) if i != 2] == [repr(x) for i, x in enumerate(h.axis) if i != 2] and repr(r.axis[2]) != repr(h.axis[2]), "the axis rebinned is the one named")
    for t in ("y - x", "x", "x < y", "g"):
        raises(ctx, lambda: h.rebinby(t, 2), (IndexError, ValueError, TypeError), "no such axis")
    # axes written in an unusual way are found by any spelling, their own included
    q = hb.Hist(hb.groupbin("1 + y*x", 1), hb.bin("y+x", 2, 0, 2), hb.intbin("y - -x - 1", 0, 3), hb.split("-(y - x)", (0, 1, 2)))
    arbitrary(ctx, q, "q", [{"x": ctx.array([1.0]), "y": ctx.array([1.0])}], only=(1, 1, 1))
    for i, (own, ts) in enumerate((("1 + y*x", ("x*y + 1", "1 + x*y")), ("y+x", ("x + y", "y + x")), ("y - -x - 1", ("x + y - 1", "x - 1 + y")), ("-(y - x)", ("x - y", "-y + x")))):
        a = q.rebinby(own, 2)
        ctx.check([repr(x) != repr(y) for x, y in zip(a.axis, q.axis)] == [j == i for j in range(4)], "rebinby %s rebins that axis" % own)
        for t in ts:
            agree(ctx, a, q.rebinby(t, 2), "rebinby %s as %s" % (own, t))
            ctx.check(repr(q.axis[t]) == repr(q.axis[own]), "axis %s as %s" % (own, t))
            if i:
                agree(ctx, q.project(own), q.project(t), "project %s as %s" % (own, t))


def t_groupkeys(ctx, cfg):
    hb = ctx.hb
    x, y = ctx.real("x", 0, 3, 2), ctx.real("y", 0, 3, 2)
    h = hb.Hist(hb.groupbin("x + y", 1), hb.groupbin("x - y", 1), hb.groupby("k"))
    h.fill(x=ctx.array([x]), y=ctx.array([y]), k=ctx.array(["u"]))
    for a, b in (("x + y", "y + x"), ("x - y", "-y + x"), ("x - y", "-(y - x)")):
        ctx.check(h.groupkeys(a) == h.groupkeys(b), "the keys of %s as %s" % (a, b))
    for t in ("x + y", "x - y"):
        ks = [ctx.scalar(k) for k in h.groupkeys(t)]
        ctx.check(len(ks) == 1, "one key")
        v = x + y if t == "x + y" else x - y
        ctx.check(ctx.land(ctx.le(ks[0], v), ctx.lt(v, ks[0] + 1)), "the key of %s" % t)
    ctx.check(set(str(k) for k in h.groupkeys("k")) == set(["u"]), "the keys of k")
    raises(ctx, lambda: h.groupkeys("y - x"), IndexError, "no such axis")


def t_defs(ctx, cfg):
    hb = ctx.hb
    c = ctx.real("c", 1.5, 8, 3)
    h = hb.Hist(hb.bin("t + c", 2, 0, 2), hb.cut("near"), hb.profile("t*c"), defs={"t": "x + y", "near": "x < y", "c": c})
    for t in ("t + c", "x + y + c", "c + t", "y + c + x"):
        ctx.check(finds(h, t), "the axis t + c is found as %s" % t)
        ctx.check(repr(h.axis[t]) == repr(h.axis[0]), "%s is the axis t + c" % t)
    for t in ("near", "x < y", "y > x"):
        ctx.check(finds(h, t) and repr(h.axis[t]) == repr(h.axis[1]), "the cut is found as %s" % t)
    for t in ("t*c", "c*t", "c*x + y*c"):
        ctx.check(finds(h, t) and repr(h.axis[t]) == repr(h.axis[2]), "the profile is found as %s" % t)
    for t in ("t + c", "y + c + x"):
        ctx.check(repr(h.axis.bin(t)) == repr(h.axis[0]), "the bin axis is found by class as %s" % t)
    for t in ("near", "y > x"):
        ctx.check(repr(h.axis.cut(t)) == repr(h.axis[1]), "the cut axis is found by class as %s" % t)
    for t in ("t*c", "c*x + y*c"):
        ctx.check(repr(h.axis.profile(t)) == repr(h.axis[2]), "the profile is found by class as %s" % t)
        ctx.check(len(h.drop(t).axis) == 2, "the profile is dropped as %s" % t)
    g = hb.Hist(hb.groupby("t"), hb.groupbin("t + 1", 1), hb.intbin("2*t", 0, 2), hb.split("t", (0, 1)), defs={"t": "x + y"})
    for cls, ts in (("groupby", ("t", "x + y")), ("groupbin", ("1 + t", "x + 1 + y")), ("intbin", ("t*2", "2*x + 2*y")), ("split", ("t", "y + x"))):
        for t in ts:
            ctx.check(type(getattr(g.axis, cls)(t)).__name__ == cls, "the %s axis is found by class as %s" % (cls, t))
    for t in ("t", "c", "x + c", "t - c", "x < t", "y < x"):
        raises(ctx, lambda: h.axis[t], IndexError, "no axis is %s" % t)
