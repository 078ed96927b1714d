"""C10: an expression evaluates to the value its text has in Python."""
import ast
import math

from props.lib import *

BOUNDS = ("arithmetic: every shape of two and three binary operators (+ - * /) over patterns of repeated and distinct fields, symbolic constants and literals, unary minus, integer powers -5..6, floor division and remainder; "
          "logic: comparisons, chains, and/or/not up to three terms, membership; every recognised function under its math, numpy and bare spelling (transcendentals uninterpreted); operands are arbitrary reals in [-8,8], integers where stated, "
          "evaluated in exact real arithmetic; the printed form of each expression evaluates to the same value")
ASSUMPTIONS = ["exact real arithmetic: algebraic simplification may change rounding, overflow and the treatment of NaN or infinite operands", "operands where the text itself is undefined (division by zero, domain errors) are excluded"]
OPTS = {"witnesses": 2, "query_ms": 6000}

OPS = ["+", "-", "*", "/"]
PAT3 = ["xyz", "xxy", "xyx", "yxx", "xcy", "cxd", "xcd", "cxy", "xyc", "xcx", "x2y", "3x2", "xxx"]
PAT4 = ["xyxz", "xcxd", "xyyx", "x1x1", "cxyd", "2x4y"]

MONO = ["x", "y", "x*x", "x*y", "x*x*y", "x*y*y", "x/y", "x*x/y", "1/x", "y/x", "1/(x*y)", "1/(x*x)", "y/(x*x)", "1/(x*x*y)", "abs(x)", "x*abs(x)"]
SUMS = ["%s%s%s" % (a, s, b) for i, a in enumerate(MONO) for b in MONO[i:] for s in (" + ", " - ", " + 3*")] + ["2*%s" % a for a in MONO[2:]] + ["4*%s" % a for a in MONO] + ["-2*%s" % a for a in MONO]

FUNCS1 = {"abs": "absolute", "arccos": "arccos", "arccosh": "arccosh", "arcsin": "arcsin", "arcsinh": "arcsinh", "arctan": "arctan", "arctanh": "arctanh", "ceil": "ceil", "cos": "cos", "cosh": "cosh",
          "deg2rad": "deg2rad", "exp2": "exp2", "exp": "exp", "expm1": "expm1", "floor": "floor", "isfinite": "isfinite", "isinf": "isinf", "isnan": "isnan", "log10": "log10", "log1p": "log1p", "log2": "log2",
          "log": "log", "rad2deg": "rad2deg", "rint": "rint", "sign": "sign", "sinh": "sinh", "sin": "sin", "sqrt": "sqrt", "tanh": "tanh", "tan": "tan", "trunc": "trunc", "conj": "conjugate", "fabs": "absolute", "round": "rint"}
FUNCS2 = {"arctan2": "arctan2", "copysign": "copysign", "hypot": "hypot", "logaddexp": "logaddexp", "logaddexp2": "logaddexp2", "max": "maximum", "min": "minimum", "fmax": "maximum", "fmin": "minimum", "mod": "remainder",
          "fmod": "fmod", "pow": "power", "heaviside": "heaviside"}
SPELL = {"math": {"acos": "arccos", "acosh": "arccosh", "asin": "arcsin", "asinh": "arcsinh", "atan2": "arctan2", "atan": "arctan", "atanh": "arctanh", "ceil": "ceil", "copysign": "copysign", "cos": "cos", "cosh": "cosh",
                  "degrees": "rad2deg", "exp": "exp", "expm1": "expm1", "floor": "floor", "fmod": "fmod", "hypot": "hypot", "isinf": "isinf", "isnan": "isnan", "log10": "log10", "log1p": "log1p", "log": "log", "pow": "pow",
                  "radians": "deg2rad", "sinh": "sinh", "sin": "sin", "sqrt": "sqrt", "tanh": "tanh", "tan": "tan", "trunc": "trunc"},
         "numpy": {"absolute": "abs", "arccos": "arccos", "arccosh": "arccosh", "arcsin": "arcsin", "arcsinh": "arcsinh", "arctan2": "arctan2", "arctan": "arctan", "arctanh": "arctanh", "ceil": "ceil", "conjugate": "conj",
                   "copysign": "copysign", "cos": "cos", "cosh": "cosh", "deg2rad": "deg2rad", "degrees": "rad2deg", "exp2": "exp2", "exp": "exp", "expm1": "expm1", "floor": "floor", "fmod": "fmod", "heaviside": "heaviside",
                   "hypot": "hypot", "isfinite": "isfinite", "isinf": "isinf", "isnan": "isnan", "log10": "log10", "log1p": "log1p", "log2": "log2", "logaddexp2": "logaddexp2", "logaddexp": "logaddexp", "log": "log",
                   "maximum": "max", "minimum": "min", "power": "pow", "rad2deg": "rad2deg", "radians": "deg2rad", "remainder": "mod", "rint": "rint", "round": "round", "sign": "sign", "sinh": "sinh", "sin": "sin",
                   "sqrt": "sqrt", "tanh": "tanh", "tan": "tan", "trunc": "trunc"}}
INSIDE = {"arccos": (-0.875, 0.875), "arcsin": (-0.875, 0.875), "arctanh": (-0.875, 0.875), "arccosh": (1.0625, 8), "log": (0.0625, 8), "log10": (0.0625, 8), "log2": (0.0625, 8), "log1p": (-0.875, 8), "sqrt": (0, 8)}


def shapes(tier):
    out = []
    for o1 in OPS:
        for o2 in OPS:
            for p in PAT3:
                a, b, c = p
                out.append("(%s %s %s) %s %s" % (a, o1, b, o2, c))
                out.append("%s %s (%s %s %s)" % (a, o1, b, o2, c))
            for o3 in OPS:
                for p in PAT4 if tier == "thorough" else PAT4[:4]:
                    a, b, c, d = p
                    out.append("(%s %s %s) %s (%s %s %s)" % (a, o1, b, o2, c, o3, d))
                    if tier == "thorough" or p in ("xyxz", "xcxd"):
                        out.append("((%s %s %s) %s %s) %s %s" % (a, o1, b, o2, c, o3, d))
                        out.append("%s %s (%s %s (%s %s %s))" % (a, o1, b, o2, c, o3, d))
    for o in OPS:
        for u, v in (("x", "y"), ("x", "x"), ("x", "c"), ("c", "x"), ("x", "2")):
            out.append("-(%s %s %s)" % (u, o, v))
            out.append("-%s %s -%s" % (u, o, v))
            out.append("%s %s -(-%s)" % (u, o, v))
            for n in (1, 2, 3, 4, -1, -2, -3, -4):
                out.append("(%s %s %s)**%d" % (u, o, v, n))
                out.append("(-(%s %s %s))**%d" % (u, o, v, n))
            out.append("(%s %s %s)**2 %s (%s %s %s)" % (u, o, v, o, u, o, v))
            out.append("(%s %s %s)**2 / (%s %s %s)" % (u, o, v, u, o, v))
            out.append("1/(%s %s %s) - 1/(%s %s %s)" % (u, o, v, v, o, u))
            out.append("z*(%s %s %s) - z*%s" % (u, o, v, u))
    out += ["+x", "--x", "-x**2", "(-x)**2", "(-x)**3", "x**2/x", "x**2*x**3/x**4", "x**3 - x*x*x", "x - x", "x/x", "0*x", "x*0 + y", "x*1", "1*x + 0", "x**0", "x**1", "x**5", "x**6", "x**-5", "x**0.5", "c*x**2 + d*x + c*d",
            "(x + y + z)*(x - y - z)", "(x + y)*(x - y) - x*x + y*y", "(x/y)/(z/y)", "x/(y*x)", "x*y/(x*y)", "x/(x*x)", "x*x/x/x", "(x*y)/(y*x)*z", "1/(1/x)", "1/(1/(x + y))", "(x + 1)*(y + 2)", "(x + 1)*(x + 1)", "(x + c)*(y + d)",
            "2*(x + 3)*(y - 1)", "(x + 1)/(x + 1)", "x/(x + y) + y/(x + y)", "2**3 * x", "x + 7//2", "x + 7 % 3", "x + (-7)//2", "x + 7//(-2)", "x + (-7) % 3", "x + 7 % (-3)", "x + 7.5//2", "x + (-7.5) % 2", "x*(1 - 8)//2", "x + (2 - 9)//2", "x + (2 - 9) % 4", "x + (-7)/2", "x + 7/2", "x + (-2)**3", "x + (-2)**-3", "x + 0**2", "x + 2*3//4", "x + 7//2*2", "x - 2**-1", "x*(5 - 5)", "(2 + 3)*x - 5*x", "x/2 + x/2", "x*0.5 - x/2", "-(-x - y) - y", "3 - (2 - (1 - x))",
            "x*y*z - z*y*x", "x/y/z*z*y", "(x - y)**3 + (y - x)**3", "((x + y)**2 + 1)**2", "(2*x)**3/(4*x)", "(-2*x*y)**3", "(-2*x/y)**-3", "(c*x)**-2", "(c*x)**3", "(x*x + y*y)**0.5", "(x*x)**0.5", "sqrt(x*x + 1)", "abs(x - y)*2",
            "sqrt(4)*x", "x + sqrt(9)", "abs(-3) + x", "max(x, y) - min(x, y)", "max(x, 2)", "where(x < y, x, y)", "where(x < y and y < z, 1, 0)*x", "where(not x < y, x, y)", "where(p, x, y)", "where(not p, x, y)", "x*where(x >= 1, x, 1/2)",
            "where(x == y, z, x/(x - y))", "where(x < y, 1, x)", "where(x < y, x, 2)", "where(x < y, 1, 0.5)", "max(1, x)", "x + where(p, 0, y)", "floor(x) + ceil(y)", "floor(x*2)/2", "abs(x)*abs(y)", "sign(x)*abs(x)"]
    out += SUMS
    seen = set()
    return [t for t in out if not (t in seen or seen.add(t))]


LOGIC = ["x < y", "x <= y", "x > y", "x >= y", "x == y", "x != y", "x < c", "c < x", "x + y < z", "2*x >= y - 1", "x/2 > y", "x < y < z", "x <= y < z <= c", "x < y and y < z", "x < y or y < z", "not x < y", "not x <= y", "not x == y",
         "not (x < y and y < z)", "not (x < y or y < z)", "x < 1 and (y < 1 or z < 1)", "x < 1 or (y < 1 and z < 1)", "(x < 1 or y < 1) and (z < 1 or x > 2)", "not (x < 1 or (y < 1 and not z < 1))", "p and q", "p or q", "not p and q",
         "p and not q", "not (p and q)", "not (p or q)", "not (not p)", "not p", "p and x < y", "not p or x < y", "(p or x < 1) and (not p or y < 1)", "p and p", "p or not p", "p and not p", "x in {1, 2}", "x not in {1, 2, 3}", "x in {1}",
         "x in {}", "x not in {}", "not x in {1, 2}", "x in {1, 2} and y in {3}", "x in {1, 2} or p", "x*2 in {1, 2}", "x == 1 or x == 2", "x != 1 and x != 2", "g == 'a'", "g != 'a'", "g in {'a', 'b'}", "g not in {'a'}", "g == 'a' or g == 'b'",
         "not g == 'a'", "x*x < 4 and x > 0", "(x - y)*(x + y) >= 0", "1/x < y", "0 < x <= 1 or 2 < x <= 3", "where(x < y, 1, 0) == 1", "x % 2 == 0", "x // 2 == 1"]

INTS = ["x + y", "x - y", "x * y", "x / y", "x // y", "x % y", "x // 3", "x % 3", "7 // x", "7 % x", "(x + y) // z", "(x + y) % z", "x * (y // z)", "(x // y) * y + x % y", "-x // y", "-(x // y)", "-x % y", "(-x) % y", "x % y * z", "x * (y % z)",
        "x // y // z", "x // (y // z)", "x % y % z", "x % (y % z)", "x ** 2 // y", "x ** 2 % 3", "max(x, y) // 2", "abs(x) % 2", "x - y // 2", "(x - y) // 2", "x + c // d", "x + c % d", "x*(c // 3)", "x - c % 3", "x + -7 // c", "x + 7 % c", "c // d", "c*x // d", "(c + d)*x - c*x"]
REFUSED = ["x[0]", "x.y", "lambda x: x", "[1, 2]", "x if y else z", "(1, 2)", "unknownfunction(x)", "{x, y}", "x < (y < z)", "x + (y < z)", "x << 2", "x in y", "x is y", "sqrt(x, out=y)", "f(x)(y)", "x = 3", "", "x +", "(x < y) + 1", "x and 3",
           "b'abc'", "x + [1]", "sqrt([x])", "numpy.nosuch(x)", "max(*x)", "f'{x}'", "x @ y", "...", "x / 0", "1 / (2 - 2)"]
PRINTED = ["(x + y)**2", "1/(x + y)", "z/(x - y)/2", "(x + y)**2*z", "x - (y - z)", "2*(x + y)", "-(x + y)", "-x", "-x*y", "(x % y)*z", "x % (y*z)", "x*(y % z)", "x % (y + z)", "(x + y) % z", "x % y % z", "x % (y % z)", "x**0.5*y", "(x*y)**0.5",
           "(x + y)**0.5", "(x**0.5)**0.5", "x // y * z", "x // (y*z)", "(x - 1) // y", "x - y % 2", "sqrt(x + y)*2", "where(x < y, x, y + 1)", "where(x < y or y < z, x, y)", "x < y", "x + 1 <= y*2", "x < y and y < z", "x < y or y < z",
           "(x < y or y < z) and x < z", "not p", "p and not q", "p or q and x < y", "x in {1, 2}", "x not in {1, 2}", "g == 'a'", "g in {'a', 'b'}", "x/4", "x*0.1","x - 3", "3 - x", "1/x", "2/x/y", "(x/y)**2", "x/(y/z)", "x**5", "2**x", "(x + 1)**x", "x**(y + 1)", "x**-1 + 2"]


# several expressions of one histogram, with subexpressions in common
SHARED = [("x", "3", "2"), ("3", "x", "2"), ("3", "2", "x"), ("3", "3", "x*3"), ("x + y", "x + y", "x + y"), ("x + y", "(x + y)*z", "z"), ("x*y", "x*y*z", "x*y + z"), ("abs(x - y)", "abs(x - y) + abs(y - x)", "2*abs(x - y)"),
          ("x", "x*x", "x*x*x"), ("x - y", "y - x", "z"), ("max(x, y)", "min(x, y)", "max(x, y) - min(x, y)"), ("where(x < y, x, y)", "where(x < y, y, x)", "where(x < y, 1, 2)"), ("x % 2", "x // 2", "x % 2 + x // 2"), ("sqrt(4)", "x", "y"), ("x", "sqrt(4)", "abs(-1)*y"),
          ("floor(x)", "x - floor(x)", "floor(x) + floor(y)"), ("y", "x", "x"), ("2*x", "x/2", "x"), ("-x", "x", "-y")]


def configs(tier):
    out = []
    for t in shapes(tier):
        cost = 3 if t.count("/") + t.count("**-") > 2 else 1
        out.append({"name": "value of %s" % t, "text": t, "sink": "weight", "cost": cost, "seconds": 60})
        if tier == "thorough" or t.count("(") < 2 and len(t) < 12:
            out.append({"name": "profiled %s" % t, "text": t, "sink": "profile", "cost": cost, "seconds": 60})
    for t in LOGIC:
        for sink in ("filter", "cut", "where"):
            out.append({"name": "%s %s" % (sink, t), "text": t, "sink": sink})
    for t in INTS:
        out.append({"name": "integers: %s" % t, "text": t, "sink": "weight", "ints": True})
    for t in ("x // y", "x % y", "x // 2", "x % 2", "5 % x", "5 // x", "-x % 3", "x // y * y + x % y"):
        out.append({"name": "floats: %s" % t, "text": t, "sink": "weight"})
    for t in PRINTED:
        out.append({"name": "printed %s" % t, "text": t, "sink": "print"})
    for f in sorted(FUNCS1):
        out.append({"name": "function %s" % f, "fcn": f, "spelling": f, "n": 1})
    for f in sorted(FUNCS2):
        out.append({"name": "function %s" % f, "fcn": f, "spelling": f, "n": 2})
    for mod in sorted(SPELL):
        for s, f in sorted(SPELL[mod].items()):
            out.append({"name": "function %s.%s" % (mod, s), "fcn": f, "spelling": mod + "." + s, "n": 1 if f in FUNCS1 else 2})
    for f in ("erf", "gamma", "factorial"):
        out.append({"name": "special %s" % f, "special": f})
    for i, (b, p, w) in enumerate(SHARED):
        out.append({"name": "together %s | %s | %s" % (b, p, w), "shared": i})
    for t in REFUSED:
        out.append({"name": "refused %r" % t, "refuse": t})
    for d in ({"t": "x + y"}, {"t": "x < y"}, {"t": "2"}, {"t": "x*y"}, {"t": "where(x < y, x, y)"}):
        for t in ("t*z", "t - 1", "t**2", "1 - t", "t + t", "t/2"):
            if d["t"] != "x < y":
                out.append({"name": "with t = %s: %s" % (d["t"], t), "text": t, "defs": d, "sink": "weight"})
        if d["t"] == "x < y":
            for t in ("t and z < 1", "not t", "t or p", "t"):
                out.append({"name": "with t = %s: %s" % (d["t"], t), "text": t, "defs": d, "sink": "filter"})
    return out


def env(ctx, vals):
    """what the text means in Python"""
    np = ctx.np
    e = dict(vals)
    one = lambda f: lambda *a: ctx.scalar(f(*[ctx.array([x]) for x in a])[0])
    for n, f in list(FUNCS1.items()) + list(FUNCS2.items()):
        e[n] = one(getattr(np, f))
    e["where"] = lambda c, a, b: ctx.ite(c, a, b)
    e["__builtins__"] = {}
    return e


class Members(ast.NodeTransformer):
    """x in {a, b} as x == a or x == b, because a symbolic value has no hash"""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            elts = getattr(node.comparators[0], "elts", [])
            out = ast.BoolOp(ast.Or(), [ast.Compare(node.left, [ast.Eq()], [x]) for x in elts] + [ast.Constant(False)] * 2)
            return out if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), out)
        return node


def meaning(ctx, text, e):
    """evaluate with Python itself; and/or/not/chains fork on their operands, as Python does"""
    tree = ast.fix_missing_locations(Members().visit(ast.parse(text, mode="eval")))
    return eval(compile(tree, "<text>", "eval"), e)


def value(ctx, h, col):
    (c,) = cells(ctx, h).values()
    return c[col]


def data(ctx, cfg, text):
    ints = cfg.get("ints")
    vals, fill, defs = {}, {}, dict(cfg.get("defs", {}))
    used = [n for n in ("x", "y", "z", "p", "q", "g", "c", "d") if uses(text + " " + " ".join(str(v) for v in defs.values()), n)]
    for n in used:
        if n in "pq":
            vals[n] = ctx.boolean(n)
        elif n == "g":
            vals[n] = ctx.choose("g", ["a", "b", "c"])
        elif ints:
            vals[n] = ctx.int(n, -6, 6)
        else:
            vals[n] = ctx.real(n, 0 if '0.5' in text or '**x' in text or '**(' in text else -8, 8, 3)
        if n in "cd":
            defs[n] = vals[n]
        else:
            fill[n] = ctx.array([vals[n]])
    return vals, fill, defs


def uses(text, n):
    out = ""
    for ch in text:
        out += ch if ch.isalnum() or ch in "_'" else " "
    return n in out.split()


def run(ctx, cfg):
    ctx.ideal()
    hb = ctx.hb
    if "refuse" in cfg:
        try:
            hb.expr.Expr.parse(cfg["refuse"])
        except NameError:
            raise               # an accident, not a refusal
        except Exception:
            ctx.check(True, "refused")
            return
        ctx.fail("%r is neither refused nor representable" % cfg["refuse"])
        return
    if "shared" in cfg:
        return together(ctx, cfg)
    if "special" in cfg:
        return special(ctx, cfg)
    if "fcn" in cfg:
        return function(ctx, cfg)
    text, sink = cfg["text"], cfg["sink"]
    vals, fill, defs = data(ctx, cfg, text)
    e = env(ctx, vals)
    try:
        for n, t in cfg.get("defs", {}).items():
            e[n] = meaning(ctx, t, e)
        want = meaning(ctx, text, e)
    except ZeroDivisionError:
        return
    if isinstance(want, complex):
        return
    if not fill:
        fill["x"] = ctx.array([1.0])
    kw = {"defs": defs} if defs else {}
    if sink == "weight":
        h = hb.Hist(weight=text, **kw)
        h.fill(fill)
        got = value(ctx, h, "sumw")
        ctx.check(ctx.same(got, want), "%s evaluates to %s, not %s" % (text, show(ctx, got), show(ctx, want)))
        ctx.check(ctx.same(value(ctx, h, "sumw2"), want * want), "the square of %s" % text)
    elif sink == "profile":
        h = hb.Hist(hb.profile(text), **kw)
        h.fill(fill)
        got = value(ctx, h, "sumwx0")
        ctx.check(ctx.same(got, want), "%s evaluates to %s, not %s" % (text, show(ctx, got), show(ctx, want)))
        ctx.check(ctx.same(value(ctx, h, "sumwx20"), want * want), "the square of %s" % text)
    elif sink == "filter":
        if isinstance(hb.expr.Expr.parse(text), hb.expr.Name):
            return
        h = hb.Hist(filter=text, **kw)
        h.fill(fill)
        ctx.check(ctx.same(value(ctx, h, "sumw"), ctx.ite(want, 1.0, 0.0)), "an entry passes the filter exactly when %s" % text)
    elif sink == "where":
        h = hb.Hist(weight="where(%s, 5, 3)" % text, **kw)
        h.fill(fill)
        ctx.check(ctx.same(value(ctx, h, "sumw"), ctx.ite(want, 5.0, 3.0)), "where chooses by %s" % text)
    elif sink == "cut":
        h = hb.Hist(hb.cut(text), **kw)
        h.fill(fill)
        c = cells(ctx, h)
        ks = [bool(k) if not isinstance(k, str) else k for k in h._fixed[0].keys()]
        ctx.check(len(ks) == 2 and sorted(map(str, ks)) in (["False", "True"], ["fail", "pass"]), "a cut has two bins")
        for i, k in enumerate(ks):
            ctx.check(ctx.same(c[(i,)]["sumw"], ctx.ite(want, 1.0, 0.0) if k in (True, "pass") else ctx.ite(want, 0.0, 1.0)), "an entry is in the %s bin exactly when %s" % (k, text))
    elif sink == "print":
        parsed = hb.expr.Expr.parse(text)
        again = str(parsed)
        try:
            got = meaning(ctx, again, e)
        except ZeroDivisionError:
            return
        ctx.check(ctx.same(asnum(ctx, got), asnum(ctx, want)), "%s is printed as %s, which has a different value" % (text, again))


def asnum(ctx, x):
    if isinstance(x, bool):
        return x
    return x


def function(ctx, cfg):
    f, n = cfg["fcn"], cfg["n"]
    lo, hi = INSIDE.get(f, (-8, 8))
    if cfg["spelling"].endswith("pow") or cfg["spelling"].endswith("power"):
        lo, hi = 0.0625, 8
    names = ["x", "y"][:n]
    vals = dict((a, ctx.real(a, lo, hi, 4)) for a in names)
    if n == 2 and f in ("mod", "fmod"):
        ctx.assume(ctx.lnot(ctx.eq(vals["y"], 0.0)))
    np = ctx.np
    want = ctx.scalar(getattr(np, (FUNCS1 if n == 1 else FUNCS2)[f])(*[ctx.array([vals[a]]) for a in names])[0])
    h = ctx.hb.Hist(weight="2*%s(%s)" % (cfg["spelling"], ", ".join(names)))
    h.fill(dict((a, ctx.array([vals[a]])) for a in names))
    got = value(ctx, h, "sumw")
    want = ctx.ite(want, 1.0, 0.0) if isinstance(want, bool) or f.startswith("is") else want
    ctx.check(ctx.same(got, 2.0 * want), "%s is the %s function" % (cfg["spelling"], f))
    if cfg["spelling"] == f and n == 1:
        # composed, and with an argument that is an expression
        h = ctx.hb.Hist(weight="%s(x - y) - %s(x - y)*z" % (f, f))
        y, z = ctx.real("y", 0, 0, 0), ctx.real("z", -8, 8, 4)
        h.fill(x=ctx.array([vals["x"]]), y=ctx.array([y]), z=ctx.array([z]))
        ctx.check(ctx.same(value(ctx, h, "sumw"), want - want * z), "a shared call of %s" % f)


def special(ctx, cfg):
    f = cfg["special"]
    x = ctx.real("x", 0.0625, 8, 4)

    def at(text, **kw):
        h = ctx.hb.Hist(weight=text)
        h.fill(dict((k, ctx.array([v])) for k, v in kw.items()))
        return value(ctx, h, "sumw")
    if f == "erf":
        ctx.check(ctx.same(at("erf(x) + erfc(x)", x=x), 1.0), "erf and erfc are complements")
    elif f == "gamma":
        for n in range(1, 9):
            ctx.check(ctx.close(at("gamma(x)", x=float(n)), float(math.factorial(n - 1)), tol=1e-5), "gamma(%d)" % n)
            ctx.check(ctx.close(at("factorial(x)", x=float(n)), float(math.factorial(n)), tol=1e-5), "factorial(%d)" % n)
        a = ctx.array([x, 2.0])
        h = ctx.hb.Hist(ctx.hb.profile("x"), weight="gamma(x) + lgamma(x) + factorial(x)")
        h.fill(x=a)
        ctx.check(ctx.land(*[ctx.same(u, v) for u, v in zip(ctx.snapshot(a), [x, 2.0])]), "the argument is unchanged")
        ctx.check(ctx.same(at("gamma(x)", x=x), at("exp(lgamma(x))", x=x)), "lgamma is the logarithm of gamma")
    else:
        ctx.check(ctx.same(at("factorial(x)", x=x), at("round(gamma(round(x) + 1))", x=x)), "factorial is the rounded gamma function")


def together(ctx, cfg):
    hb = ctx.hb
    b, p, w = SHARED[cfg["shared"]]
    vals, fill, defs = data(ctx, cfg, " ".join((b, p, w)))
    e = env(ctx, vals)
    h = hb.Hist(hb.split(b, (-1, 0.5, 3)), hb.profile(p), weight=w)
    h.fill(fill)
    at = meaning(ctx, b, e)
    pv, wv = meaning(ctx, p, e), meaning(ctx, w, e)
    c = cells(ctx, h)
    edges = [None, -1, 0.5, 3, None]
    ctx.check(sorted(h.fields) == sorted(fill), "the fields asked for are those in the expressions")
    for i in range(4):
        lo, hi = edges[i], edges[i + 1]
        inside = ctx.land(True if lo is None else ctx.le(lo, at), True if hi is None else ctx.lt(at, hi))
        for col, v in (("sumw", wv), ("sumw2", wv * wv), ("sumwx0", wv * pv), ("sumwx20", wv * pv * pv)):
            ctx.check(ctx.same(c[(i,)][col], ctx.ite(inside, v * 1.0, 0.0)), "%s of %s | %s | %s" % (col, b, p, w))
    for col in ("sumw", "sumw2", "sumwx0", "sumwx20"):
        ctx.check(ctx.same(c[(4,)][col], 0.0), "nothing is missing")
