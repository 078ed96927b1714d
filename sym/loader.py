"""Import histbook from /repo's current source so that it runs on symbolic values.

Nothing in /repo is changed or copied: each module's source is compiled as it is (where strings are symbolic, with
the operators that Python does not let a string subclass override routed through hooks, see text.py) and executed in a namespace whose
builtins are replaced where they must accept symbolic numbers (float, int, bool, __import__), and whose `numpy` and
`math` are the symbolic stand-ins.
"""
import builtins
import collections
import collections.abc
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import types

from . import engine as E
from . import nparr
from . import text as T
from . import values as V

REPO = os.environ.get("HISTBOOK_REPO", "/repo")

BLOCKED = ("pandas", "ROOT", "pyspark", "scipy", "vega", "vegascope", "altair", "matplotlib", "uproot", "cPickle", "numba")
STUBS = {}


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (V.PYFLOAT, V.SF))

    def __subclasscheck__(cls, c):
        return issubclass(c, (V.PYFLOAT, V.SF))

    def __eq__(cls, o):
        return o is cls or o is V.PYFLOAT

    def __hash__(cls):
        return hash(V.PYFLOAT)

    def __call__(cls, x=0.0):
        if isinstance(x, nparr.SymArray):
            x = x.item()
        if isinstance(x, V.SF):
            return V.SF(x.v, x.nan, x.pinf, x.ninf, x.g, x.M, False)
        if isinstance(x, (V.SI, V.SB)):
            return V.toSF(x)
        return V.PYFLOAT(x)


class _float(metaclass=_FloatMeta):
    fromhex = V.PYFLOAT.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (V.PYINT, V.SI))

    def __subclasscheck__(cls, c):
        return issubclass(c, (V.PYINT, V.SI))

    def __eq__(cls, o):
        return o is cls or o is V.PYINT

    def __hash__(cls):
        return hash(V.PYINT)

    def __call__(cls, x=0, *base):
        if isinstance(x, nparr.SymArray):
            x = x.item()
        if isinstance(x, V.Sym):
            return V.toint(x)
        return V.PYINT(x, *base)


class _int(metaclass=_IntMeta):
    pass


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (V.PYBOOL, V.SB))

    def __subclasscheck__(cls, c):
        return issubclass(c, (V.PYBOOL, V.SB))

    def __eq__(cls, o):
        return o is cls or o is V.PYBOOL

    def __hash__(cls):
        return hash(V.PYBOOL)

    def __call__(cls, x=False):
        return V.PYBOOL(x)


class _bool(metaclass=_BoolMeta):
    pass


def _mathmod():
    m = types.ModuleType("math")
    for n in dir(math):
        if not n.startswith("__"):
            setattr(m, n, getattr(math, n))

    def sym1(name, f):
        real = getattr(math, name)

        def g(x):
            if isinstance(x, nparr.SymArray):
                x = x.item()
            return f(x) if isinstance(x, V.Sym) else real(x)
        g.__name__ = name
        setattr(m, name, g)

    def sqrt(x):
        if V.lt(x, 0):
            raise ValueError("math domain error")
        return V.sqrt(x)
    sym1("sqrt", sqrt)
    sym1("floor", lambda x: V.toint(V.floor(x)))
    sym1("ceil", lambda x: V.toint(V.ceil(x)))
    sym1("trunc", V.toint)
    sym1("fabs", lambda x: abs(V.toSF(x)))
    sym1("isnan", lambda x: V.isnan(x))
    sym1("isinf", lambda x: V.isinf(x))
    sym1("isfinite", lambda x: V.isfinite(x))
    for n in ("exp", "log", "log10", "sin", "cos", "tan", "erf", "erfc", "gamma", "lgamma", "asin", "acos", "atan", "sinh", "cosh", "tanh", "log2", "log1p", "expm1"):
        sym1(n, lambda x, n=n: V.uf(n, x))
    return m


class _MathPow(object):
    pass


def _collectionsmod():
    m = types.ModuleType("collections")
    for n in dir(collections):
        if not n.startswith("__"):
            setattr(m, n, getattr(collections, n))
    for n in collections.abc.__all__:
        if not hasattr(m, n):
            setattr(m, n, getattr(collections.abc, n))      # Python 3.9 still exports the ABCs here
    m.abc = collections.abc
    m.__path__ = []
    return m


class Loaded(object):
    pass


def load(nondet_set=False, text=False):
    """Fresh import of histbook; returns an object with .hb (module), .np (numpy stand-in)."""
    for n in [n for n in sys.modules if n == "histbook" or n.startswith("histbook.")]:
        del sys.modules[n]
    np = nparr.make_module()
    replaced = {"numpy": np, "math": _mathmod(), "collections": _collectionsmod()}
    np.float, np.int, np.bool = _float, _int, _bool
    if text:
        replaced["fnmatch"] = T.fnmatchmod()
    realimport = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            top = name.partition(".")[0]
            if top in STUBS:
                mod = STUBS[top]
                if fromlist:
                    for p in name.split(".")[1:]:
                        mod = getattr(mod, p)
                return mod
            if top in replaced:
                mod = replaced[top]
                if fromlist and "." in name:
                    for p in name.split(".")[1:]:
                        mod = getattr(mod, p)
                return mod
            if top in BLOCKED:
                raise ImportError("No module named " + name)
        return realimport(name, globals, locals, fromlist, level)

    bi = dict(builtins.__dict__)
    bi["float"], bi["int"], bi["bool"] = _float, _int, _bool
    bi["__import__"] = imp
    if nondet_set:
        bi["set"] = NondetSet
    bi["__hydrate__"], bi["__isin__"] = T.hydrate, T.isin

    class Ldr(importlib.abc.Loader):
        def __init__(self, path):
            self.path = path

        def create_module(self, spec):
            return None

        def exec_module(self, module):
            with open(self.path, "rb") as f:
                source = f.read()
            code = compile(T.rewrite(source, self.path) if text else source, self.path, "exec", dont_inherit=True)
            module.__file__ = self.path
            module.__dict__["__builtins__"] = bi
            exec(code, module.__dict__)

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path, target=None):
            if name != "histbook" and not name.startswith("histbook."):
                return None
            base = os.path.join(REPO, *name.split("."))
            if os.path.isdir(base):
                p = os.path.join(base, "__init__.py")
                s = importlib.machinery.ModuleSpec(name, Ldr(p), origin=p, is_package=True)
                s.submodule_search_locations = [base]
                return s
            p = base + ".py"
            if not os.path.exists(p):
                return None
            return importlib.machinery.ModuleSpec(name, Ldr(p), origin=p)

    finder = Finder()
    sys.meta_path.insert(0, finder)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            hb = realimport("histbook")
    finally:
        sys.meta_path.remove(finder)
    out = Loaded()
    out.hb, out.np = hb, np
    return out


class NondetSet(set):
    """A set whose iteration order is a symbolic input: every permutation is explored (hash order is unspecified)."""

    def __iter__(self):
        items = list(set.__iter__(self))
        try:
            items.sort(key=lambda x: (str(type(x)), repr(x), str(x)))
        except Exception:
            pass
        e = E.cur()
        if e is None or len(items) < 2 or not getattr(e, "permute", False) or len(items) > e.permute:
            return iter(items)
        if not e.setorders:
            e.inputs.append(("setorder", lambda m, picks=e.setorders: dict((k, list(v)) for k, v in picks.items())))
        # the same members come in the same order wherever they are iterated on one path
        key = " ".join(repr(x) for x in items)
        if key not in e.setorders:
            e.setorders[key] = [e.choose(n, "setorder") for n in range(len(items), 1, -1)]
        return iter([items.pop(i) for i in e.setorders[key]] + items)

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")

    def copy(self):
        return NondetSet(set.copy(self))

    def union(self, *o):
        return NondetSet(set.union(self, *o))

    def intersection(self, *o):
        return NondetSet(set.intersection(self, *o))

    def difference(self, *o):
        return NondetSet(set.difference(self, *o))


class Tracer(object):
    """Which functions of /repo were executed (sys.monitoring, one event per code object)."""

    def __init__(self):
        self.seen = {}
        self.on = hasattr(sys, "monitoring")
        if self.on:
            mon = sys.monitoring
            self.tool = mon.PROFILER_ID
            try:
                mon.use_tool_id(self.tool, "histbook-check")
            except ValueError:
                self.on = False
                return
            mon.register_callback(self.tool, mon.events.PY_START, self._start)
            mon.set_events(self.tool, mon.events.PY_START)

    def _start(self, code, offset):
        fn = code.co_filename
        if fn.startswith(REPO + "/histbook"):
            rel = fn[len(REPO) + 1:]
            self.seen.setdefault(rel, set()).add(code.co_qualname)
        return sys.monitoring.DISABLE

    def functions(self):
        return sorted("%s:%s" % (f, n) for f, ns in self.seen.items() for n in ns if n != "<module>" and "<" not in n.split(".")[-1])
