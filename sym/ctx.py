"""The context a harness runs in.

The same harness source (props/cNN.py) runs in two modes: SymCtx (this file; symbolic inputs, CPython + z3) and
ConcCtx (conc.py; concrete inputs taken from a solver model, PyPy, the real numpy, /repo imported normally)."""
import numbers
from fractions import Fraction

import numpy as NP
import z3

from . import engine as E
from . import nparr
from . import text as T
from . import values as V


class SymCtx(object):
    symbolic = True

    def __init__(self, engine, loaded, cfg, coarse=False):
        self.e = engine
        self.hb = loaded.hb
        self.np = loaded.np
        self.cfg = cfg
        self.coarse = coarse
        self.log = []

    # ------------------------------------------------------------ inputs
    def real(self, name, lo=-8, hi=8, g=4, nan=False, inf=False):
        """a double in [lo, hi] that is a multiple of 2**-g, or NaN / +-inf where allowed"""
        e = self.e
        v = z3.Real("in_" + name)
        lo, hi = Fraction(lo), Fraction(hi)
        e.solver.add(v >= V.zr(lo), v <= V.zr(hi))
        k = z3.Int("grid_" + name)
        e.gridcons.append(v * V.zr(Fraction(2) ** g) == z3.ToReal(k))
        if self.coarse:
            e.solver.add(e.gridcons[-1])
        if g >= 0 and abs(lo) <= 2 ** 30 and abs(hi) <= 2 ** 30:
            e.ranges.append((v, lo, hi, g))
        isnan = z3.Bool("nan_" + name) if nan else False
        pinf = z3.Bool("pinf_" + name) if inf else False
        ninf = z3.Bool("ninf_" + name) if inf else False
        flags = [f for f in (isnan, pinf, ninf) if f is not False]
        if len(flags) > 1:
            e.solver.add(z3.AtMost(*(flags + [1])))
        if flags:
            e.solver.add(z3.Implies(z3.Or(*flags) if len(flags) > 1 else flags[0], v == V.zr(Fraction(lo if lo > 0 or hi < 0 else 0))))

        def val(m):
            if isnan is not False and z3.is_true(m.eval(isnan, model_completion=True)):
                return {"f": "nan"}
            if pinf is not False and z3.is_true(m.eval(pinf, model_completion=True)):
                return {"f": "inf"}
            if ninf is not False and z3.is_true(m.eval(ninf, model_completion=True)):
                return {"f": "-inf"}
            x = m.eval(v, model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(20)
            return {"f": V.PYFLOAT(Fraction(x.numerator_as_long(), x.denominator_as_long())).hex()}
        e.inputs.append((name, val))
        return V.SF(v, isnan, pinf, ninf, g=g, M=max(abs(lo), abs(hi)))

    def int(self, name, lo, hi):
        e = self.e
        v = z3.Int("in_" + name)
        e.solver.add(v >= lo, v <= hi)
        e.ranges.append((v, lo, hi, None))
        e.inputs.append((name, lambda m: m.eval(v, model_completion=True).as_long()))
        return V.SI(v, max(abs(lo), abs(hi)))

    def boolean(self, name):
        e = self.e
        v = z3.Bool("in_" + name)
        e.inputs.append((name, lambda m: z3.is_true(m.eval(v, model_completion=True))))
        return V.SB(v)

    def text(self, name, n, alphabet=None):
        """an arbitrary string of n characters"""
        return T.new(name, n, alphabet)

    def word(self, s):
        """a constant string that may be compared with symbolic ones"""
        return T.SymStr(s)

    def pickled(self, x, protocol=2):
        """what unpickling the pickled object gives (the same protocol of __reduce_ex__, __getstate__ and __setstate__)"""
        import copy
        return copy.deepcopy(x)

    def jsontext(self, x):
        """json.loads(json.dumps(x))"""
        def key(k):
            if isinstance(k, V.Sym):
                raise E.Unsupported("symbolic key in JSON")
            if isinstance(k, str):
                return k
            if k is True or k is False or k is None:
                return {True: "true", False: "false", None: "null"}[k]
            if type(k) in (V.PYINT, V.PYFLOAT):
                return repr(k)
            raise TypeError("keys must be str, int, float, bool or None, not " + type(k).__name__)

        def rec(x):
            if isinstance(x, dict):
                return dict((key(k), rec(v)) for k, v in x.items())
            if isinstance(x, (list, tuple)):
                return [rec(v) for v in x]
            if isinstance(x, (str, V.SF, V.SI, V.SB)) or x is None or type(x) in (V.PYBOOL, V.PYINT, V.PYFLOAT) or isinstance(x, V.PYFLOAT):
                return x
            raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)
        return rec(x)

    def matches(self, name, pattern):
        """shell-style wildcards"""
        return T.fnmatchcase(name, pattern)

    def choose(self, name, options):
        """finite-domain input, decided by forking"""
        options = list(options)
        i = self.e.choose(len(options), name)
        self.e.inputs.append((name, lambda m, i=i: i))
        return options[i]

    def array(self, values, dtype=None):
        return nparr.array(list(values), dtype)

    # ------------------------------------------------------------ logic on results
    def land(self, *xs):
        return V.mkbool(V.And(*[V.zb(self._b(x)) for x in xs]))

    def lor(self, *xs):
        return V.mkbool(V.Or(*[V.zb(self._b(x)) for x in xs]))

    def lnot(self, x):
        return V.lnot(self._b(x))

    def implies(self, a, b):
        return self.lor(self.lnot(a), b)

    def iff(self, a, b):
        return self.land(self.implies(a, b), self.implies(b, a))

    def _b(self, x):
        if isinstance(x, nparr.SymArray):
            x = x.item()
        if isinstance(x, (V.SB, V.PYBOOL)):
            return x
        if isinstance(x, NP.bool_):
            return bool(x)
        return V.castbool(x)

    def eq(self, a, b): return V.eq(self._s(a), self._s(b))
    def lt(self, a, b): return V.lt(self._s(a), self._s(b))
    def le(self, a, b): return V.le(self._s(a), self._s(b))
    def isnan(self, a): return V.isnan(self._s(a))
    def isinf(self, a): return V.isinf(self._s(a))
    def isfinite(self, a): return V.isfinite(self._s(a))

    def same(self, a, b):
        """equal (NaN equals NaN)"""
        return V.same(self._s(a), self._s(b))

    def _s(self, x):
        if isinstance(x, nparr.SymArray):
            x = x.item()
        if isinstance(x, NP.generic):
            x = x.item()
        return x

    def close(self, a, b, tol=1e-9, scale=1.0):
        """|a-b| <= tol*scale in the symbolic model (exact reals), NaN ~ NaN, inf ~ inf"""
        a, b = self._s(a), self._s(b)
        if V._conc(a, b):
            if a == b or (a != a and b != b):
                return True
            return abs(a - b) <= tol * max(scale, abs(a), abs(b))
        fa, fb = V.toSFx(a), V.toSFx(b)
        d = fa.v - fb.v
        t = V.zr(Fraction(tol) * Fraction(scale))
        fin = V.And(V.Not(fa.special), V.Not(fb.special), d <= t, -d <= t)
        return V.mkbool(V.Or(V.And(fa.nan, fb.nan), V.And(fa.pinf, fb.pinf), V.And(fa.ninf, fb.ninf), fin))

    def ite(self, c, a, b):
        return V.ite(self._b(c), self._s(a), self._s(b))

    def sum(self, xs):
        out = 0.0
        for x in xs:
            out = out + self._s(x)
        return out

    def ideal(self):
        """switch this run to exact real arithmetic (no rounding model)"""
        self.e.rounding = False

    # ------------------------------------------------------------ judgement
    def assume(self, c):
        self.e.assume(self._b(c))

    def check(self, c, msg):
        return self.e.check(self._b(c), msg)

    def decide(self, c):
        """fork on a condition inside the harness"""
        return V.PYBOOL(self._b(c))

    def fail(self, msg):
        self.e.check(False, msg)

    def isnumber(self, x):
        return V.isnum(x)

    def issym(self, x):
        return isinstance(x, V.Sym)

    def scalar(self, x):
        return self._s(x)

    def fork_index(self):
        """explore the bin index of every entry by case split (solver-enumerated) instead of keeping it symbolic"""
        self.e.fork_index = True

    def permute_sets(self, n):
        self.e.permute = n

    def stub(self, name, module):
        from . import loader
        loader.STUBS[name] = module

    def unstub(self, name):
        from . import loader
        loader.STUBS.pop(name, None)

    def isarray(self, x):
        return isinstance(x, nparr.SymArray)

    def memory(self, arr):
        """identity of the storage behind an array (for aliasing checks)"""
        a = arr.a
        return a

    def shares(self, a, b):
        return NP.shares_memory(a.a, b.a) if a.size and b.size else False

    def snapshot(self, arr):
        return [self._s(x) for x in arr.a.reshape(-1)]

    def shape(self, arr):
        return tuple(arr.shape)
