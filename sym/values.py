"""Symbolic scalars.

SB  boolean          z3 Bool
SI  integer          z3 Int  (mathematical; `bits` and the magnitude bound drive the int32/int64 wrap on casts)
SF  IEEE double      (nan, +inf, -inf flags as Bool, finite part as z3 Real)

Finite doubles are reals plus a static exactness annotation: every finite value is a multiple of 2**-g with
|v| <= M whenever g is not None.  An operation whose exact result fits in 53 bits under that annotation is exact;
any other operation returns a fresh real constrained to the round-to-nearest relative error bound (a sound
over-approximation of IEEE rounding).
"""
import math
import numbers
from fractions import Fraction

import numpy
import z3

from . import engine as E

PYFLOAT, PYINT, PYBOOL = float, int, bool

EPS = Fraction(1, 2 ** 53)
TINY = Fraction(1, 2 ** 1074)
MAXDBL = Fraction(float.fromhex("0x1.fffffffffffffp+1023"))


def zr(x):
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    return z3.RealVal(x)


def And(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return z3.If(c, a, b)


def IfB(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is True and b is False:
        return c
    if a is False and b is True:
        return Not(c)
    if a is b:
        return a
    return Or(And(c, a), And(Not(c), b))


def zb(x):
    """python bool/z3 Bool -> z3 Bool or python bool"""
    if isinstance(x, SB):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    return PYBOOL(x)


def mkbool(z):
    if z is True or z is False:
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SB(z)


_registry = {}


def _lookup(k):
    return _registry[k]


class Sym(object):
    __slots__ = ()
    __array_ufunc__ = None

    def __reduce__(self):
        _registry[id(self)] = self
        return (_lookup, (id(self),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    # what a numpy scalar offers
    shape = ()
    ndim = 0
    size = 1

    def sum(self, axis=None):
        return self

    def tolist(self):
        return self


def symhash(x, term):
    """All symbolic numbers hash alike, so that dict and set membership is decided by == (which forks).  A symbolic
    number is therefore never matched against an equal concrete key: harnesses keep the keys of one dict all
    symbolic or all concrete (concrete_hash switches to enumeration of the feasible values)."""
    if getattr(E.cur(), "concrete_hash", False):
        return hash(x.concrete())
    t = z3.simplify(term)
    if (z3.is_int_value(t) or z3.is_rational_value(t)) and not (isinstance(x, SF) and x.special is not False):
        return hash(x.concrete())
    return 0x5eed


class SB(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E.cur().branch(self.z)

    def __hash__(self):
        return hash(PYBOOL(self))

    def __index__(self):
        return PYINT(PYBOOL(self))

    def __int__(self):
        return PYINT(PYBOOL(self))

    def __float__(self):
        return PYFLOAT(PYBOOL(self))

    def __and__(self, o):
        if not isbool(o):
            return asint(self) & o
        return mkbool(And(self.z, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        if not isbool(o):
            return NotImplemented
        return mkbool(Or(self.z, zb(o)))
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.z, zb(o)
        return mkbool(Or(And(a, Not(b)), And(Not(a), b)))
    __rxor__ = __xor__

    def __invert__(self):
        # numpy.bool_ semantics (python's ~True would be -2; never meaningful on a condition)
        return mkbool(Not(self.z))

    def __eq__(self, o):
        if isbool(o):
            a, b = self.z, zb(o)
            if b is True:
                return self
            if b is False:
                return mkbool(Not(a))
            return mkbool(a == b)
        if isnum(o):
            return asint(self) == o
        return False

    def __ne__(self, o):
        return lnot(self == o)

    def _num(self):
        return asint(self)

    def __add__(self, o): return asint(self) + o
    def __radd__(self, o): return o + asint(self)
    def __sub__(self, o): return asint(self) - o
    def __rsub__(self, o): return o - asint(self)
    def __mul__(self, o): return asint(self) * o
    def __rmul__(self, o): return o * asint(self)
    def __lt__(self, o): return asint(self) < asnum(o)
    def __le__(self, o): return asint(self) <= asnum(o)
    def __gt__(self, o): return asint(self) > asnum(o)
    def __ge__(self, o): return asint(self) >= asnum(o)


class SI(Sym):
    __slots__ = ("z", "M", "np")

    def __init__(self, z, M, np=False):
        self.z = z
        self.M = M          # bound on |value| (python int) or None
        self.np = np

    def __bool__(self):
        return E.cur().branch(self.z != 0)

    def concrete(self):
        v = E.cur().enumerate_value(self.z)
        return v.as_long()

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self.concrete()

    def __float__(self):
        return PYFLOAT(self.concrete())

    def __hash__(self):
        return symhash(self, self.z)

    def __neg__(self):
        return SI(-self.z, self.M, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return SI(If(self.z >= 0, self.z, -self.z), self.M, self.np)

    def __round__(self, nd=None):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    def __invert__(self):
        return SI(-self.z - 1, None if self.M is None else self.M + 1, self.np)

    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return pydiv(self, o)
    def __rtruediv__(self, o): return pydiv(o, self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return lnot(eq(self, o))
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return True


class SF(Sym):
    __slots__ = ("nan", "pinf", "ninf", "v", "g", "M", "np")

    def __init__(self, v, nan=False, pinf=False, ninf=False, g=None, M=None, np=False):
        self.v = v
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf
        self.g = g
        self.M = M
        self.np = np

    @property
    def special(self):
        return Or(self.nan, self.pinf, self.ninf)

    @property
    def finite(self):
        return Not(self.special)

    def concrete(self):
        e = E.cur()
        if e.branch(self.nan):
            return PYFLOAT("nan")
        if e.branch(self.pinf):
            return PYFLOAT("inf")
        if e.branch(self.ninf):
            return -PYFLOAT("inf")
        if not getattr(e, "grid_added", False):
            for c in e.gridcons:
                e.solver.add(c)
        v = e.enumerate_value(self.v)
        return PYFLOAT(Fraction(v.numerator_as_long(), v.denominator_as_long()))

    def __bool__(self):
        return E.cur().branch(Or(self.special, self.v != 0))

    def __float__(self):
        return self.concrete()

    def __int__(self):
        return PYINT(self.concrete())

    def __hash__(self):
        return symhash(self, self.v)

    def __neg__(self):
        return SF(-self.v, self.nan, self.ninf, self.pinf, self.g, self.M, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return SF(If(self.v >= 0, self.v, -self.v), self.nan, Or(self.pinf, self.ninf), False, self.g, self.M, self.np)

    def __round__(self, nd=None):
        if nd is not None:
            raise E.Unsupported("round with digits")
        return toint(rint(self))

    def __trunc__(self):
        return toint(self)

    def __floor__(self):
        return toint(floor(self))

    def __ceil__(self):
        return toint(ceil(self))

    def is_integer(self):
        return mkbool(And(self.finite, z3.ToReal(z3.ToInt(self.v)) == self.v))

    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return pydiv(self, o)
    def __rtruediv__(self, o): return pydiv(o, self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return lnot(eq(self, o))
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self


numbers.Real.register(SF)
numbers.Integral.register(SI)


# -------------------------------------------------------------------- classification / coercion

def isbool(x):
    return isinstance(x, (PYBOOL, SB)) or type(x).__name__ in ("bool_", "bool")


def issym(x):
    return isinstance(x, Sym)


def isnum(x):
    return isinstance(x, (SB, SI, SF, PYBOOL, PYINT, PYFLOAT)) or isinstance(x, numbers.Real) or type(x).__module__ == "numpy" and hasattr(x, "dtype") and x.dtype.kind in "biuf"


def isfloat(x):
    return isinstance(x, (SF, PYFLOAT)) or (type(x).__module__ == "numpy" and x.dtype.kind == "f")


def isint(x):
    return isinstance(x, SI) or (isinstance(x, numbers.Integral) and not isinstance(x, PYBOOL)) or (type(x).__module__ == "numpy" and hasattr(x, "dtype") and x.dtype.kind in "iu")


def isnp(x):
    return getattr(x, "np", False) is True or type(x).__module__ == "numpy"


def asint(x):
    if isinstance(x, SB):
        return SI(z3.If(x.z, z3.IntVal(1), z3.IntVal(0)), 1)
    if isbool(x):
        return PYINT(x)
    return x


def asnum(x):
    return asint(x) if isbool(x) else x


def frac_g(f):
    d = f.denominator
    if d & (d - 1):
        return None
    if d > 1:
        return d.bit_length() - 1
    n = abs(f.numerator)
    return -1000 if n == 0 else -((n & -n).bit_length() - 1)


def toSF(x):
    """Anything numeric -> SF (exact embedding)."""
    if isinstance(x, SF):
        return x
    if isinstance(x, SB):
        x = asint(x)
    if isinstance(x, SI):
        # int -> float64 conversion rounds above 2**53
        v = z3.ToReal(x.z)
        if x.M is not None and x.M <= 2 ** 53:
            return SF(v, g=0, M=Fraction(x.M), np=x.np)
        return rnd(v, 0, None if x.M is None else Fraction(x.M), np=x.np)
    f = PYFLOAT(x)
    if f != f:
        return SF(zr(0), nan=True, g=0, M=Fraction(0))
    if f in (PYFLOAT("inf"), -PYFLOAT("inf")):
        return SF(zr(0), pinf=f > 0, ninf=f < 0, g=0, M=Fraction(0))
    q = Fraction(f)
    return SF(zr(q), g=frac_g(q), M=abs(q))


def toSI(x):
    if isinstance(x, SI):
        return x
    if isbool(x):
        x = asint(x)
        if isinstance(x, SI):
            return x
    return SI(z3.IntVal(PYINT(x)), abs(PYINT(x)))


# -------------------------------------------------------------------- rounding model

def rnd(e, g, M, nan=False, pinf=False, ninf=False, np=False):
    """Round the exact real e (multiple of 2**-g, |e| <= M) to a double."""
    eng = E.cur()
    if not getattr(eng, "rounding", True):
        return SF(e, nan, pinf, ninf, g, M, np)
    if g is not None and M is not None and M * Fraction(2) ** g <= 2 ** 53 and g <= 1074 and M < MAXDBL:
        return SF(e, nan, pinf, ninf, g, M, np)
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        q = PYFLOAT(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        s = toSF(q)
        return SF(s.v, Or(nan, s.nan), Or(pinf, s.pinf), Or(ninf, s.ninf), s.g, s.M, np)
    key = ("rnd", e.get_id())
    hit = eng.memo.get(key)
    if hit is None:
        r = z3.Real(eng.fresh("rnd"))
        a = If(e >= 0, e, -e)
        bound = zr(EPS) * a + zr(TINY)
        eng.solver.add(r - e <= bound, e - r <= bound)
        eng.solver.add(z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0))
        if g is not None:
            lim = zr(Fraction(2) ** (53 - g))
            eng.solver.add(z3.Implies(And(e <= lim, -lim <= e), r == e))
        hit = eng.memo[key] = (r, e)
        eng.stats.note("rounding over-approximated")
    r = hit[0]
    over = False
    if M is None or M >= MAXDBL:
        over = True
    if over:
        po = And(Not(Or(nan, pinf, ninf)), r > zr(MAXDBL))
        no = And(Not(Or(nan, pinf, ninf)), r < zr(-MAXDBL))
        return SF(r, nan, Or(pinf, po), Or(ninf, no), g, None, np)
    return SF(r, nan, pinf, ninf, g, M * 2, np)


def _gmax(a, b):
    return None if a is None or b is None else max(a, b)


def _padd(a, b):
    return None if a is None or b is None else a + b


def _pmul(a, b):
    return None if a is None or b is None else a * b


# -------------------------------------------------------------------- arithmetic

def _conc(*xs):
    return all(not isinstance(x, Sym) for x in xs)


def _bothint(a, b):
    return (isint(a) or isbool(a)) and (isint(b) or isbool(b))


def add(a, b):
    if _conc(a, b):
        return a + b
    if not isnum(a) or not isnum(b):
        return NotImplemented
    np = isnp(a) or isnp(b)
    if _bothint(a, b):
        a, b = toSI(a), toSI(b)
        return SI(a.z + b.z, _padd(a.M, b.M), np)
    a, b = toSF(a), toSF(b)
    nan = Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf))
    pinf = And(Or(a.pinf, b.pinf), Not(nan))
    ninf = And(Or(a.ninf, b.ninf), Not(nan))
    return rnd(a.v + b.v, _gmax(a.g, b.g), _padd(a.M, b.M), nan, pinf, ninf, np)


def sub(a, b):
    if _conc(a, b):
        return a - b
    if not isnum(a) or not isnum(b):
        return NotImplemented
    return add(a, neg(b))


def neg(b):
    if isinstance(b, SB):
        return -asint(b)
    return -b


def mul(a, b):
    if _conc(a, b):
        return a * b
    if not isnum(a) or not isnum(b):
        return NotImplemented
    np = isnp(a) or isnp(b)
    if _bothint(a, b):
        a, b = toSI(a), toSI(b)
        return SI(a.z * b.z, _pmul(a.M, b.M), np)
    a, b = toSF(a), toSF(b)
    sa, sb = a.special, b.special
    if sa is False and sb is False:
        return rnd(_zmul(a.v, b.v), _padd(a.g, b.g), _pmul(a.M, b.M), np=np)
    ainf, binf = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
    azero, bzero = And(Not(sa), a.v == 0), And(Not(sb), b.v == 0)
    nan = Or(a.nan, b.nan, And(ainf, bzero), And(binf, azero))
    anyinf = And(Or(ainf, binf), Not(nan))
    apos = Or(a.pinf, And(Not(sa), a.v > 0))
    bpos = Or(b.pinf, And(Not(sb), b.v > 0))
    same = Or(And(apos, bpos), And(Not(apos), Not(bpos)))
    return rnd(_zmul(a.v, b.v), _padd(a.g, b.g), _pmul(a.M, b.M), nan, And(anyinf, same), And(anyinf, Not(same)), np)


def _zmul(x, y):
    """product; distributes over a 0/1-valued ite to keep terms linear where possible"""
    return x * y


def npdiv(a, b):
    """numpy true_divide"""
    if _conc(a, b):
        import numpy
        with numpy.errstate(all="ignore"):
            return PYFLOAT(numpy.true_divide(a, b))
    np = isnp(a) or isnp(b)
    a, b = toSF(a), toSF(b)
    sa, sb = a.special, b.special
    ainf, binf = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
    bv = z3.simplify(b.v)
    bconst = z3.is_rational_value(bv)
    if not bconst and sa is False and sb is False and not getattr(E.cur(), "rounding", True):
        # exact real arithmetic: keep the quotient as a term, so that rational functions can be compared as polynomials
        if not E.cur().branch(b.v == 0):
            return SF(a.v / b.v, np=np)
    if bconst and bv.numerator_as_long() != 0:
        bzero = False
    elif bconst:
        bzero = Not(sb)
    else:
        bzero = And(Not(sb), b.v == 0)
    azero = And(Not(sa), a.v == 0)
    if bzero is not True:
        nan = Or(a.nan, b.nan, And(ainf, binf), And(azero, bzero))
    else:
        nan = Or(a.nan, azero)
    isinf = And(Not(nan), Or(ainf, bzero))
    apos = Or(a.pinf, And(Not(sa), a.v > 0))
    bpos = Or(b.pinf, And(Not(sb), b.v >= 0))   # +0 assumed
    same = Or(And(apos, bpos), And(Not(apos), Not(bpos)))
    pinf, ninf = And(isinf, same), And(isinf, Not(same))
    tozero = And(binf, Not(nan))
    if bconst and bv.numerator_as_long() != 0:
        c = Fraction(bv.numerator_as_long(), bv.denominator_as_long())
        q = a.v * zr(1 / c)
        inv = abs(1 / c)
        gi = frac_g(1 / c)
        r = rnd(q, _padd(a.g, gi), _pmul(a.M, inv), nan, pinf, ninf, np)
    else:
        eng = E.cur()
        den = If(Or(bzero, sb), zr(1), b.v)
        key = ("div", a.v.get_id(), den.get_id())
        hit = eng.memo.get(key)
        if hit is None:
            q = z3.Real(eng.fresh("quot"))
            eng.solver.add(q * den == a.v)
            # a quotient of equal numerator/denominator relation is pinned by the product constraint
            hit = eng.memo[key] = (q, a.v, den)
        q = hit[0]
        r = rnd(q, None, None, nan, pinf, ninf, np)
    if tozero is not False:
        r = SF(If(tozero, zr(0), r.v), r.nan, r.pinf, r.ninf, None, r.M, np)
    return r


def pydiv(a, b):
    if not isnum(a) or not isnum(b):
        return NotImplemented
    if not (isnp(a) or isnp(b)):
        if iszero(b):
            raise ZeroDivisionError("float division by zero")
    return npdiv(a, b)


def iszero(b):
    if isinstance(b, SF):
        return E.cur().branch(And(b.finite, b.v == 0))
    if isinstance(b, (SI, SB)):
        return E.cur().branch(toSI(b).z == 0)
    return b == 0


def floordiv(a, b):
    if _conc(a, b):
        return a // b
    if _bothint(a, b):
        a, b = toSI(a), toSI(b)
        if E.cur().branch(b.z == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        # z3 div rounds towards -inf only for positive divisors
        q = If(b.z > 0, a.z / b.z, (-a.z) / (-b.z))
        return SI(q, a.M, isnp(a) or isnp(b))
    return floor(pydiv(a, b))


def mod(a, b):
    if _conc(a, b):
        return a % b
    if isinstance(a, str):
        return NotImplemented
    if _bothint(a, b):
        q = floordiv(a, b)
        return a - q * b
    # python/numpy remainder on floats: a - floor(a/b)*b, evaluated exactly (fmod is exact)
    np = isnp(a) or isnp(b)
    if not np and iszero(b):
        raise ZeroDivisionError("float modulo")
    a, b, qv = _quot(a, b)
    return SF(a.v - z3.ToReal(z3.ToInt(qv)) * b.v, g=_gmax(a.g, b.g), M=b.M, np=np)


def _quot(a, b):
    a, b = toSF(a), toSF(b)
    if E.cur().branch(Or(a.special, b.special, b.v == 0)):
        raise E.Unsupported("float mod with special operand")
    bv = z3.simplify(b.v)
    if z3.is_rational_value(bv):
        qv = a.v / bv
    else:
        eng = E.cur()
        key = ("modquot", a.v.get_id(), b.v.get_id())
        hit = eng.memo.get(key)
        if hit is None:
            qv = z3.Real(eng.fresh("quot"))
            eng.solver.add(qv * b.v == a.v)
            hit = eng.memo[key] = (qv, a.v, b.v)
        qv = hit[0]
    return a, b, qv


def fmod(a, b):
    """C fmod: the remainder has the sign of the dividend"""
    if _conc(a, b):
        import numpy
        return numpy.fmod(a, b).item()
    np = isnp(a) or isnp(b)
    if _bothint(a, b):
        m = mod(abs(a), abs(b))
        return ite(lt(a, 0), neg(m), m)
    a, b, qv = _quot(a, b)
    t = z3.If(qv >= 0, z3.ToReal(z3.ToInt(qv)), -z3.ToReal(z3.ToInt(-qv)))
    return SF(a.v - t * b.v, g=_gmax(a.g, b.g), M=b.M, np=np)


def power(a, b):
    if _conc(a, b):
        return a ** b
    if not isinstance(b, Sym) and PYFLOAT(b) == PYINT(b) and abs(PYINT(b)) <= 6:
        n = PYINT(b)
        if n == 0:
            return 1.0 if isfloat(a) or isfloat(b) else 1
        out = a
        for _ in range(abs(n) - 1):
            out = mul(out, a)
        if isfloat(b) and not isfloat(a):
            out = toSF(out)
        if n < 0:
            return npdiv(1.0, out) if isnp(a) else pydiv(1.0, out)
        return out
    if not isinstance(b, Sym) and PYFLOAT(b) == 0.5:
        return sqrt(a)
    return uf("power", a, b)


def square(a):
    return mul(a, a)


def sqrt(a):
    if not isinstance(a, Sym):
        import numpy
        with numpy.errstate(all="ignore"):
            return PYFLOAT(numpy.sqrt(a))
    a = toSF(a)
    eng = E.cur()
    key = ("sqrt", a.v.get_id())
    hit = eng.memo.get(key)
    negative = And(a.finite, a.v < 0)
    if hit is None:
        s = z3.Real(eng.fresh("sqrt"))
        arg = If(a.v < 0, zr(0), a.v)
        eng.solver.add(s >= 0, s * s == arg)
        hit = eng.memo[key] = (s, a.v)
    return rnd(hit[0], None, a.M, Or(a.nan, a.ninf, negative), a.pinf, False, a.np)


def uf(name, *args):
    """Uninterpreted real function (transcendentals): equal arguments give equal results, nothing else is known."""
    zs = []
    for x in args:
        s = toSF(x)
        if s.special is not False:
            if E.cur().branch(s.special):
                raise E.Unsupported("special value in " + name)
        zs.append(s.v)
    f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(zs) + 1)))
    e = E.cur()
    if getattr(e, "ufs", None) is None:
        e.ufs = set()
    e.ufs.add(name)
    return SF(f(*zs), g=None, M=None)


# -------------------------------------------------------------------- rounding to integral values

def floor(a):
    if not isinstance(a, Sym):
        if isfloat(a) and (a != a or abs(a) == PYFLOAT("inf")):
            return PYFLOAT(a)
        return PYFLOAT(math.floor(a))
    a = toSF(a)
    return SF(z3.ToReal(z3.ToInt(a.v)), a.nan, a.pinf, a.ninf, 0, None if a.M is None else a.M + 1, a.np)


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    if not isinstance(a, Sym):
        if isfloat(a) and (a != a or abs(a) == PYFLOAT("inf")):
            return PYFLOAT(a)
        return PYFLOAT(math.trunc(a))
    a = toSF(a)
    fl = z3.ToReal(z3.ToInt(a.v))
    ce = -z3.ToReal(z3.ToInt(-a.v))
    return SF(If(a.v >= 0, fl, ce), a.nan, a.pinf, a.ninf, 0, a.M, a.np)


def rint(a):
    if not isinstance(a, Sym):
        if isfloat(a) and (a != a or abs(a) == PYFLOAT("inf")):
            return PYFLOAT(a)
        return PYFLOAT(round(a))
    a = toSF(a)
    h = a.v + zr(Fraction(1, 2))
    f = z3.ToInt(h)
    tie = And(z3.ToReal(f) == h, f % 2 != 0)
    return SF(z3.ToReal(If(tie, f - 1, f)), a.nan, a.pinf, a.ninf, 0, None if a.M is None else a.M + 1, a.np)


def toint(a):
    """python int()"""
    if isinstance(a, SI):
        return a
    if isinstance(a, SB):
        return asint(a)
    if not isinstance(a, SF):
        return PYINT(a)
    e = E.cur()
    if e.branch(a.nan):
        raise ValueError("cannot convert float NaN to integer")
    if e.branch(Or(a.pinf, a.ninf)):
        raise OverflowError("cannot convert float infinity to integer")
    fl = z3.ToInt(a.v)
    z = If(a.v >= 0, fl, -z3.ToInt(-a.v))
    return SI(z, None if a.M is None else PYINT(a.M) + 1)


def castint(a, bits):
    """C cast to a signed integer of `bits` bits (numpy astype / assignment)."""
    lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    if isinstance(a, SB):
        return asint(a)
    if isbool(a):
        return PYINT(a)
    if isinstance(a, SI):
        if a.M is not None and a.M <= hi:
            return a
        m = 2 ** bits
        return SI((a.z - lo) % m + lo, -lo, a.np)
    if isinstance(a, SF):
        fl = z3.ToInt(a.v)
        z = If(a.v >= 0, fl, -z3.ToInt(-a.v))
        if a.special is False and a.M is not None and a.M <= hi:
            return SI(z, PYINT(a.M) + 1, a.np)
        bad = Or(a.special, z < lo, z > hi)
        return SI(If(bad, z3.IntVal(lo), z), -lo, a.np)
    if isfloat(a):
        if a != a or abs(a) == PYFLOAT("inf") or not (lo <= PYINT(a) <= hi):
            return lo
        return PYINT(a)
    a = PYINT(a)
    return (a - lo) % (2 ** bits) + lo


NARROW = {32: (24, 149, (2 - Fraction(1, 2 ** 23)) * 2 ** 127), 16: (11, 24, Fraction(65504))}


def narrow(a, bits):
    """a (a double) rounded to float32 or float16 and back; this is an operation of the code, so it is applied in ideal mode too"""
    prec, gmin, top = NARROW[bits]
    over = top + Fraction(2) ** (top.numerator.bit_length() - prec - 1)
    nan, pinf, ninf = a.nan, a.pinf, a.ninf
    if a.g is not None and a.M is not None and a.g <= gmin and a.M * Fraction(2) ** a.g <= 2 ** prec and a.M <= top:
        return a
    eng = E.cur()
    eng.stats.note("float%d rounding" % bits)
    e = a.v
    neg = e < 0
    m = If(neg, -e, e)
    if a.g is not None and a.M is not None and a.M > 0 and a.M * Fraction(2) ** a.g <= 2 ** (prec + 40):
        # exact: round half to even in every binade the value can lie in
        r, k = m, max(prec - a.g, prec - gmin) if a.g > gmin else prec - a.g
        first = True
        while first or Fraction(2) ** (k - 1) < min(a.M, top):
            u = Fraction(2) ** (k - prec)               # the spacing for |e| < 2**k
            q = m / zr(u)
            f = z3.ToInt(q)
            d = q - z3.ToReal(f)
            up = Or(d > zr(Fraction(1, 2)), And(d == zr(Fraction(1, 2)), f % 2 == 1))
            v = zr(u) * z3.ToReal(If(up, f + 1, f))
            r = v if first and a.g > gmin else (If(m >= zr(Fraction(2) ** (k - 1)), v, r))
            first = False
            k += 1
        r = If(neg, -r, r)
        M = a.M * 2
    else:
        r = z3.Real(eng.fresh("narrow"))
        b = zr(Fraction(1, 2 ** prec)) * m + zr(Fraction(1, 2 ** (gmin + 1)))
        eng.solver.add(r - e <= b, e - r <= b, z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0))
        if a.g is not None and a.g <= gmin:
            lim = zr(Fraction(2) ** (prec - a.g))
            eng.solver.add(z3.Implies(m <= lim, r == e))
        M = None if a.M is None else a.M * 2
    if a.M is None or a.M >= over:
        ok = Not(Or(nan, pinf, ninf))
        pinf, ninf = Or(pinf, And(ok, e >= zr(over))), Or(ninf, And(ok, e <= zr(-over)))
    return SF(r, nan, pinf, ninf, a.g, M, a.np)


def castfloat(a, bits=64):
    if isinstance(a, (SI, SB)):
        a = toSF(a)
    if isinstance(a, SF):
        return narrow(a, bits) if bits in NARROW else a
    a = PYFLOAT(a)
    if bits in NARROW:
        with numpy.errstate(all="ignore"):
            a = PYFLOAT((numpy.float32 if bits == 32 else numpy.float16)(a))
    return a


def castbool(a):
    if isinstance(a, SB):
        return a
    if isinstance(a, SI):
        return mkbool(a.z != 0)
    if isinstance(a, SF):
        return mkbool(Or(a.special, a.v != 0))
    return PYBOOL(a)


# -------------------------------------------------------------------- comparisons (IEEE semantics)

def eq(a, b):
    if _conc(a, b):
        return PYBOOL(a == b)
    if not isnum(a) or not isnum(b):
        return False
    if isbool(a) and isbool(b):
        return a == b if isinstance(a, SB) else b == a
    if _bothint(a, b):
        return mkbool(toSI(a).z == toSI(b).z)
    a, b = toSFx(a), toSFx(b)
    return mkbool(Or(And(a.pinf, b.pinf), And(a.ninf, b.ninf), And(Not(a.special), Not(b.special), a.v == b.v)))


def toSFx(x):
    """exact embedding for comparisons (python compares int/float exactly)"""
    if isinstance(x, SB):
        x = asint(x)
    if isinstance(x, SI):
        return SF(z3.ToReal(x.z), g=0, M=None if x.M is None else Fraction(x.M))
    if isint(x):
        return SF(zr(Fraction(PYINT(x))), g=0, M=Fraction(abs(PYINT(x))))
    return toSF(x)


def lt(a, b):
    if _conc(a, b):
        return PYBOOL(a < b)
    if not isnum(a) or not isnum(b):
        return NotImplemented
    if _bothint(a, b):
        return mkbool(toSI(a).z < toSI(b).z)
    a, b = toSFx(a), toSFx(b)
    return mkbool(And(Not(a.nan), Not(b.nan),
                      Or(And(a.ninf, Not(b.ninf)), And(b.pinf, Not(a.pinf)),
                         And(Not(a.special), Not(b.special), a.v < b.v))))


def le(a, b):
    if _conc(a, b):
        return PYBOOL(a <= b)
    if not isnum(a) or not isnum(b):
        return NotImplemented
    if _bothint(a, b):
        return mkbool(toSI(a).z <= toSI(b).z)
    a, b = toSFx(a), toSFx(b)
    return mkbool(And(Not(a.nan), Not(b.nan),
                      Or(a.ninf, b.pinf, And(Not(a.special), Not(b.special), a.v <= b.v))))


def lnot(c):
    if c is NotImplemented:
        return c
    if isinstance(c, SB):
        return mkbool(Not(c.z))
    return not c


def isnan(a):
    if isinstance(a, SF):
        return mkbool(a.nan)
    if isinstance(a, (SI, SB)):
        return False
    a = PYFLOAT(a)
    return a != a


def isinf(a):
    if isinstance(a, SF):
        return mkbool(Or(a.pinf, a.ninf))
    if isinstance(a, (SI, SB)):
        return False
    return math.isinf(a)


def isfinite(a):
    if isinstance(a, SF):
        return mkbool(a.finite)
    if isinstance(a, (SI, SB)):
        return True
    return math.isfinite(a)


def ite(c, a, b):
    """Merge two scalars under a symbolic condition (no fork)."""
    c = c.z if isinstance(c, SB) else c
    if c is True or c is False:
        return a if c else b
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return mkbool(IfB(c, zb(a), zb(b)))
    if not isnum(a) or not isnum(b):
        return a if E.cur().branch(c) else b
    if _bothint(a, b):
        x, y = toSI(a), toSI(b)
        if z3.eq(x.z, y.z):
            return a
        return SI(z3.If(c, x.z, y.z), None if x.M is None or y.M is None else max(x.M, y.M), isnp(a) or isnp(b))
    x, y = toSF(a), toSF(b)
    if x.nan is y.nan and x.pinf is y.pinf and x.ninf is y.ninf and z3.eq(x.v, y.v):
        return x
    return SF(z3.If(c, x.v, y.v), IfB(c, x.nan, y.nan), IfB(c, x.pinf, y.pinf), IfB(c, x.ninf, y.ninf),
              _gmax(x.g, y.g), None if x.M is None or y.M is None else max(x.M, y.M), isnp(a) or isnp(b))


def npmax(a, b):
    """numpy.maximum (propagates NaN)"""
    if _bothint(a, b):
        if _conc(a, b):
            return max(asint(a), asint(b))
        return ite(lt(a, b), b, a)
    if _conc(a, b):
        return PYFLOAT("nan") if a != a or b != b else PYFLOAT(max(a, b))
    a, b = toSF(a), toSF(b)
    return ite(a_or(isnan(a), le(b, a)), a, b)


def npmin(a, b):
    if _bothint(a, b):
        if _conc(a, b):
            return min(asint(a), asint(b))
        return ite(lt(a, b), a, b)
    if _conc(a, b):
        return PYFLOAT("nan") if a != a or b != b else PYFLOAT(min(a, b))
    a, b = toSF(a), toSF(b)
    return ite(a_or(isnan(a), le(a, b)), a, b)


def a_or(x, y):
    return mkbool(Or(zb(x), zb(y)))


def a_and(x, y):
    return mkbool(And(zb(x), zb(y)))


def sign(a):
    if not isinstance(a, Sym):
        import numpy
        return numpy.sign(a).item()
    one = 1.0 if isinstance(a, SF) else 1
    r = ite(lt(a, 0), -one, ite(lt(0, a), one, 0 * one))
    if isinstance(a, SF) and a.nan is not False:
        r = ite(isnan(a), PYFLOAT("nan"), r)
    return r


def same(a, b):
    """Bitwise-style equality for assertions: NaN equals NaN."""
    if _conc(a, b):
        if isnum(a) and isnum(b):
            return PYBOOL(a == b) or (a != a and b != b)
        return a == b
    if not isnum(a) or not isnum(b):
        return False
    if isbool(a) and isbool(b) or _bothint(a, b):
        return eq(a, b)
    a, b = toSFx(a), toSFx(b)
    if a.special is False and b.special is False and not getattr(E.cur(), "rounding", True):
        (p, q), (r, s) = rational(a.v), rational(b.v)
        if q is not None or s is not None:
            # the denominators are non-zero on this path (npdiv decided that before dividing)
            left = p if s is None else p * s
            right = r if q is None else r * q
            return mkbool(z3.simplify(left - right, som=True) == 0)
        return mkbool(z3.simplify(a.v - b.v, som=True) == 0)
    return a_or(mkbool(And(a.nan, b.nan)), eq(a, b))


def rational(t):
    """(numerator, denominator or None) of a term built from +, -, *, / over other terms"""
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_DIV:
        (p, q), (r, s) = rational(t.arg(0)), rational(t.arg(1))
        return _m(p, s), _m(q, r)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = rational(t.arg(0))
        for i in range(1, t.num_args()):
            m, e = rational(t.arg(i))
            if d is not None and e is not None and z3.eq(d, e):
                n = n + m if k == z3.Z3_OP_ADD else n - m
            else:
                n, m = _m(n, e), _m(m, d)
                n = n + m if k == z3.Z3_OP_ADD else n - m
                d = _m(d, e)
        return n, d
    if k == z3.Z3_OP_MUL:
        n, d = rational(t.arg(0))
        for i in range(1, t.num_args()):
            m, e = rational(t.arg(i))
            n, d = n * m, _m(d, e)
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = rational(t.arg(0))
        return -n, d
    return t, None


def _m(x, y):
    return y if x is None else x if y is None else x * y
