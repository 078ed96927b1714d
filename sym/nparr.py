"""Symbolic stand-in for the part of numpy that histbook uses.

A SymArray wraps a real numpy object-dtype ndarray (so shapes, views, strides, reshapes and slices are numpy's own)
plus the logical dtype.  Elementwise operations build solver terms; operations whose *shape* depends on data
(boolean-mask selection, compressed, unique) fork.  Anything not modelled falls back to the real numpy function on
values concretised by solver-driven enumeration (complete as long as the feasible values are finitely many).
"""
import functools
import itertools
import types

import numpy as NP

from . import engine as E
from . import values as V

NP.seterr(all="ignore")
F64, I64, I32, BOOL, OBJ = (NP.dtype(x) for x in ("float64", "int64", "int32", "bool", "object"))


# -------------------------------------------------------------------- dtypes

def todtype(d):
    if d is None:
        return None
    name = getattr(d, "__name__", None)
    if name == "_float":
        return F64
    if name == "_int":
        return I64
    if name == "_bool":
        return BOOL
    return NP.dtype(d)


def scalar_dtype(x):
    if isinstance(x, V.SF):
        return F64
    if isinstance(x, V.SI):
        return I64
    if isinstance(x, V.SB):
        return BOOL
    return NP.asarray(x).dtype


def cast(x, dtype):
    if dtype.kind == "f":
        return V.castfloat(x, dtype.itemsize * 8)
    if dtype.kind == "i":
        return V.castint(x, dtype.itemsize * 8)
    if dtype.kind == "u":
        if isinstance(x, V.Sym):
            raise E.Unsupported("unsigned cast")
        return int(dtype.type(x))
    if dtype.kind == "b":
        return V.castbool(x)
    return x


castv = NP.frompyfunc(cast, 2, 1)


class _ScalarType(type):
    """numpy scalar types that also convert symbolic numbers; instances, subclasses and dtypes are numpy's own"""
    def __instancecheck__(cls, x):
        return isinstance(x, cls.__mro__[1])

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__mro__[1])

    def __eq__(cls, other):
        return other is cls or other is cls.__mro__[1]

    def __ne__(cls, other):
        return not cls == other

    def __hash__(cls):
        return hash(cls.__mro__[1])

    def __call__(cls, x=0, *args):
        if isinstance(x, V.Sym):
            return cast(x, NP.dtype(cls.__mro__[1]))
        if isinstance(x, SymArray):
            return cast(x.item(), NP.dtype(cls.__mro__[1])) if x.ndim == 0 else x.astype(NP.dtype(cls.__mro__[1]))
        return cls.__mro__[1](x, *args)


def scalartype(real):
    return _ScalarType(real.__name__, (real,), {})


def toobj(x):
    """real ndarray/list -> object ndarray holding python scalars"""
    a = NP.asarray(x)
    if a.dtype.kind == "O":
        return a
    out = NP.empty(a.shape, dtype=object)
    if a.shape == ():
        out[()] = a.item()
    else:
        flat = out.reshape(-1)
        flat[:] = a.reshape(-1).tolist()
        out = flat.reshape(a.shape)
    return out


def wrap(a, dtype=None):
    """real numpy result -> facade value"""
    if isinstance(a, (SymArray, V.Sym)):
        return a
    if isinstance(a, tuple):
        return tuple(wrap(x) for x in a)
    if isinstance(a, list):
        return [wrap(x) for x in a]
    if isinstance(a, NP.ma.MaskedArray):
        return SymMaskedArray(toobj(a.data), a.dtype, NP.ma.nomask if a.mask is NP.ma.nomask else toobj(a.mask))
    if isinstance(a, NP.ndarray):
        return SymArray(toobj(a), dtype or a.dtype)
    return a


def scalarize(x, dtype):
    """element extracted from an array"""
    if isinstance(x, V.Sym):
        if isinstance(x, V.SF) and not x.np:
            return V.SF(x.v, x.nan, x.pinf, x.ninf, x.g, x.M, True)
        if isinstance(x, V.SI) and not x.np:
            return V.SI(x.z, x.M, True)
        return x
    if dtype.kind in "fiub":
        return dtype.type(x)
    if dtype.kind == "U":
        return NP.str_(x)
    return x


def concretise(x):
    """SymArray/Sym/containers -> real numpy / python values (forks)"""
    if isinstance(x, SymMaskedArray):
        d = concretise_obj(x.a, x.dtype)
        m = x._mask if x._mask is NP.ma.nomask else concretise_obj(x._mask, BOOL)
        return NP.ma.array(d, mask=m)
    if isinstance(x, SymRec):
        raise E.Unsupported("record array in unmodelled numpy call")
    if isinstance(x, SymArray):
        return concretise_obj(x.a, x.dtype)
    if isinstance(x, V.SB):
        return bool(x)
    if isinstance(x, V.SI):
        return x.concrete()
    if isinstance(x, V.SF):
        return x.concrete()
    if isinstance(x, tuple):
        return tuple(concretise(y) for y in x)
    if isinstance(x, list):
        return [concretise(y) for y in x]
    if isinstance(x, dict):
        return dict((k, concretise(y)) for k, y in x.items())
    return x


def concretise_obj(a, dtype):
    flat = [concretise(x) for x in a.reshape(-1)]
    if dtype.kind in "fiubUS":
        out = NP.array(flat, dtype=dtype if dtype.kind in "fiub" else None)
    else:
        out = NP.empty(len(flat), dtype=object)
        out[:] = flat
    return out.reshape(a.shape)


def outside(real, a, k):
    """numpy's own function on concrete values; what it changed in place is written back"""
    args = [concretise(x) for x in a]
    kw = concretise(k)
    pairs = [(x, c, c.copy()) for x, c in list(zip(a, args)) + [(k[n], kw[n]) for n in k] if isinstance(x, SymArray) and isinstance(c, NP.ndarray)]
    r = real(*args, **kw)
    for x, c, before in pairs:
        if c.shape != before.shape or c.dtype != before.dtype:
            raise E.Unsupported("unmodelled in-place numpy call")
        if c.dtype.kind == "O" or c.tobytes() != before.tobytes():
            for i in NP.ndindex(*c.shape):
                same = c[i] is before[i] if c.dtype.kind == "O" else NP.asarray(c[i]).tobytes() == NP.asarray(before[i]).tobytes()
                if not same:
                    x.a[i] = c[i].item() if isinstance(c[i], NP.generic) else c[i]
        if r is c:
            return x
    return wrap(r)


def hassym(x):
    if isinstance(x, V.Sym):
        return True
    if isinstance(x, SymRec):
        return True
    if isinstance(x, SymArray):
        return any(isinstance(y, V.Sym) for y in x.a.reshape(-1)) or (isinstance(x, SymMaskedArray) and x._mask is not NP.ma.nomask and any(isinstance(y, V.Sym) for y in x._mask.reshape(-1)))
    if isinstance(x, (tuple, list)):
        return any(hassym(y) for y in x)
    return False


# -------------------------------------------------------------------- indexing helpers

def conc_mask(a):
    return NP.array([bool(x) for x in a.reshape(-1)], dtype=bool).reshape(a.shape)


def convindex(i):
    """facade index -> real numpy index (forks on symbolic masks / integers)"""
    if isinstance(i, tuple):
        return tuple(convindex(x) for x in i)
    if isinstance(i, list):
        if any(isinstance(x, slice) for x in i):
            return tuple(convindex(x) for x in i)       # numpy < 1.23 treats a list holding slices as a tuple
        if len(i) == 0:
            return NP.array([], dtype=int)
        return convindex(asarray(i))
    if isinstance(i, SymArray):
        if i.dtype.kind == "b":
            return conc_mask(i.a)
        return NP.array([int(x) for x in i.a.reshape(-1)], dtype=int).reshape(i.a.shape)
    if isinstance(i, slice):
        return slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
    if isinstance(i, (V.SI, V.SB)):
        return int(i)
    return i


class Flags(object):
    writeable = True
    c_contiguous = True
    owndata = True


class SymArray(object):
    """numpy.ndarray stand-in"""
    __array_priority__ = 1000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, dtype):
        self.a = a
        self._dtype = dtype

    # ---- metadata
    @property
    def dtype(self):
        return self._dtype

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        s = tuple(int(x) for x in s) if isinstance(s, (tuple, list)) else (int(s),)
        self.a = self.a.reshape(s)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def T(self):
        return self._like(self.a.T)

    @property
    def flat(self):
        return iter(self.reshape(-1))

    @property
    def flags(self):
        return Flags()

    @property
    def base(self):
        return self.a.base

    @property
    def nbytes(self):
        return self.a.size * self._dtype.itemsize

    @property
    def itemsize(self):
        return self._dtype.itemsize

    @property
    def data(self):
        return self

    def _like(self, a):
        return SymArray(a, self._dtype)

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return len(self.a)

    def __iter__(self):
        for i in range(len(self.a)):
            yield self[i]

    def __repr__(self):
        return "array(%s)" % (self.a.tolist(),)

    def __reduce__(self):
        return (_rebuild, (self.__class__, self.a.copy(), self._dtype))

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # ---- indexing
    def __getitem__(self, i):
        r = self.a[convindex(i)]
        if isinstance(r, NP.ndarray):
            return self._like(r)
        return scalarize(r, self._dtype)

    def __setitem__(self, i, value):
        if isinstance(i, (list,)) and len(i) and all(isinstance(x, V.Sym) for x in i):
            i = asarray(i)
        if isinstance(i, SymArray) and i.dtype.kind == "b" and i.shape == self.shape and hassym(i) and not (isinstance(value, (SymArray, list, tuple)) and NP.ndim(tolistdeep(value)) > 0):
            if isinstance(value, SymArray):
                value = value.a[()]
            if not V.isnum(value) or not all(V.isnum(x) for x in self.a.reshape(-1)):
                pass
            else:
                value = cast(value, self._dtype)
                for k in NP.ndindex(*self.shape):
                    self.a[k] = V.ite(i.a[k], value, self.a[k])
                return
        if isinstance(value, SymArray):
            value = value.a
        elif isinstance(value, (list, tuple)):
            value = asarray(value).a
        elif isinstance(value, NP.ndarray):
            value = toobj(value)
        idx = convindex(i)
        if isinstance(value, NP.ndarray):
            if value.size:
                value = NP.asarray(castv(value, self._dtype), dtype=object)
            if value.size == 1 and not isinstance(self.a[idx], NP.ndarray):
                value = value.reshape(-1)[0]
            self.a[idx] = value
        else:
            tmp = NP.empty((), dtype=object)
            tmp[()] = cast(value, self._dtype)
            self.a[idx] = tmp if isinstance(self.a[idx], NP.ndarray) else tmp[()]

    def __contains__(self, x):
        return any(bool(V.eq(y, x)) for y in self.a.reshape(-1))

    # ---- shape manipulation
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return self._like(self.a.reshape(tuple(int(x) for x in shape)))

    def ravel(self, *a, **k):
        return self._like(self.a.reshape(-1))

    def flatten(self, *a, **k):
        return self._like(self.a.reshape(-1).copy())

    def transpose(self, *axes):
        return self._like(self.a.transpose(*axes))

    def swapaxes(self, i, j):
        return self._like(self.a.swapaxes(i, j))

    def squeeze(self, axis=None):
        return self._like(self.a.squeeze(axis))

    def copy(self, *a, **k):
        return self._like(self.a.copy())

    def repeat(self, n, axis=None):
        return self._like(self.a.repeat(n, axis))

    def take(self, idx, axis=None, **k):
        return self._like(self.a.take(convindex(idx), axis))

    def astype(self, dtype, *a, **k):
        dtype = todtype(dtype)
        if self.a.size == 0:
            return self._mk(self.a.copy(), dtype)
        return self._mk(NP.asarray(castv(self.a, dtype), dtype=object).reshape(self.a.shape), dtype)

    def _mk(self, a, dtype):
        return SymArray(a, dtype)

    def view(self, dtype=None, type=None):
        if dtype is None or dtype is SymArray:
            return SymArray(self.a, self._dtype)
        if isinstance(dtype, builtin_type) and issubclass(dtype, SymMaskedArray):
            return SymMaskedArray(self.a, self._dtype, NP.ma.nomask)
        if isinstance(dtype, (list, tuple)):
            names = [n for n, _ in dtype]
            if self.a.shape[-1] % len(names):
                raise ValueError("When changing to a larger dtype, its size must be a divisor of the total size in bytes of the last axis of the array.")
            return SymRec(self.a.reshape(self.a.shape[:-1] + (self.a.shape[-1] // len(names), len(names))), names, self._dtype)
        d = todtype(dtype)
        if d.names is not None:
            return self.view([(n, d[n]) for n in d.names])
        if d == self._dtype:
            return SymArray(self.a, self._dtype)
        raise E.Unsupported("view as %r" % (dtype,))

    def tolist(self):
        return self.a.tolist()

    def item(self, *i):
        if i:
            return self.a.item(*i)
        if self.a.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.a.reshape(-1)[0]

    def fill(self, v):
        self[...] = v

    def put(self, ind, v, mode="raise"): return put(self, ind, v, mode)

    def sort(self, *a, **k):
        self.a[...] = sort(self).a

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return _sum(self, axis, keepdims, dtype, out)
    def prod(self, axis=None, **k): return _reduce(V.mul, self, axis, 1)
    def any(self, axis=None, **k): return _reduce(V.a_or, self.astype(BOOL), axis, False)
    def all(self, axis=None, **k): return _reduce(V.a_and, self.astype(BOOL), axis, True)
    def max(self, axis=None, **k): return _reduce(V.npmax, self, axis, None)
    def min(self, axis=None, **k): return _reduce(V.npmin, self, axis, None)
    def mean(self, axis=None, **k):
        n = self.a.size if axis is None else self.a.shape[axis]
        return self.sum(axis) / n
    def cumsum(self, axis=None, **k): return cumsum(self, axis)
    def argmax(self, axis=None): return argbest(self, axis, lambda a, b: V.lt(b, a))
    def argmin(self, axis=None): return argbest(self, axis, lambda a, b: V.lt(a, b))
    def nonzero(self): return nonzero(self)
    def round(self, decimals=0, out=None): return rint_(self)
    def clip(self, lo=None, hi=None, out=None, **k): return clip(self, lo, hi, out)
    def dot(self, o): return dot(self, o)
    def argsort(self, *a, **k): return argsort(self)
    def searchsorted(self, v, side="left", sorter=None): return searchsorted(self, v, side)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(NP.ndarray, name):
            raise AttributeError(name)

        def method(*a, **k):
            E.cur().stats.note("concretised for ndarray." + name)
            return outside(lambda me, *a, **k: getattr(me, name)(*a, **k), (self,) + a, k)
        return method

    # ---- conversions
    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.a.reshape(-1)[0])

    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __index__(self): return self.item().__index__()

    # ---- operators
    def __add__(self, o): return _bin(add, self, o)
    def __radd__(self, o): return _bin(add, o, self)
    def __sub__(self, o): return _bin(subtract, self, o)
    def __rsub__(self, o): return _bin(subtract, o, self)
    def __mul__(self, o): return _bin(multiply, self, o)
    def __rmul__(self, o): return _bin(multiply, o, self)
    def __truediv__(self, o): return _bin(true_divide, self, o)
    def __rtruediv__(self, o): return _bin(true_divide, o, self)
    def __floordiv__(self, o): return _bin(floor_divide, self, o)
    def __rfloordiv__(self, o): return _bin(floor_divide, o, self)
    def __mod__(self, o): return _bin(remainder, self, o)
    def __rmod__(self, o): return _bin(remainder, o, self)
    def __pow__(self, o): return _bin(power, self, o)
    def __rpow__(self, o): return _bin(power, o, self)
    def __neg__(self): return negative(self)
    def __pos__(self): return self.copy()
    def __abs__(self): return absolute(self)
    def __invert__(self): return invert(self)
    def __and__(self, o): return _bin(bitwise_and, self, o)
    def __rand__(self, o): return _bin(bitwise_and, o, self)
    def __or__(self, o): return _bin(bitwise_or, self, o)
    def __ror__(self, o): return _bin(bitwise_or, o, self)
    def __xor__(self, o): return _bin(bitwise_xor, self, o)
    def __eq__(self, o): return _bin(equal, self, o)
    def __ne__(self, o): return _bin(not_equal, self, o)
    def __lt__(self, o): return _bin(less, self, o)
    def __le__(self, o): return _bin(less_equal, self, o)
    def __gt__(self, o): return _bin(greater, self, o)
    def __ge__(self, o): return _bin(greater_equal, self, o)
    def __iadd__(self, o): return add(self, o, self)
    def __isub__(self, o): return subtract(self, o, self)
    def __imul__(self, o): return multiply(self, o, self)
    def __itruediv__(self, o): return true_divide(self, o, self)
    def __ifloordiv__(self, o): return floor_divide(self, o, self)
    def __iand__(self, o): return bitwise_and(self, o, self)
    def __ior__(self, o): return bitwise_or(self, o, self)


builtin_type = type


def _rebuild(cls, a, dtype, *more):
    return cls(a, dtype, *more)


def _bin(f, a, b):
    for x in (a, b):
        if not (isinstance(x, (SymArray, list, tuple, NP.ndarray)) or V.isnum(x) or isinstance(x, (str, bytes))):
            if f in (equal, not_equal):
                continue
            return NotImplemented
    return f(a, b)


class SymRec(SymArray):
    """structured array: a has one extra trailing axis of fields"""

    def __init__(self, a, names, fdtype):
        self.a = a
        self.names = list(names)
        self.fdtype = fdtype
        self._dtype = NP.dtype([(n, fdtype) for n in names]) if len(set(names)) == len(names) else None
        if self._dtype is None:
            raise ValueError("field names must be unique")

    @property
    def shape(self):
        return self.a.shape[:-1]

    @property
    def ndim(self):
        return self.a.ndim - 1

    @property
    def size(self):
        return int(NP.prod(self.shape))

    def __len__(self):
        return self.a.shape[0]

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        n = self.size
        shape = tuple(int(x) for x in shape)
        return SymRec(NP.empty(n).reshape(shape) is not None and self.a.reshape(NP.empty(n).reshape(shape).shape + (len(self.names),)), self.names, self.fdtype)

    def copy(self, *a, **k):
        return SymRec(self.a.copy(), self.names, self.fdtype)

    def __getitem__(self, i):
        if isinstance(i, str):
            try:
                return SymArray(self.a[..., self.names.index(i)], self.fdtype)
            except ValueError:
                raise ValueError("no field of name " + i)
        idx = convindex(i)
        if not isinstance(idx, tuple):
            idx = (idx,)
        r = self.a[idx + (Ellipsis, slice(None))]
        if r.ndim == 1:
            return SymVoid(r, self.names, self.fdtype)
        return SymRec(r, self.names, self.fdtype)

    def view(self, dtype=None, type=None):
        d = todtype(dtype)
        if d is not None and d.names is None:
            return SymArray(self.a.reshape(self.a.shape[:-2] + (-1,)) if self.a.ndim >= 2 else self.a, self.fdtype)
        return self

    def tolist(self):
        def rec(a):
            return tuple(a) if a.ndim == 1 else [rec(x) for x in a]
        return rec(self.a)


class SymVoid(object):
    def __init__(self, a, names, fdtype):
        self.a, self.names, self.fdtype = a, names, fdtype

    def __getitem__(self, i):
        return scalarize(self.a[self.names.index(i) if isinstance(i, str) else i], self.fdtype)

    def __len__(self):
        return len(self.names)

    def __iter__(self):
        return (scalarize(x, self.fdtype) for x in self.a)

    def tolist(self):
        return tuple(self.a)

    @property
    def dtype(self):
        return NP.dtype([(n, self.fdtype) for n in self.names])


def tolistdeep(v):
    return v.a if isinstance(v, SymArray) else asarray(v).a


# -------------------------------------------------------------------- construction

def infer(flat):
    kinds = set()
    for x in flat:
        kinds.add(scalar_dtype(x).kind)
    if not kinds:
        return F64
    if kinds <= {"b"}:
        return BOOL
    if kinds <= {"b", "i"}:
        d = [scalar_dtype(x) for x in flat if not isinstance(x, (V.Sym, int))]
        return I64
    if kinds <= {"b", "i", "u", "f"}:
        return F64
    if kinds <= {"U", "S"}:
        return NP.array([x for x in flat]).dtype
    if "O" in kinds:
        return OBJ
    return NP.array([str(x) for x in flat]).dtype


def array(obj, dtype=None, copy=True, **kw):
    dtype = todtype(dtype)
    if isinstance(obj, SymRec):
        return obj.copy() if copy else obj
    if isinstance(obj, SymArray):
        out = SymArray(obj.a, obj.dtype)
        if dtype is not None and dtype != obj.dtype:
            return out.astype(dtype)
        return out.copy() if copy else (obj if type(obj) is SymArray else out)
    if isinstance(obj, NP.ndarray):
        d = obj.dtype
        o = toobj(obj)
        if d.kind == "f":
            d = F64 if d.kind == "f" and d.itemsize == 8 else d
        out = SymArray(o.copy() if copy else o, d)
        return out if dtype is None or dtype == d else out.astype(dtype)
    if isinstance(obj, (list, tuple)) and len(obj) and all(isinstance(x, (SymRec, SymVoid)) for x in obj) and dtype is None:
        return SymRec(NP.stack([x.a for x in obj]), obj[0].names, obj[0].fdtype)
    if isinstance(obj, (set, frozenset, dict)):
        o = NP.empty((), dtype=object)
        o[()] = obj
        return SymArray(o, OBJ)
    if isinstance(obj, (list, tuple, range)) or (hasattr(obj, "__iter__") and not isinstance(obj, (str, bytes, V.Sym)) and hasattr(obj, "__len__")):
        shape = _shape(list(obj))
        flat = list(_flatten(list(obj), len(shape)))
        o = NP.empty(len(flat), dtype=object)
        for i, x in enumerate(flat):
            o[i] = x.item() if isinstance(x, NP.generic) else x
        o = o.reshape(shape)
        if dtype is None:
            nps = [x.dtype for x in flat if isinstance(x, NP.generic)]
            subs = [x.dtype for x in _arrays(obj)]
            if subs:
                dtype = functools.reduce(NP.promote_types, subs)
            elif nps and len(nps) == len(flat):
                dtype = functools.reduce(NP.promote_types, nps)
            else:
                dtype = infer(flat)
        if o.size:
            o = NP.asarray(castv(o, dtype), dtype=object).reshape(shape)
        return SymArray(o, dtype)
    o = NP.empty((), dtype=object)
    o[()] = obj.item() if isinstance(obj, NP.generic) else obj
    if dtype is None:
        dtype = scalar_dtype(obj)
    o[()] = cast(o[()], dtype)
    return SymArray(o, dtype)


def _arrays(obj):
    for x in obj:
        if isinstance(x, SymArray):
            yield x
        elif isinstance(x, (list, tuple)):
            for y in _arrays(x):
                yield y


def _shape(obj):
    if isinstance(obj, SymArray):
        return obj.shape
    if isinstance(obj, NP.ndarray):
        return obj.shape
    if isinstance(obj, (list, tuple)):
        if len(obj) == 0:
            return (0,)
        subs = [_shape(x) for x in obj]
        if any(s != subs[0] for s in subs):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(obj),) + subs[0]
    return ()


def _flatten(obj, depth):
    if isinstance(obj, SymArray):
        for x in obj.a.reshape(-1):
            yield x
    elif isinstance(obj, NP.ndarray):
        for x in toobj(obj).reshape(-1):
            yield x
    elif isinstance(obj, (list, tuple)) and depth > 0:
        for x in obj:
            for y in _flatten(x, depth - 1):
                yield y
    else:
        yield obj


def asarray(obj, dtype=None, **kw):
    if isinstance(obj, SymArray) and (dtype is None or todtype(dtype) == obj.dtype):
        return obj if type(obj) in (SymArray, SymRec) else SymArray(obj.a, obj.dtype)
    return array(obj, dtype, copy=False)


def asanyarray(obj, dtype=None, **kw):
    if isinstance(obj, SymArray) and (dtype is None or todtype(dtype) == obj.dtype):
        return obj
    return array(obj, dtype, copy=False)


def _mkshape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(x.__index__() for x in shape)
    if isinstance(shape, SymArray):
        return tuple(int(x) for x in shape)
    return (shape.__index__(),)


def full(shape, value, dtype=None, **kw):
    if isinstance(value, SymArray):
        dtype = dtype or value.dtype
        value = value.item()
    dtype = todtype(dtype) or scalar_dtype(value)
    o = NP.empty(_mkshape(shape), dtype=object)
    v = cast(value.item() if isinstance(value, NP.generic) else value, dtype)
    f = o.reshape(-1)
    for i in range(f.size):
        f[i] = v
    return SymArray(f.reshape(o.shape), dtype)


def zeros(shape, dtype=None, order=None, **kw):
    d = todtype(dtype) or F64
    return full(shape, {"f": 0.0, "b": False}.get(d.kind, "" if d.kind in "US" else 0), d)


def ones(shape, dtype=None, order=None, **kw):
    d = todtype(dtype) or F64
    return full(shape, 1, d)


def empty(shape, dtype=None, order=None, **kw):
    """uninitialised memory: any read of it is arbitrary, modelled as an unconstrained value per element"""
    d = todtype(dtype) or F64
    if d.kind != "f":
        return zeros(shape, d)
    out = zeros(shape, d)
    f = out.a.reshape(-1)
    e = E.cur()
    if e is None:
        return out
    import z3
    for i in range(f.size):
        f[i] = V.SF(z3.Real(e.fresh("uninit")), g=None, M=None)
    out.a = f.reshape(out.a.shape)
    return out


def zeros_like(a, dtype=None, **k):
    a = asanyarray(a)
    r = zeros(a.shape, dtype or a.dtype)
    return SymMaskedArray(r.a, r.dtype, a._mask if a._mask is NP.ma.nomask else a._mask.copy()) if isinstance(a, SymMaskedArray) else r


def ones_like(a, dtype=None, **k):
    a = asanyarray(a)
    r = ones(a.shape, dtype or a.dtype)
    return SymMaskedArray(r.a, r.dtype, a._mask if a._mask is NP.ma.nomask else a._mask.copy()) if isinstance(a, SymMaskedArray) else r


def empty_like(a, dtype=None, **k):
    return empty(a.shape, dtype or a.dtype)


def full_like(a, value, dtype=None, **k):
    return full(a.shape, value, dtype or a.dtype)


def arange(*a, **k):
    return wrap(NP.arange(*[concretise(x) for x in a], **k))


# -------------------------------------------------------------------- ufuncs

def result_dtype(kind, args):
    """args: facade operands (arrays or scalars)"""
    ds = []
    for x in args:
        if isinstance(x, SymArray):
            ds.append((x.dtype, x.ndim > 0))
        else:
            ds.append((scalar_dtype(x), False))
    if kind == "bool":
        return BOOL
    ks = [d.kind for d, _ in ds]
    if any(k in "USO" for k in ks):
        return OBJ
    arrs = [d for d, isarr in ds if isarr]
    if kind == "float" or "f" in ks:
        if any(d.kind == "f" for d in arrs):
            return functools.reduce(NP.promote_types, arrs)       # value-based casting: scalars do not widen a float array
        return F64
    if kind == "arith" and all(k == "b" for k in ks):
        return BOOL
    if arrs and any(d.kind != "b" for d in arrs):
        # value-based casting: integer scalars do not widen integer arrays
        return functools.reduce(NP.promote_types, [d for d in arrs])
    if all(k == "b" for k in ks):
        return BOOL
    ints = [d for d, isarr in ds if d.kind != "b"]
    return functools.reduce(NP.promote_types, ints)


class Ufunc(object):
    def __init__(self, name, nin, fn, kind):
        self.__name__ = name
        self.nin = nin
        self.nargs = nin + 1
        self.nout = 1
        self.fn = fn
        self.kind = kind

    def __repr__(self):
        return "<symbolic ufunc %s>" % self.__name__

    def __call__(self, *args, **kw):
        out = kw.pop("out", None)
        where = kw.pop("where", True)
        dtype = todtype(kw.pop("dtype", None))
        kw.pop("casting", None)
        if kw:
            raise E.Unsupported("ufunc options %r" % (kw,))
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        if isinstance(out, tuple):
            out = out[0]
        if len(args) != self.nin:
            raise TypeError("%s() takes from %d to %d positional arguments but %d were given" % (self.__name__, self.nin, self.nin + 1, len(args)))
        args = [asanyarray(x) if isinstance(x, (list, tuple, NP.ndarray)) else x for x in args]
        for x in args:
            if isinstance(x, (set, frozenset, dict)) or x is None:
                raise TypeError("unsupported operand for ufunc %s" % self.__name__)
        rd = dtype or result_dtype(self.kind, args)
        name = self.__name__
        if rd.kind == "b" and name == "subtract":
            raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
        if rd.kind == "O" and not any(isinstance(x, SymArray) and x.dtype.kind == "O" for x in args) and self.kind != "bool":
            raise TypeError("ufunc '%s' did not contain a loop with signature matching types" % name)
        fn = self.fn
        if rd.kind == "b" and name == "add":
            fn = V.a_or
        elif rd.kind == "b" and name == "multiply":
            fn = V.a_and
        raw = [x.a if isinstance(x, SymArray) else x for x in args]
        if self.kind == "float":
            raw = [castv(x, F64) if isinstance(x, NP.ndarray) and x.size else (V.castfloat(x) if not isinstance(x, NP.ndarray) else x) for x in raw]
        shape = NP.broadcast_shapes(*[getattr(x, "shape", ()) for x in raw])
        res = NP.empty(shape, dtype=object)
        bc = []
        for x in raw:
            if not isinstance(x, NP.ndarray):
                y = NP.empty((), dtype=object)
                y[()] = x.item() if isinstance(x, NP.generic) else x
                x = y
            bc.append(NP.broadcast_to(x, shape))
        for k in NP.ndindex(*shape):
            res[k] = fn(*[b[k] for b in bc])
        bits = rd.itemsize * 8 if rd.kind == "i" else None
        if bits is not None:
            for k in NP.ndindex(*shape):
                res[k] = V.castint(res[k], bits)
        elif rd.kind == "f" and self.kind != "bool":
            for k in NP.ndindex(*shape):
                res[k] = V.castfloat(res[k], rd.itemsize * 8)
        if out is not None:
            if rd.kind == "f" and out.dtype.kind in "iub":
                raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('%s') with casting rule 'same_kind'" % (name, out.dtype))
            if rd.kind in "iu" and out.dtype.kind == "b":
                raise TypeError("Cannot cast ufunc '%s' output to bool" % name)
            if out.a.shape != shape:
                if NP.broadcast_shapes(out.a.shape, shape) != out.a.shape:
                    raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (out.a.shape, shape))
                res = NP.broadcast_to(res, out.a.shape)
                shape = out.a.shape
            if where is True:
                for k in NP.ndindex(*shape):
                    out.a[k] = cast(res[k], out.dtype)
            else:
                w = NP.broadcast_to(asarray(where).a, shape)
                for k in NP.ndindex(*shape):
                    out.a[k] = V.ite(w[k], cast(res[k], out.dtype), out.a[k])
            if isinstance(out, SymMaskedArray):
                m = _union(args, shape)
                out._mask = m
            return out
        if where is not True:
            raise E.Unsupported("ufunc where without out")
        if any(isinstance(x, SymMaskedArray) for x in args):
            r = SymMaskedArray(res, rd, _union(args, shape))
            return r
        if any(isinstance(x, SymArray) and x.ndim > 0 for x in args) or any(isinstance(x, SymArray) for x in args) and shape != ():
            return SymArray(res, rd)
        return scalarize(res[()], rd)

    def at(self, target, idx, *vals):
        """unbuffered in-place operation with possibly symbolic integer indexes (1-d targets are not forked)"""
        if isinstance(idx, (list, tuple)) and not isinstance(idx, tuple):
            idx = asarray(idx)
        if isinstance(idx, (int, V.SI, NP.integer)):
            idx = asarray([idx])
        if not isinstance(target, SymArray):
            raise E.Unsupported("ufunc.at target")
        if isinstance(idx, SymArray) and idx.dtype.kind in "iu" and target.ndim == 1 and idx.ndim == 1:
            n = len(target.a)
            k = len(idx.a)
            vv = []
            for v in vals:
                if isinstance(v, (list, tuple)):
                    v = asarray(v)
                va = v.a if isinstance(v, SymArray) else v
                if isinstance(va, NP.ndarray):
                    vv.append(NP.broadcast_to(va, (k,)))
                else:
                    y = NP.empty((), dtype=object)
                    y[()] = va.item() if isinstance(va, NP.generic) else va
                    vv.append(NP.broadcast_to(y, (k,)))
            for i in range(k):
                ix = idx.a[i]
                args = [v[i] for v in vv]
                if isinstance(ix, V.SI) and E.cur().fork_index:
                    key = ("index", ix.z.get_id())
                    if key not in E.cur().memo:
                        E.cur().memo[key] = (ix.z, E.cur().enumerate_value(ix.z).as_long())
                    ix = E.cur().memo[key][1]
                if isinstance(ix, V.SI):
                    ok = V.a_and(V.le(-n, ix), V.lt(ix, n))
                    if not ok:
                        raise IndexError("index out of bounds for axis 0 with size %d" % n)
                    lo_possible = E.cur().sat(ix.z < 0) != E.z3.unsat
                    for b in range(n):
                        hit = V.eq(ix, b)
                        if lo_possible:
                            hit = V.a_or(hit, V.eq(ix, b - n))
                        if hit is False:
                            continue
                        target.a[b] = V.ite(hit, cast(self.fn(target.a[b], *args), target.dtype), target.a[b])
                else:
                    ix = int(ix)
                    if not -n <= ix < n:
                        raise IndexError("index %d is out of bounds for axis 0 with size %d" % (ix, n))
                    target.a[ix] = cast(self.fn(target.a[ix], *args), target.dtype)
            return None
        # general index: concretise the indexes, keep the values symbolic
        ci = convindex(idx)
        pos = NP.arange(target.a.size).reshape(target.a.shape)[ci]
        vv = [NP.broadcast_to(v.a if isinstance(v, SymArray) else toobj(v) if not isinstance(v, V.Sym) else _o0(v), pos.shape) for v in vals]
        coords = [NP.unravel_index(int(p), target.a.shape) for p in NP.asarray(pos).reshape(-1)]
        vv = [v.reshape(-1) for v in vv]
        for i, c in enumerate(coords):
            target.a[c] = cast(self.fn(target.a[c], *[v[i] for v in vv]), target.dtype)
        return None

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        a = asanyarray(a)
        if self.__name__ == "add":
            return _sum(a, axis, keepdims, dtype, out)
        init = {"multiply": 1, "logical_and": True, "logical_or": False, "bitwise_and": True, "bitwise_or": False}.get(self.__name__)
        return _reduce(self.fn, a, axis, init)

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def accumulate(self, a, axis=0, **kw):
        a = asarray(a)
        out = a.copy()
        if a.ndim != 1:
            raise E.Unsupported("accumulate on rank > 1")
        for i in range(1, len(a)):
            out.a[i] = self.fn(out.a[i - 1], out.a[i])
        return out


def _o0(v):
    o = NP.empty((), dtype=object)
    o[()] = v
    return o


def _union(args, shape):
    m = NP.ma.nomask
    for x in args:
        if isinstance(x, SymMaskedArray) and x._mask is not NP.ma.nomask:
            xm = NP.broadcast_to(x._mask, shape)
            if m is NP.ma.nomask:
                m = xm.copy()
            else:
                r = NP.empty(shape, dtype=object)
                for k in NP.ndindex(*shape):
                    r[k] = V.a_or(m[k], xm[k])
                m = r
    return m


def _streq(a, b):
    if isinstance(a, V.Sym) or isinstance(b, V.Sym):
        return V.eq(a, b)
    r = a == b
    return bool(r)


def _cmp(f):
    def g(a, b):
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
                return f(a, b)
            raise TypeError("comparison of string and number")
        return f(a, b)
    return g


def _inv(a):
    if isinstance(a, (V.SB,)):
        return ~a
    if V.isbool(a):
        return not a
    return ~a


def _fdiv(a, b):
    if V._bothint(a, b):
        if V._conc(a, b):
            return 0 if b == 0 else a // b
        return V.floordiv(a, b)
    return V.floor(V.npdiv(a, b))


def _npmod(a, b):
    if V._conc(a, b):
        return NP.remainder(a, b).item()
    return V.mod(a, b)


def _nppow(a, b):
    if V._conc(a, b):
        return NP.power(a, b).item()
    return V.power(a if not isinstance(a, (V.SF, V.SI)) else scalarize(a, F64), b)


def _tb(f):
    return lambda a, b: f(V.castbool(a), V.castbool(b))


def _bit(f, g):
    def h(a, b):
        if V.isbool(a) and V.isbool(b):
            return f(a, b)
        if V._conc(a, b):
            return g(a, b)
        raise E.Unsupported("bitwise operation on symbolic integers")
    return h


add = Ufunc("add", 2, V.add, "arith")
subtract = Ufunc("subtract", 2, V.sub, "arith")
multiply = Ufunc("multiply", 2, V.mul, "arith")
true_divide = Ufunc("true_divide", 2, V.npdiv, "float")
floor_divide = Ufunc("floor_divide", 2, _fdiv, "num")
remainder = Ufunc("remainder", 2, _npmod, "num")
power = Ufunc("power", 2, _nppow, "num")
equal = Ufunc("equal", 2, _streq, "bool")
not_equal = Ufunc("not_equal", 2, lambda a, b: V.lnot(_streq(a, b)), "bool")
less = Ufunc("less", 2, _cmp(V.lt), "bool")
less_equal = Ufunc("less_equal", 2, _cmp(V.le), "bool")
greater = Ufunc("greater", 2, _cmp(lambda a, b: V.lt(b, a)), "bool")
greater_equal = Ufunc("greater_equal", 2, _cmp(lambda a, b: V.le(b, a)), "bool")
logical_and = Ufunc("logical_and", 2, _tb(V.a_and), "bool")
logical_or = Ufunc("logical_or", 2, _tb(V.a_or), "bool")
logical_xor = Ufunc("logical_xor", 2, _tb(lambda a, b: V.a_or(V.a_and(a, V.lnot(b)), V.a_and(b, V.lnot(a)))), "bool")
logical_not = Ufunc("logical_not", 1, lambda a: V.lnot(V.castbool(a)), "bool")
invert = Ufunc("invert", 1, _inv, "num")
bitwise_and = Ufunc("bitwise_and", 2, _bit(V.a_and, lambda a, b: a & b), "num")
bitwise_or = Ufunc("bitwise_or", 2, _bit(V.a_or, lambda a, b: a | b), "num")
bitwise_xor = Ufunc("bitwise_xor", 2, _bit(lambda a, b: V.a_or(V.a_and(a, V.lnot(b)), V.a_and(b, V.lnot(a))), lambda a, b: a ^ b), "num")
negative = Ufunc("negative", 1, V.neg, "num")
positive = Ufunc("positive", 1, lambda a: a, "num")
absolute = Ufunc("absolute", 1, abs, "num")
fabs = Ufunc("fabs", 1, abs, "float")
floor = Ufunc("floor", 1, V.floor, "float")
ceil = Ufunc("ceil", 1, V.ceil, "float")
trunc = Ufunc("trunc", 1, V.trunc, "float")
rint = Ufunc("rint", 1, V.rint, "float")
sqrt = Ufunc("sqrt", 1, V.sqrt, "float")
square = Ufunc("square", 1, V.square, "num")
maximum = Ufunc("maximum", 2, V.npmax, "num")
minimum = Ufunc("minimum", 2, V.npmin, "num")
fmax = Ufunc("fmax", 2, lambda a, b: V.ite(V.a_or(V.isnan(b), V.lt(b, a)), a, b), "num")
fmin = Ufunc("fmin", 2, lambda a, b: V.ite(V.a_or(V.isnan(b), V.lt(a, b)), a, b), "num")
isnan = Ufunc("isnan", 1, V.isnan, "bool")
isinf = Ufunc("isinf", 1, V.isinf, "bool")
isfinite = Ufunc("isfinite", 1, V.isfinite, "bool")
sign = Ufunc("sign", 1, V.sign, "num")
conjugate = Ufunc("conjugate", 1, lambda a: a, "num")
reciprocal = Ufunc("reciprocal", 1, lambda a: V.npdiv(1.0, a), "float")
_pi180 = NP.pi / 180
fmod = Ufunc("fmod", 2, V.fmod, "num")
copysign = Ufunc("copysign", 2, lambda a, b: NP.copysign(a, b).item() if V._conc(a, b) else V.ite(V.lt(b, 0), V.neg(abs(a)), abs(a)), "float")
hypot = Ufunc("hypot", 2, lambda a, b: NP.hypot(a, b).item() if V._conc(a, b) else V.uf("hypot", a, b), "float")


def _mkuf(name, nin):
    real = getattr(NP, name)

    def f(*a):
        if V._conc(*a):
            return real(*a).item()
        return V.uf(name, *a)
    return Ufunc(name, nin, f, "float")


TRANS = {}
for _n in ("arccos", "arccosh", "arcsin", "arcsinh", "arctan", "arctanh", "cos", "cosh", "deg2rad", "exp2", "exp", "expm1",
           "log10", "log1p", "log2", "log", "rad2deg", "sinh", "sin", "tanh", "tan", "cbrt", "degrees", "radians"):
    TRANS[_n] = _mkuf({"degrees": "rad2deg", "radians": "deg2rad"}.get(_n, _n), 1)
for _n in ("arctan2", "logaddexp2", "logaddexp", "heaviside", "nextafter", "ldexp"):
    TRANS[_n] = _mkuf(_n, 2)


# -------------------------------------------------------------------- reductions and other functions

def _sum(a, axis=None, keepdims=False, dtype=None, out=None):
    a = asanyarray(a)
    if out is not None:
        out[...] = _sum(a, axis, keepdims, dtype)
        return out
    if dtype is not None:
        a = a.astype(todtype(dtype))
    r = _sumof(a, axis, keepdims)
    if a.dtype.kind == "f" and a.dtype.itemsize < 8:      # accumulated in the narrow type; one rounding stands for all of them
        r = r.astype(a.dtype) if isinstance(r, SymArray) else cast(r, a.dtype)
    return r


def _sumof(a, axis=None, keepdims=False):
    x = a.a
    d = a.dtype
    if d.kind == "b":
        x = castv(x, I64) if x.size else x
        d = I64
    elif d.kind == "i":
        d = I64
    if isinstance(a, SymMaskedArray) and a._mask is not NP.ma.nomask:
        y = NP.empty(x.shape, dtype=object)
        for k in NP.ndindex(*x.shape):
            y[k] = V.ite(a._mask[k], 0.0 if d.kind == "f" else 0, x[k])
        x = y
    zero = 0.0 if d.kind == "f" else 0
    if axis is None:
        out = functools.reduce(V.add, x.reshape(-1).tolist(), zero)
        return scalarize(out, d)
    if isinstance(axis, (tuple, list)):
        axes = sorted(ax % x.ndim for ax in axis)
        if len(set(axes)) != len(axes):
            raise ValueError("duplicate value in 'axis'")
        x = x.copy()
        for ax in reversed(axes):
            x = _sum1(x, ax, zero, keepdims)
    else:
        axis = int(axis)
        if not -x.ndim <= axis < x.ndim:
            raise NP.exceptions.AxisError(axis, x.ndim)
        x = _sum1(x, axis, zero, keepdims)
    return SymArray(x, d) if x.ndim or isinstance(axis, (tuple, list)) and len(axis) == 0 else scalarize(x[()], d)


def _sum1(x, ax, zero, keepdims=False):
    x = NP.moveaxis(x, ax, 0)
    out = NP.empty(x.shape[1:], dtype=object)
    for k in NP.ndindex(*out.shape):
        out[k] = functools.reduce(V.add, [x[(i,) + k] for i in range(x.shape[0])], zero)
    return NP.expand_dims(out, ax) if keepdims else out


def _reduce(f, a, axis, init):
    a = asanyarray(a)
    x = a.a

    def red(seq):
        seq = list(seq)
        if init is not None:
            return functools.reduce(f, seq, init)
        if not seq:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return functools.reduce(f, seq)
    if axis is None:
        return scalarize(red(x.reshape(-1)), a.dtype)
    axes = sorted((ax % x.ndim for ax in (axis if isinstance(axis, (tuple, list)) else [axis])), reverse=True)
    for ax in axes:
        y = NP.moveaxis(x, ax, 0)
        out = NP.empty(y.shape[1:], dtype=object)
        for k in NP.ndindex(*out.shape):
            out[k] = red(y[(i,) + k] for i in range(y.shape[0]))
        x = out
    return SymArray(x, a.dtype) if x.ndim else scalarize(x[()], a.dtype)


def cumsum(a, axis=None, **k):
    a = asarray(a)
    if axis is None or a.ndim == 1:
        x = a.a.reshape(-1).copy()
        if a.dtype.kind == "b" and x.size:
            x = castv(x, I64)
        for i in range(1, len(x)):
            x[i] = V.add(x[i - 1], x[i])
        return SymArray(x, I64 if a.dtype.kind == "b" else a.dtype)
    x = NP.moveaxis(a.a.copy(), axis, 0)
    for i in range(1, x.shape[0]):
        for kk in NP.ndindex(*x.shape[1:]):
            x[(i,) + kk] = V.add(x[(i - 1,) + kk], x[(i,) + kk])
    return SymArray(NP.moveaxis(x, 0, axis), a.dtype)


def argbest(a, axis, better):
    a = asarray(a)
    if axis is not None and a.ndim != 1:
        raise E.Unsupported("argmax with axis")
    best = 0
    f = a.a.reshape(-1)
    for i in range(1, len(f)):
        if better(f[i], f[best]):
            best = i
    return best


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    return _sum(asanyarray(a), axis, keepdims, dtype, out)


def any_(a, axis=None, **k): return asanyarray(a).any(axis)
def all_(a, axis=None, **k): return asanyarray(a).all(axis)
def amax(a, axis=None, **k): return asanyarray(a).max(axis)
def amin(a, axis=None, **k): return asanyarray(a).min(axis)
def prod(a, axis=None, **k): return asanyarray(a).prod(axis)
def mean(a, axis=None, **k): return asanyarray(a).mean(axis)


def rint_(a, decimals=0, out=None):
    if decimals != 0:
        raise E.Unsupported("round with decimals")
    if isinstance(a, SymArray) and a.dtype.kind in "ib":
        return a.copy()
    return rint(a)


def clip(a, lo=None, hi=None, out=None, **k):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        if result_dtype("num", [r]).kind == "f" and out.dtype.kind == "i":
            raise TypeError("Cannot cast ufunc 'clip' output from dtype('float64')")
        out[...] = r
        return out
    return r


def where(cond, *ab):
    cond = asarray(cond) if not isinstance(cond, SymArray) else cond
    if len(ab) == 0:
        return nonzero(cond)
    a, b = [asanyarray(x) for x in ab]
    rd = a.dtype if a.dtype == b.dtype else (result_dtype("num", [a, b]) if a.dtype.kind in "biuf" and b.dtype.kind in "biuf" else OBJ)
    if a.dtype.kind == "U" and b.dtype.kind == "U":
        rd = NP.promote_types(a.dtype, b.dtype)
    shape = NP.broadcast_shapes(cond.shape, a.shape, b.shape)
    c, x, y = (NP.broadcast_to(z.a, shape) for z in (cond, a, b))
    res = NP.empty(shape, dtype=object)
    for k in NP.ndindex(*shape):
        res[k] = V.ite(V.castbool(c[k]), cast(x[k], rd), cast(y[k], rd))
    return SymArray(res, rd)


def nonzero(a):
    m = conc_mask(asarray(a).astype(BOOL).a)
    return tuple(wrap(x) for x in NP.nonzero(m))


def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


def count_nonzero(a, axis=None, **k):
    return _sum(asarray(a).astype(BOOL), axis)


def digitize(x, bins, right=False):
    bins = asarray(bins)
    bl = bins.a.tolist()
    for p, q in zip(bl[:-1], bl[1:]):
        if not bool(V.le(p, q)):
            raise E.Unsupported("digitize with decreasing bins")
    return searchsorted(bins, x, side="left" if right else "right")


def searchsorted(a, v, side="left", sorter=None):
    a = asarray(a)
    scalar = not isinstance(v, (SymArray, list, tuple, NP.ndarray))
    v = asarray(v)
    out = NP.empty(v.shape, dtype=object)
    for k in NP.ndindex(*v.shape):
        x = v.a[k]
        n = 0
        for e in a.a:
            hit = V.le(e, x) if side == "right" else V.lt(e, x)
            hit = V.a_or(hit, V.isnan(x)) if V.isnum(x) else hit
            n = V.add(n, V.asint(hit))
        out[k] = n
    r = SymArray(out, I64)
    return r[()] if scalar and r.ndim == 0 else r


def isin(element, test, assume_unique=False, invert=False, **k):
    scalar = not isinstance(element, (SymArray, list, tuple))
    element = asarray(element)
    if isinstance(test, (set, frozenset, dict)):
        tl = [test]
    else:
        tl = list(asarray(test).a.reshape(-1))
    out = NP.empty(element.shape, dtype=object)
    for kk in NP.ndindex(*element.shape):
        hit = False
        for t in tl:
            if isinstance(t, (set, frozenset, dict)):
                continue
            hit = V.a_or(hit, _streq(element.a[kk], t) if type(t) == type(element.a[kk]) or V.isnum(t) and V.isnum(element.a[kk]) else False)
        out[kk] = V.lnot(hit) if invert else hit
    r = SymArray(out, BOOL)
    return r


def in1d(a, b, **k):
    return isin(asarray(a).ravel(), b, **k)


def _less(a, b):
    """sort order with NaN last; returns python bool (forks)"""
    if V.isnum(a) and V.isnum(b):
        an, bn = V.isnan(a), V.isnan(b)
        return bool(V.mkbool(V.Or(V.And(V.Not(V.zb(an)), V.zb(bn)), V.zb(V.lt(a, b)))))
    return bool(a < b)


def _order(lst):
    """stable insertion sort by _less"""
    idx = []
    for i in range(len(lst)):
        j = len(idx)
        while j > 0 and _less(lst[i], lst[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def sort(a, axis=-1, **k):
    a = asarray(a)
    if a.ndim != 1:
        raise E.Unsupported("sort on rank > 1")
    out = NP.empty(len(a), dtype=object)
    for i, j in enumerate(_order(list(a.a))):
        out[i] = a.a[j]
    return SymArray(out, a.dtype)


def argsort(a, *x, **k):
    return wrap(NP.array(_order(list(asarray(a).a)), dtype=NP.int64))


def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    ar = asarray(ar).ravel()
    lst = list(ar.a)
    order = _order(lst)
    groups = []
    for i in order:
        if groups:
            p = lst[groups[-1][0]]
            if V.isnum(p) and V.isnum(lst[i]):
                if bool(V.same(p, lst[i])):
                    groups[-1].append(i)
                    continue
            elif p == lst[i]:
                groups[-1].append(i)
                continue
        groups.append([i])
    u = NP.empty(len(groups), dtype=object)
    inv = NP.zeros(len(lst), dtype=NP.int64)
    for g, members in enumerate(groups):
        u[g] = lst[members[0]]
        for i in members:
            inv[i] = g
    out = [SymArray(u, ar.dtype)]
    if return_index:
        out.append(wrap(NP.array([min(g) for g in groups], dtype=NP.int64)))
    if return_inverse:
        out.append(wrap(inv))
    if return_counts:
        out.append(wrap(NP.array([len(g) for g in groups], dtype=NP.int64)))
    return out[0] if len(out) == 1 else tuple(out)


def bincount(x, weights=None, minlength=0):
    x = asarray(x)
    n = int(minlength)
    for v in x.a:
        if bool(V.lt(v, 0)):
            raise ValueError("'list' argument must have no negative elements")
    while any(bool(V.le(n, v)) for v in x.a):
        n += 1
        if n > 64:
            raise E.Unsupported("bincount length")
    w = [1] * len(x.a) if weights is None else list(asarray(weights).a)
    out = NP.empty(n, dtype=object)
    for b in range(n):
        tot = 0 if weights is None else 0.0
        for v, ww in zip(x.a, w):
            tot = V.add(tot, V.ite(V.eq(v, b), ww, 0 if weights is None else 0.0))
        out[b] = tot
    return SymArray(out, I64 if weights is None else F64)


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return (a == b).all() if a.size else True


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return isclose(a, b, rtol, atol).all()


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = asarray(a), asarray(b)
    return less_equal(absolute(a - b), add(multiply(absolute(b), rtol), atol))


def concatenate(seq, axis=0, **k):
    seq = [asanyarray(x) for x in seq]
    if any(isinstance(x, SymRec) for x in seq):
        return SymRec(NP.concatenate([x.a for x in seq], axis=axis), seq[0].names, seq[0].fdtype)
    d = functools.reduce(lambda p, q: p if p == q else NP.promote_types(p, q), [x.dtype for x in seq])
    parts = [x.astype(d).a if x.dtype != d else x.a for x in seq]
    return SymArray(NP.concatenate(parts, axis=axis), d)


def stack(seq, axis=0, **k):
    seq = [asarray(x) for x in seq]
    return SymArray(NP.stack([x.a for x in seq], axis=axis), result_dtype("num", seq) if seq[0].dtype.kind in "biuf" else seq[0].dtype)


def vstack(seq):
    return concatenate([x if x.ndim >= 2 else x.reshape(1, -1) for x in map(asarray, seq)], 0)


def hstack(seq):
    seq = [asarray(x) for x in seq]
    return concatenate(seq, 0 if seq[0].ndim == 1 else 1)


def dot(a, b):
    return _sum(multiply(a, b), -1)


def _structural(name):
    """shape-only functions: apply real numpy to the object array"""
    real = getattr(NP, name)

    def f(a, *args, **kw):
        a = asanyarray(a)
        r = real(a.a, *concretise(args), **concretise(kw))
        if isinstance(r, (list, tuple)):
            return [SymArray(x, a.dtype) for x in r]
        return SymArray(r, a.dtype) if isinstance(r, NP.ndarray) else r
    f.__name__ = name
    return f


def compress(cond, a, axis=None, **k):
    a = asanyarray(a)
    c = convindex(asarray(cond))
    return SymArray(NP.compress(c, a.a, axis), a.dtype)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = asarray(x)
    posinf = NP.finfo(float).max if posinf is None else posinf
    neginf = NP.finfo(float).min if neginf is None else neginf
    r = where(isnan(a), nan, a)
    r = where(equal(a, NP.inf), posinf, r)
    r = where(equal(a, -NP.inf), neginf, r)
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return r


def ndim(a):
    return asarray(a).ndim


def shape(a):
    return asarray(a).shape


def size(a, axis=None):
    return asarray(a).size


def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        w = NP.broadcast_to(asarray(where).a, dst.shape)
        s = NP.broadcast_to(asarray(src).a, dst.shape)
        for k in NP.ndindex(*dst.shape):
            dst.a[k] = V.ite(w[k], cast(s[k], dst.dtype), dst.a[k])


def putmask(a, mask, values):
    copyto(a, values, where=mask)


def put(a, ind, v, mode="raise"):
    flat = asarray(ind).ravel()
    vals = asarray(v).ravel()
    if len(vals) == 0:
        return
    for i in range(len(flat)):
        k = flat[i]
        k = k.concrete() if isinstance(k, V.Sym) else int(k)
        a.a[NP.unravel_index(k % a.size if -a.size <= k < a.size else k, a.shape)] = cast(vals.a[i % len(vals)], a.dtype)


# -------------------------------------------------------------------- masked arrays

masked = NP.ma.masked
nomask = NP.ma.nomask


class SymMaskedArray(SymArray):
    def __init__(self, a, dtype, mask=nomask):
        self.a = a
        self._dtype = dtype
        self._mask = mask

    def __reduce__(self):
        return (_rebuild, (SymMaskedArray, self.a.copy(), self._dtype, self._mask if self._mask is nomask else self._mask.copy()))

    @property
    def mask(self):
        return nomask if self._mask is nomask else SymArray(self._mask, BOOL)

    @mask.setter
    def mask(self, m):
        if m is nomask or m is False:
            self._mask = nomask
        else:
            self._mask = NP.broadcast_to(asarray(m).astype(BOOL).a, self.a.shape).copy()

    @property
    def data(self):
        return SymArray(self.a, self._dtype)

    _data = data

    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a = self.a.reshape(s)
        if self._mask is not nomask:
            self._mask = self._mask.reshape(s)

    def _like(self, a):
        raise E.Unsupported("masked array operation")

    def _mk(self, a, dtype):
        return SymMaskedArray(a, dtype, self._mask if self._mask is nomask else self._mask.copy())

    def _both(self, f):
        return SymMaskedArray(f(self.a), self._dtype, nomask if self._mask is nomask else f(self._mask))

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return self._both(lambda x: x.reshape(shape))

    def ravel(self, *a, **k):
        return self._both(lambda x: x.reshape(-1))

    def flatten(self, *a, **k):
        return self._both(lambda x: x.reshape(-1).copy())

    def copy(self, *a, **k):
        return self._both(lambda x: x.copy())

    def __getitem__(self, i):
        idx = convindex(i)
        r = self.a[idx]
        if isinstance(r, NP.ndarray):
            return SymMaskedArray(r, self._dtype, nomask if self._mask is nomask else self._mask[idx])
        if self._mask is not nomask and bool(self._mask[idx]):
            return masked
        return scalarize(r, self._dtype)

    def __setitem__(self, i, value):
        symbolic_mask = isinstance(i, SymArray) and i.dtype.kind == "b" and i.shape == self.shape and hassym(SymArray(i.a, BOOL))
        if value is masked:
            if self._mask is nomask:
                self._mask = zeros(self.shape, BOOL).a
            if symbolic_mask:
                for k in NP.ndindex(*self.shape):
                    self._mask[k] = V.a_or(self._mask[k], i.a[k])
            else:
                self._mask[convindex(i)] = True
            return
        if isinstance(i, SymMaskedArray):
            i = SymArray(i.a, i.dtype)
        vm = value._mask if isinstance(value, SymMaskedArray) else nomask
        if symbolic_mask and vm is nomask and not (isinstance(value, (SymArray, list, tuple)) and asarray(value).ndim > 0):
            SymArray.__setitem__(self, i, value)
            if self._mask is not nomask:
                for k in NP.ndindex(*self.shape):
                    self._mask[k] = V.a_and(self._mask[k], V.lnot(i.a[k]))
            return
        idx = convindex(i)
        if isinstance(i, SymArray):
            i = wrap(NP.asarray(idx))
        SymArray.__setitem__(self, i, SymArray(value.a, value.dtype) if isinstance(value, SymMaskedArray) else value)
        if self._mask is nomask and vm is not nomask:
            self._mask = zeros(self.shape, BOOL).a
        if self._mask is not nomask:
            self._mask[idx] = False if vm is nomask else vm

    def compressed(self):
        if self._mask is nomask:
            return SymArray(self.a.reshape(-1).copy(), self._dtype)
        keep = NP.logical_not(conc_mask(self._mask)).reshape(-1)
        return SymArray(self.a.reshape(-1)[keep], self._dtype)

    def filled(self, value=None):
        if value is None:
            value = {"f": 1e20, "i": 999999, "b": True}[self._dtype.kind]
        if self._mask is nomask:
            return SymArray(self.a.copy(), self._dtype)
        out = NP.empty(self.a.shape, dtype=object)
        value = cast(value, self._dtype)
        for k in NP.ndindex(*self.a.shape):
            out[k] = V.ite(self._mask[k], value, self.a[k])
        return SymArray(out, self._dtype)

    def count(self, axis=None):
        return self.size if self._mask is nomask else self.size - _sum(SymArray(self._mask, BOOL))

    def view(self, dtype=None, type=None):
        if dtype is SymArray or dtype is None:
            return SymArray(self.a, self._dtype) if dtype is SymArray else self
        return SymArray.view(self, dtype, type)

    def tolist(self):
        if self._mask is nomask:
            return self.a.tolist()
        return [None if bool(m) else x for x, m in zip(self.a.tolist(), self._mask.tolist())]

    def any(self, axis=None, **k): return SymArray.any(SymArray(self.filled(False if self._dtype.kind == "b" else 0).a, self._dtype), axis)
    def all(self, axis=None, **k): return SymArray.all(SymArray(self.filled(True if self._dtype.kind == "b" else 1).a, self._dtype), axis)
    def max(self, axis=None, **k): return self.compressed().max()
    def min(self, axis=None, **k): return self.compressed().min()


def ma_array(data, dtype=None, copy=False, mask=nomask, **kw):
    base = data._mask if isinstance(data, SymMaskedArray) else nomask
    dtype = todtype(dtype)
    if isinstance(data, SymArray):
        arr = SymArray(data.a, data.dtype)
        if dtype is not None and dtype != data.dtype:
            arr = arr.astype(dtype)
        elif copy:
            arr = arr.copy()
    else:
        arr = array(data, dtype)
    if mask is nomask or mask is False:
        m = base if base is nomask else base.copy()
    elif mask is True:
        m = ones(arr.shape, BOOL).a
    else:
        m = NP.broadcast_to(asarray(mask).astype(BOOL).a, arr.shape).copy()
        if base is not nomask:
            m2 = NP.empty(m.shape, dtype=object)
            for k in NP.ndindex(*m.shape):
                m2[k] = V.a_or(m[k], base[k])
            m = m2
    return SymMaskedArray(arr.a, arr.dtype, m)


def getmask(a):
    return a.mask if isinstance(a, SymMaskedArray) else nomask


def getmaskarray(a):
    if isinstance(a, SymMaskedArray) and a._mask is not nomask:
        return SymArray(a._mask, BOOL)
    return zeros(asarray(a).shape, BOOL)


def masked_where(cond, a, copy=True):
    return ma_array(a, mask=cond, copy=copy)


def _mamod():
    m = types.ModuleType("numpy.ma")
    m.masked, m.nomask = masked, nomask
    m.MaskedArray = m.masked_array = SymMaskedArray
    m.array = ma_array
    m.masked_array = ma_array
    m.asarray = m.asanyarray = lambda a, dtype=None: a if isinstance(a, SymMaskedArray) and dtype is None else ma_array(a, dtype)
    m.zeros = lambda shape, dtype=None: ma_array(zeros(shape, dtype))
    m.ones = lambda shape, dtype=None: ma_array(ones(shape, dtype))
    m.empty = lambda shape, dtype=None: ma_array(empty(shape, dtype))
    m.getmask, m.getmaskarray, m.masked_where = getmask, getmaskarray, masked_where
    m.getdata = lambda a, subok=True: SymArray(a.a, a.dtype) if isinstance(a, SymArray) else asarray(a)
    m.filled = lambda a, v=None: a.filled(v) if isinstance(a, SymMaskedArray) else a
    m.is_masked = lambda a: isinstance(a, SymMaskedArray) and a._mask is not nomask and bool(SymArray(a._mask, BOOL).any())
    m.isMaskedArray = m.isMA = m.isarray = lambda a: isinstance(a, SymMaskedArray)
    m.compressed = lambda a: a.compressed() if isinstance(a, SymMaskedArray) else asarray(a).ravel()
    m.where = lambda c, a, b: _ma_where(c, a, b)
    m.masked_invalid = lambda a, copy=True: ma_array(a, mask=logical_not(isfinite(a)), copy=copy)
    m.count = lambda a, axis=None: a.count(axis)
    for n in ("add", "subtract", "multiply", "maximum", "minimum", "floor", "ceil", "equal", "less", "greater", "logical_not"):
        setattr(m, n, globals()[n])

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        return fallback(getattr(NP.ma, name), "numpy.ma." + name)
    m.__getattr__ = __getattr__
    return m


def _ma_where(c, a, b):
    if a is masked or b is masked:
        other = b if a is masked else a
        return ma_array(NP.broadcast_to(asarray(other).a, asarray(c).shape).copy() if not isinstance(other, SymArray) else other, mask=c if a is masked else logical_not(c))
    return ma_array(where(c, a, b))


class ndenum(object):
    pass


def fallback(real, name):
    if isinstance(real, (type, NP.dtype)) or not callable(real):
        return real

    def f(*a, **k):
        e = E.cur()
        if e is not None:
            e.stats.note("concretised for " + name)
        return outside(real, a, k)
    f.__name__ = name
    return f


class errstate(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def make_module():
    m = types.ModuleType("numpy")
    g = globals()
    names = ["array", "asarray", "asanyarray", "full", "zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like", "full_like", "arange",
             "add", "subtract", "multiply", "true_divide", "floor_divide", "remainder", "power", "equal", "not_equal", "less", "less_equal",
             "greater", "greater_equal", "logical_and", "logical_or", "logical_xor", "logical_not", "invert", "bitwise_and", "bitwise_or",
             "bitwise_xor", "negative", "positive", "absolute", "fabs", "floor", "ceil", "trunc", "rint", "sqrt", "square", "maximum", "minimum",
             "fmax", "fmin", "isnan", "isinf", "isfinite", "sign", "conjugate", "reciprocal", "fmod", "copysign", "hypot",
             "cumsum", "clip", "where", "nonzero", "flatnonzero", "count_nonzero", "digitize", "searchsorted", "isin", "in1d", "sort", "argsort",
             "unique", "bincount", "array_equal", "allclose", "isclose", "concatenate", "stack", "vstack", "hstack", "dot", "compress",
             "nan_to_num", "ndim", "shape", "size", "copyto", "putmask", "put", "amax", "amin", "prod", "mean", "errstate"]
    for n in names:
        setattr(m, n, g[n])
    m.divide = true_divide
    m.mod = remainder
    m.abs = absolute
    m.conj = conjugate
    m.bitwise_not = invert
    m.float_power = power
    m.sum, m.any, m.all, m.max, m.min = sum_, any_, all_, amax, amin
    m.round = m.round_ = m.around = rint_
    m.fix = trunc
    m.ravel = lambda a, **k: asarray(a).ravel()
    m.reshape = lambda a, s, **k: asanyarray(a).reshape(s)
    m.transpose = lambda a, axes=None: asarray(a).transpose(*([] if axes is None else [axes]))
    m.copy = lambda a, **k: array(a)
    m.ascontiguousarray = asarray
    m.atleast_1d = lambda a: asarray(a) if asarray(a).ndim else asarray(a).reshape(1)
    m.extract = lambda c, a: compress(asarray(c).ravel(), asarray(a).ravel())
    m.take = lambda a, i, axis=None, **k: asarray(a).take(i, axis)
    m.argmax = lambda a, axis=None: asarray(a).argmax(axis)
    m.argmin = lambda a, axis=None: asarray(a).argmin(axis)
    m.isscalar = lambda x: isinstance(x, V.Sym) or NP.isscalar(x)
    m.iterable = NP.iterable
    for n in ("broadcast_to", "expand_dims", "squeeze", "moveaxis", "swapaxes", "rollaxis", "repeat", "tile", "roll", "flip", "delete", "split", "array_split", "diagonal"):
        setattr(m, n, _structural(n))
    for n, f in TRANS.items():
        setattr(m, n, f)
    m.ndarray = SymArray
    m.recarray = SymRec
    m.ufunc = Ufunc
    m.ma = _mamod()
    for n in ("float64", "float32", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "integer", "floating", "number",
              "generic", "str_", "bytes_", "void", "object_", "dtype", "pi", "e", "inf", "nan", "newaxis", "finfo", "iinfo", "intp", "character", "inexact", "signedinteger", "unsignedinteger", "complexfloating", "complex128", "bool_"):
        setattr(m, n, getattr(NP, n))
    for n in ("float64", "float32", "float16", "int64", "int32", "int16", "int8"):
        setattr(m, n, scalartype(getattr(NP, n)))
    m.float_ = m.double = m.float64
    m.single, m.half = m.float32, m.float16
    m.int_ = m.int64
    m.bool = bool
    m.int, m.float, m.object, m.str = int, float, object, str
    m.NaN = m.NAN = NP.nan
    m.Inf = m.Infinity = m.infty = m.PINF = NP.inf
    m.NINF = -NP.inf
    m.seterr = lambda *a, **k: {}
    m.__version__ = "1.22.4"
    m.__path__ = []
    m.random = None

    def __getattr__(name):
        if name.startswith("__") or not hasattr(NP, name):
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        return fallback(getattr(NP, name), "numpy." + name)
    m.__getattr__ = __getattr__
    return m
