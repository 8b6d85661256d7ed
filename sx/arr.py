"""numpy arrays of symbolic values, and the numpy stand-in seen by kmcpy code.

SymArray is an object-dtype ndarray subclass that remembers the *declared* dtype
kind ('b','i','f' or 'O') so that stores are cast as a real numeric array would
cast them.  Operations that real numpy would run in C over doubles are run
elementwise over exact values instead.
"""
from __future__ import annotations

import math
import types

import numpy as np

from . import core
from .core import (
    SymBool,
    SymNum,
    Unsupported,
    engine,
    is_sym,
    ite,
    land,
    lnot,
    lor,
    mkbool,
    unnp,
)

# ------------------------------------------------------------------ kinds


def kind_of(dt):
    if dt is None:
        return None
    k = getattr(dt, "_sx_kind", None)
    if k:
        return k
    try:
        d = np.dtype(dt)
    except TypeError:
        return "O"
    if d.kind in "iu":
        return "i"
    if d.kind in "fb":
        return d.kind
    if d.kind in "c":
        return "c"
    return "O" if d.kind == "O" else d.kind


def cast_scalar(x, kind):
    if kind in (None, "O"):
        return x
    x = x if is_sym(x) else unnp(x)
    if kind == "f":
        if isinstance(x, SymBool):
            x = x._n()
        if isinstance(x, SymNum):
            return x.tofloat()
        return float(x)
    if kind == "i":
        if is_sym(x):
            return core.trunc(x)
        if isinstance(x, float) and not math.isfinite(x):
            return -(2**63)
        return int(x)
    if kind == "b":
        if isinstance(x, SymBool):
            return x
        if isinstance(x, SymNum):
            return x != 0
        return bool(x)
    return x


def scalar_kind(x):
    if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, SymNum):
        return "i" if x.isint else "f"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    return "O"


_RANK = {"b": 0, "i": 1, "f": 2, "c": 3, "O": 4}


def join(*ks):
    ks = [k for k in ks if k]
    return max(ks, key=lambda k: _RANK.get(k, 4)) if ks else "f"


def arr_kind(a):
    if isinstance(a, SymArray):
        return a._kind
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return join(*[scalar_kind(x) for x in a.flat]) if a.size else "O"
        return kind_of(a.dtype)
    return scalar_kind(a)


_DT = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(np.float64), "O": np.dtype(object)}


def boxed(x, kind=None):
    """Array element as numpy would hand it out."""
    if isinstance(x, SymNum):
        if not x.npf:
            y = SymNum(x.e, x.isint)
            y.npf = True
            return y
        return x
    if isinstance(x, SymBool):
        return x
    if kind == "f" and isinstance(x, (int, float)):
        return np.float64(x)
    if kind == "i" and isinstance(x, int):
        return np.int64(x)
    if kind == "b" and isinstance(x, (bool, int)):
        return np.bool_(x)
    return x


# ------------------------------------------------------------------ SymArray


class SymArray(np.ndarray):
    def __new__(cls, data, kind=None):
        raw = np.ndarray.view(_objarray(data), cls)
        raw._kind = kind or "O"
        return raw

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", "O")

    @property
    def dtype(self):
        return _DT.get(self._kind, np.dtype(object))

    # -- indexing
    def __getitem__(self, key):
        k = _conc_key(self, key)
        if isinstance(k, _SymIndex):
            return boxed(k.select(self), self._kind)
        r = np.ndarray.__getitem__(self, k)
        if isinstance(r, np.ndarray):
            if not isinstance(r, SymArray):
                r = wrap(r, self._kind)
            else:
                r._kind = self._kind
            return r
        return boxed(r, self._kind)

    def __setitem__(self, key, value):
        if isinstance(key, SymNum) and self.ndim == 1:
            n = len(self)
            inb = land(key >= -n, key < n)
            if not bool(inb):
                raise IndexError("index out of bounds")
            v = cast_scalar(value, self._kind)
            for j in range(n):
                hit = lor(key == j, key == j - n)
                cur = np.ndarray.__getitem__(self, j)
                np.ndarray.__setitem__(self, j, ite(hit, v, cur))
            return
        k = _conc_key(self, key, store=True)
        if isinstance(value, (list, tuple)) or isinstance(value, np.ndarray):
            va = as_sym(value)
            out = np.empty(va.shape, dtype=object)
            vb = va.view(np.ndarray)
            for idx in np.ndindex(*va.shape):
                out[idx] = cast_scalar(vb[idx], self._kind)
            np.ndarray.__setitem__(self, k, out if out.ndim else out.item())
        else:
            np.ndarray.__setitem__(self, k, cast_scalar(value, self._kind))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(lor(*[y == x for y in self.view(np.ndarray).flat]))

    def tolist(self):
        return np.ndarray.view(self, np.ndarray).tolist()

    def item(self, *a):
        return np.ndarray.view(self, np.ndarray).item(*a)

    def astype(self, dt, **kw):
        k = kind_of(dt)
        if k not in ("b", "i", "f", "O"):
            return np.array(self.tolist(), dtype=dt)
        out = np.empty(self.shape, dtype=object)
        src = self.view(np.ndarray)
        for idx in np.ndindex(*self.shape):
            out[idx] = cast_scalar(src[idx], k)
        return wrap(out, k)

    def copy(self, order="C"):
        r = np.ndarray.copy(self, order)
        r = r.view(SymArray)
        r._kind = self._kind
        return r

    def __deepcopy__(self, memo):
        if self._kind == "O":
            import copy as _c

            out = np.empty(self.shape, dtype=object)
            for idx in np.ndindex(*self.shape):
                out[idx] = _c.deepcopy(self.view(np.ndarray)[idx], memo)
            return wrap(out, "O")
        return self.copy()

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).flat[0])
        if self.size == 0:
            return False
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()"
        )

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim or self._kind != "i":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        x = self.item()
        return x.__index__()

    # -- reductions etc. route through the shim
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return NP.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, **kw):
        return NP.prod(self, axis=axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return NP.mean(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, **kw):
        return NP.any(self, axis=axis)

    def all(self, axis=None, **kw):
        return NP.all(self, axis=axis)

    def max(self, axis=None, **kw):
        return NP.max(self, axis=axis, **kw)

    def min(self, axis=None, **kw):
        return NP.min(self, axis=axis, **kw)

    def argmin(self, axis=None, **kw):
        return NP.argmin(self, axis=axis)

    def argmax(self, axis=None, **kw):
        return NP.argmax(self, axis=axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return NP.cumsum(self, axis=axis, out=out)

    def dot(self, o):
        return NP.dot(self, o)

    def round(self, decimals=0, out=None):
        return NP.round(self, decimals)

    def clip(self, lo=None, hi=None, **kw):
        return NP.clip(self, lo, hi)

    def nonzero(self):
        return NP.nonzero(self)

    def sort(self, axis=-1, **kw):
        if self.ndim != 1:
            raise Unsupported("sort nd")
        vals = sorted(self.view(np.ndarray).tolist())
        for i, v in enumerate(vals):
            np.ndarray.__setitem__(self, i, v)

    def argsort(self, axis=-1, **kw):
        return NP.argsort(self)

    def searchsorted(self, v, side="left", sorter=None):
        return NP.searchsorted(self, v, side=side)

    def fill(self, v):
        self[...] = v

    def __matmul__(self, o):
        return NP.matmul(self, o)

    def __rmatmul__(self, o):
        return NP.matmul(o, self)

    def tobytes(self, *a, **k):
        return np.array(self.tolist(), dtype=_DT[self._kind]).tobytes(*a, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        impl = NP_FUNCS.get(name)
        if func.__module__ in ("numpy.linalg", "numpy.linalg._linalg"):
            impl = LINALG_FUNCS.get(name, impl)
        if impl is not None:
            return impl(*args, **kwargs)
        return default_call(func, args, kwargs)

    def __reduce__(self):
        return (np.array, (self.tolist(),))

    def __repr__(self):
        return f"symarray({self.tolist()!r})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class _SymIndex:
    def __init__(self, idx):
        self.idx = idx

    def select(self, a):
        n = len(a)
        idx = self.idx
        inb = land(idx >= -n, idx < n)
        if not bool(inb):
            raise IndexError("index out of bounds")
        raw = a.view(np.ndarray)
        elems = [raw[i] for i in range(n)]
        if any(not isinstance(unnp(x), (bool, int, float, SymNum, SymBool)) for x in elems) or any(
            isinstance(x, float) and not math.isfinite(x) for x in elems
        ):
            return raw[idx.__index__()]
        res = elems[-1]
        for j in range(n - 2, -1, -1):
            res = ite(lor(idx == j, idx == j - n), elems[j], res)
        return res


def _conc_key(a, key, store=False):
    """Make an index usable by real numpy; symbolic parts fork."""
    if isinstance(key, SymNum):
        if a.ndim == 1 and not store:
            return _SymIndex(key)
        return key.__index__()
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, SymArray):
        raw = key.view(np.ndarray)
        if key._kind == "b":
            return np.array([bool(x) for x in raw.flat], dtype=bool).reshape(raw.shape)
        if key._kind == "i" or key.size == 0:
            return np.array([int(x.__index__()) for x in raw.flat], dtype=np.int64).reshape(raw.shape)
        if key._kind == "O" and all(scalar_kind(x) in "bi" for x in raw.flat):
            if all(scalar_kind(x) == "b" for x in raw.flat):
                return np.array([bool(x) for x in raw.flat], dtype=bool).reshape(raw.shape)
            return np.array([x.__index__() for x in raw.flat], dtype=np.int64).reshape(raw.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(key, tuple):
        return tuple(
            _conc_key2(k) for k in key
        )
    if isinstance(key, list):
        if any(is_sym(k) for k in key):
            if all(scalar_kind(k) == "b" for k in key):
                return [bool(k) for k in key]
            return [k.__index__() for k in key]
        return [unnp(k) for k in key]
    return key


def _conc_key2(k):
    if isinstance(k, SymNum):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, (SymArray, list)):
        return _conc_key(None, k, True)
    if isinstance(k, slice):
        f = lambda v: v.__index__() if is_sym(v) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def _objarray(data):
    if isinstance(data, np.ndarray):
        if isinstance(data, SymArray):
            return data.view(np.ndarray)
        if data.dtype == object:
            return data
        out = np.empty(data.shape, dtype=object)
        for idx in np.ndindex(*data.shape):
            out[idx] = data[idx].item()
        return out
    if is_sym(data) or not hasattr(data, "__len__") or isinstance(data, (str, bytes)):
        out = np.empty((), dtype=object)
        out[()] = unnp(data)
        return out
    # nested sequences
    shape = _shape_of(data)
    out = np.empty(shape, dtype=object)
    _fill(out, (), data, len(shape))
    return out


def _shape_of(d):
    if isinstance(d, np.ndarray):
        return d.shape
    if is_sym(d) or isinstance(d, (str, bytes, dict)) or not hasattr(d, "__len__"):
        return ()
    n = len(d)
    if n == 0:
        return (0,)
    subs = [_shape_of(x) for x in d]
    s0 = subs[0]
    if any(s != s0 for s in subs):
        raise ValueError(
            "setting an array element with a sequence. The requested array has an inhomogeneous shape"
        )
    return (n,) + s0


def _fill(out, idx, d, depth):
    if depth == 0:
        out[idx] = unnp(d.item() if isinstance(d, np.ndarray) else d)
        return
    for i in range(len(d)):
        _fill(out, idx + (i,), d[i], depth - 1)


def wrap(a, kind=None):
    if isinstance(a, SymArray) and kind is None:
        return a
    if not isinstance(a, np.ndarray):
        return a
    if kind is None:
        kind = arr_kind(a)
    o = _objarray(a)
    r = o.view(SymArray)
    r._kind = kind
    return r


def as_sym(x, dtype=None):
    """np.asarray analogue."""
    k = kind_of(dtype)
    if isinstance(x, SymArray) and (k is None or k == x._kind):
        return x
    if isinstance(x, SymArray):
        return x.astype(dtype)
    o = _objarray(x)
    if k is None:
        if isinstance(x, np.ndarray) and x.dtype != object:
            k = kind_of(x.dtype)
        else:
            k = join(*[scalar_kind(v) for v in o.flat]) if o.size else "f"
    if k in ("b", "i", "f"):
        out = np.empty(o.shape, dtype=object)
        for idx in np.ndindex(*o.shape):
            out[idx] = cast_scalar(o[idx], k)
        o = out
    return wrap(o, k)


def numeric_like(x):
    """Should np.array(x) become a SymArray (numbers/booleans only)?"""
    try:
        if isinstance(x, SymArray):
            return True
        if isinstance(x, np.ndarray):
            return x.dtype.kind in "biuf" or (
                x.dtype == object and all(scalar_kind(v) != "O" for v in x.flat)
            )
        o = _objarray(x)
    except ValueError:
        return False
    if o.size == 0:
        return True
    return all(scalar_kind(v) != "O" for v in o.flat)


# ------------------------------------------------------------------ ufuncs


def _np_div(a, b):
    """true division with numpy zero semantics."""
    if is_sym(a) or is_sym(b):
        a_ = boxed(a) if is_sym(a) else float(a)
        b_ = boxed(b) if is_sym(b) else np.float64(b)
        return a_ / b_
    with np.errstate(all="ignore"):
        return (np.float64(a) / np.float64(b)).item()


def _fn(name):
    def f(x):
        x = unnp(x)
        if isinstance(x, SymBool):
            x = x._n()
        if isinstance(x, SymNum):
            return getattr(x, name)()
        with np.errstate(all="ignore"):
            return float(getattr(np, name)(float(x)))

    return f


def _isfinite(x):
    x = unnp(x)
    return True if is_sym(x) else bool(np.isfinite(x))


def _isnan(x):
    x = unnp(x)
    return False if is_sym(x) else bool(np.isnan(x))


def _isinf(x):
    x = unnp(x)
    return False if is_sym(x) else bool(np.isinf(x))


def _mod(a, b):
    if is_sym(a) or is_sym(b):
        return (boxed(a) if is_sym(a) else a) % (boxed(b) if is_sym(b) else b)
    with np.errstate(all="ignore"):
        return np.mod(a, b).item()


def _fdiv(a, b):
    if is_sym(a) or is_sym(b):
        return (boxed(a) if is_sym(a) else a) // (boxed(b) if is_sym(b) else b)
    with np.errstate(all="ignore"):
        return np.floor_divide(a, b).item()


def smax(a, b):
    a, b = unnp(a), unnp(b)
    for v in (a, b):
        if isinstance(v, float) and math.isnan(v):
            return v
    c = a >= b
    return ite(c, a, b)


def smin(a, b):
    a, b = unnp(a), unnp(b)
    for v in (a, b):
        if isinstance(v, float) and math.isnan(v):
            return v
    c = a <= b
    return ite(c, a, b)


def _tb(x):
    x = unnp(x)
    if isinstance(x, SymNum):
        return x != 0
    if isinstance(x, SymBool):
        return x
    return bool(x)


def _sign(x):
    x = unnp(x)
    if not is_sym(x):
        return (x > 0) - (x < 0)
    return ite(x > 0, 1, ite(x < 0, -1, 0))


def _inv(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    if isinstance(x, SymBool):
        return ~x
    return ~x


def _pow(a, b):
    if is_sym(a) or is_sym(b):
        return (boxed(a) if is_sym(a) else a) ** b
    return np.power(a, b).item() if not (isinstance(a, int) and isinstance(b, int) and b < 0) else float(a) ** b


def _and(a, b):
    ka, kb = scalar_kind(a), scalar_kind(b)
    if ka == "b" and kb == "b":
        return land(_tb(a), _tb(b))
    return unnp(a) & unnp(b)


def _or(a, b):
    ka, kb = scalar_kind(a), scalar_kind(b)
    if ka == "b" and kb == "b":
        return lor(_tb(a), _tb(b))
    return unnp(a) | unnp(b)


def _xor(a, b):
    ka, kb = scalar_kind(a), scalar_kind(b)
    if ka == "b" and kb == "b":
        a, b = _tb(a), _tb(b)
        return lor(land(a, lnot(b)), land(lnot(a), b))
    return unnp(a) ^ unnp(b)


def _add(a, b):
    if scalar_kind(a) == "b" and scalar_kind(b) == "b":
        return lor(_tb(a), _tb(b))
    return unnp(a) + unnp(b)


def _eq(a, b):
    r = unnp(a) == unnp(b)
    return r


# name -> (fn, result-kind rule)
UF = {
    "add": (_add, "join"),
    "subtract": (lambda a, b: unnp(a) - unnp(b), "join"),
    "multiply": (lambda a, b: unnp(a) * unnp(b), "join"),
    "divide": (_np_div, "f"),
    "true_divide": (_np_div, "f"),
    "floor_divide": (_fdiv, "join"),
    "remainder": (_mod, "join"),
    "mod": (_mod, "join"),
    "power": (_pow, "join"),
    "float_power": (_pow, "f"),
    "negative": (lambda a: -unnp(a), "join"),
    "positive": (lambda a: a, "join"),
    "absolute": (lambda a: abs(unnp(a)), "join"),
    "fabs": (lambda a: abs(unnp(a)), "f"),
    "sign": (_sign, "join"),
    "exp": (_fn("exp"), "f"),
    "log": (_fn("log"), "f"),
    "sqrt": (_fn("sqrt"), "f"),
    "rint": (_fn("rint"), "f"),
    "floor": (_fn("floor"), "f"),
    "ceil": (_fn("ceil"), "f"),
    "trunc": (lambda x: cast_scalar(core.trunc(x), "f"), "f"),
    "square": (lambda a: unnp(a) * unnp(a), "join"),
    "reciprocal": (lambda a: _np_div(1.0, a), "f"),
    "equal": (_eq, "b"),
    "not_equal": (lambda a, b: unnp(a) != unnp(b), "b"),
    "less": (lambda a, b: unnp(a) < unnp(b), "b"),
    "less_equal": (lambda a, b: unnp(a) <= unnp(b), "b"),
    "greater": (lambda a, b: unnp(a) > unnp(b), "b"),
    "greater_equal": (lambda a, b: unnp(a) >= unnp(b), "b"),
    "logical_and": (lambda a, b: land(_tb(a), _tb(b)), "b"),
    "logical_or": (lambda a, b: lor(_tb(a), _tb(b)), "b"),
    "logical_not": (lambda a: lnot(_tb(a)), "b"),
    "logical_xor": (lambda a, b: _xor(_tb(a), _tb(b)), "b"),
    "bitwise_and": (_and, "join"),
    "bitwise_or": (_or, "join"),
    "bitwise_xor": (_xor, "join"),
    "invert": (_inv, "join"),
    "isfinite": (_isfinite, "b"),
    "isnan": (_isnan, "b"),
    "isinf": (_isinf, "b"),
    "maximum": (smax, "join"),
    "minimum": (smin, "join"),
    "fmax": (smax, "join"),
    "fmin": (smin, "join"),
    "deg2rad": (lambda a: unnp(a) * (math.pi / 180), "f"),
}

_INIT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def _elementwise(fn, args, rule):
    objs = [_objarray(a) if not isinstance(a, SymArray) else a.view(np.ndarray) for a in args]
    bs = np.broadcast(*objs) if len(objs) > 1 else None
    shape = bs.shape if bs is not None else objs[0].shape
    objs = [np.broadcast_to(o, shape) for o in objs]
    if rule == "join":
        kind = join(*[arr_kind(a) for a in args])
    else:
        kind = rule
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        v = fn(*[o[idx] for o in objs])
        out[idx] = unnp(v) if kind == "O" else cast_scalar(unnp(v), kind)
    if shape == ():
        return boxed(out[()], kind)
    return wrap(out, kind)


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.get("out")
    ent = UF.get(name)
    if name == "matmul":
        r = NP.matmul(*inputs)
    elif ent is None:
        raise Unsupported(f"ufunc {name}")
    elif method == "__call__":
        if kwargs.get("where", True) is not True:
            raise Unsupported("ufunc where=")
        fn, rule = ent
        r = _elementwise(fn, inputs, rule)
    elif method == "reduce":
        r = reduce_(ent[0], inputs[0], kwargs.get("axis", 0), kwargs.get("keepdims", False), name, ent[1])
    elif method == "accumulate":
        r = accumulate_(ent[0], inputs[0], kwargs.get("axis", 0))
    elif method == "outer":
        a, b = as_sym(inputs[0]), as_sym(inputs[1])
        r = _elementwise(ent[0], (a.reshape(a.shape + (1,) * b.ndim), b), ent[1])
    elif method == "at":
        a, idx = inputs[0], inputs[1]
        idx = as_sym(idx)
        val = as_sym(inputs[2]) if len(inputs) > 2 else None
        for n, i in enumerate(idx.view(np.ndarray).flat):
            v = val.view(np.ndarray).flat[n if val.size > 1 else 0]
            a[i] = ent[0](a[i], v)
        return None
    else:
        raise Unsupported(f"ufunc method {method}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if isinstance(o, SymArray):
            o[...] = r
        elif isinstance(o, np.ndarray):
            np.ndarray.__setitem__(o, Ellipsis, np.asarray(r, dtype=object))
        else:
            raise Unsupported("out=")
        return o
    return r


def reduce_(fn, a, axis, keepdims, name, rule="join"):
    a = as_sym(a)
    raw = a.view(np.ndarray)
    kind = a._kind
    if rule == "b":
        kind = "b"
    elif name in ("add", "multiply") and kind == "b":
        kind = "i"
        fnn = fn
        fn = (lambda x, y: unnp(x) + unnp(y)) if name == "add" else (lambda x, y: unnp(x) * unnp(y))
        raw = a.astype(int).view(np.ndarray)
    if axis is None:
        items = list(raw.flat)
        return boxed(_fold(fn, items, name, kind), kind)
    if isinstance(axis, tuple):
        for ax in sorted([x % raw.ndim for x in axis], reverse=True):
            a = reduce_(fn, a, ax, keepdims, name, rule)
        return a
    axis = axis % raw.ndim
    moved = np.moveaxis(raw, axis, 0)
    out = np.empty(moved.shape[1:], dtype=object)
    for idx in np.ndindex(*moved.shape[1:]):
        out[idx] = _fold(fn, [moved[(i,) + idx] for i in range(moved.shape[0])], name, kind)
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.shape == ():
        return boxed(out[()], kind)
    return wrap(out, kind)


def _fold(fn, items, name, kind):
    if not items:
        if name in _INIT:
            return cast_scalar(_INIT[name], kind)
        raise ValueError("zero-size array to reduction operation which has no identity")
    acc = items[0]
    if name in ("logical_and", "logical_or"):
        acc = _tb(acc)
    for x in items[1:]:
        acc = fn(acc, x)
    return unnp(acc)


def accumulate_(fn, a, axis):
    a = as_sym(a)
    raw = a.view(np.ndarray)
    axis = axis % raw.ndim
    moved = np.moveaxis(raw, axis, 0)
    out = np.empty(moved.shape, dtype=object)
    for i in range(moved.shape[0]):
        for idx in np.ndindex(*moved.shape[1:]):
            out[(i,) + idx] = moved[(i,) + idx] if i == 0 else fn(out[(i - 1,) + idx], moved[(i,) + idx])
    return wrap(np.moveaxis(out, 0, axis), a._kind)


# ------------------------------------------------------------------ functions


def _plain(x):
    """Strip SymArray wrappers so that the real numpy sees object arrays."""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [_plain(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_plain(v) for v in x)
    return x


def _kinds_in(x, acc):
    if isinstance(x, np.ndarray):
        acc.append(arr_kind(x))
    elif isinstance(x, (list, tuple)):
        for v in x:
            _kinds_in(v, acc)
    return acc


def default_call(func, args, kwargs):
    """Structural numpy functions (reshape, concatenate, ...) on object arrays."""
    kinds = _kinds_in(list(args) + list(kwargs.values()), [])
    kw = {k: _plain(v) for k, v in kwargs.items()}
    if "dtype" in kw and kw["dtype"] is not None:
        kinds = [kind_of(kw.pop("dtype"))]
    r = func(*_plain(tuple(args)), **kw)
    kind = join(*kinds) if kinds else None

    def w(v):
        if isinstance(v, np.ndarray) and v.dtype == object:
            return wrap(v, kind)
        if isinstance(v, (tuple, list)):
            return type(v)(w(q) for q in v)
        if isinstance(v, np.ndarray) and v.dtype.kind in "biuf":
            return wrap(v)
        return v

    return w(r)


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        return x.dtype == object and any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def _mk(name):
    ent = UF[name]
    real = getattr(np, name)

    def f(*args, out=None, where=True, dtype=None, **kw):
        if any(isinstance(a, np.ndarray) and a.dtype.kind not in "biufO" for a in args if not isinstance(a, SymArray)):
            return real(*args, **kw)
        if name in ("equal", "not_equal") and any(
            isinstance(a, str) or (isinstance(a, np.ndarray) and not isinstance(a, SymArray) and a.dtype.kind in "US")
            for a in args
        ):
            return real(*args, **kw)
        r = ufunc_dispatch(real, "__call__", args, {"out": out} if out is not None else {})
        if dtype is not None and isinstance(r, SymArray):
            return r.astype(dtype)
        return r

    f.reduce = lambda a, axis=0, **kw: ufunc_dispatch(real, "reduce", (a,), {"axis": axis, **{k: v for k, v in kw.items() if k == "keepdims"}})
    f.accumulate = lambda a, axis=0, **kw: ufunc_dispatch(real, "accumulate", (a,), {"axis": axis})
    f.outer = lambda a, b, **kw: ufunc_dispatch(real, "outer", (a, b), {})
    f.at = lambda *a: ufunc_dispatch(real, "at", a, {})
    f.__name__ = name
    return f


class NPShim(types.ModuleType):
    """What `import numpy as np` binds to inside the code under test."""

    def __init__(self):
        super().__init__("numpy")
        self.linalg = LinalgShim()
        self.random = RandomShim()
        ch = types.SimpleNamespace(chebvander=np_chebvander)
        self.polynomial = types.SimpleNamespace(chebyshev=ch)

    def __getattr__(self, name):
        if name in NP_FUNCS:
            return NP_FUNCS[name]
        if name in UF:
            f = _mk(name)
            NP_FUNCS[name] = f
            return f
        v = getattr(np, name)
        if isinstance(v, np.ufunc) and v.__name__ in UF:
            f = _mk(v.__name__)
            NP_FUNCS[name] = f
            return f
        if isinstance(v, type):
            return TYPE_MAP.get(name, v)
        if callable(v):
            def g(*a, _v=v, **k):
                if has_numeric(a) or has_numeric(tuple(k.values())):
                    return default_call(_v, a, k)
                return _wrapr(_v(*a, **k))

            g.__name__ = name
            return g
        return v


def has_numeric(args):
    return any(isinstance(a, SymArray) or has_sym(a) or (isinstance(a, (list, tuple)) and has_numeric(a)) for a in args)


def _wrapr(r):
    if isinstance(r, np.ndarray) and r.dtype.kind in "biuf" and not isinstance(r, SymArray):
        return wrap(r)
    if isinstance(r, tuple):
        return tuple(_wrapr(x) for x in r)
    return r


# -- scalar type stand-ins


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, (SymNum, SymBool)):
            return cls._symcheck(x)
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, sub):
        r = getattr(sub, "_real", sub)
        try:
            return issubclass(r, cls._real)
        except TypeError:
            return False

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        if name in ("dtype",) and "_sx_kind" in cls.__dict__ and cls._sx_kind in _DT:
            return cls._npdtype
        return getattr(cls._real, name)


def mktype(real, kind, symcheck, make, npdtype=None):
    return _TypeMeta(
        real.__name__,
        (),
        {
            "_real": real,
            "_sx_kind": kind,
            "_symcheck": staticmethod(symcheck),
            "_make": staticmethod(make),
            "_npdtype": np.dtype(npdtype or real) if kind in _DT else None,
            "dtype": np.dtype(npdtype or real) if kind in _DT else None,
            "__module__": real.__module__,
        },
    )


def _np_make(real, kind):
    def make(x=0, *a, **k):
        if isinstance(x, SymArray) and x.ndim:
            return x.astype(real)
        if isinstance(x, SymArray):
            x = x.item()
        if is_sym(x):
            return boxed(cast_scalar(x, kind))
        if isinstance(x, (list, tuple)):
            return as_sym(x, real)
        return real(x, *a, **k)

    return make


_isI = lambda x: isinstance(x, SymNum) and x.isint
_isF = lambda x: isinstance(x, SymNum) and not x.isint
_isB = lambda x: isinstance(x, SymBool)
TYPE_MAP = {}
for _n in ("int64", "int32", "intp", "int_", "int8", "int16", "uint8", "uint64"):
    if hasattr(np, _n):
        TYPE_MAP[_n] = mktype(getattr(np, _n), "i", lambda x: _isI(x) and x.npf, _np_make(getattr(np, _n), "i"))
for _n in ("float64", "float32", "double"):
    if hasattr(np, _n):
        TYPE_MAP[_n] = mktype(getattr(np, _n), "f", lambda x: _isF(x) and x.npf, _np_make(getattr(np, _n), "f"))
TYPE_MAP["bool_"] = mktype(np.bool_, "b", _isB, _np_make(np.bool_, "b"))
if hasattr(np, "bool"):
    TYPE_MAP["bool"] = TYPE_MAP["bool_"]


def _abstract(real, check):
    return mktype(real, None, check, lambda *a, **k: real(*a, **k))


TYPE_MAP["integer"] = _abstract(np.integer, lambda x: _isI(x) and x.npf)
TYPE_MAP["signedinteger"] = TYPE_MAP["integer"]
TYPE_MAP["floating"] = _abstract(np.floating, lambda x: _isF(x) and x.npf)
TYPE_MAP["number"] = _abstract(np.number, lambda x: isinstance(x, SymNum) and x.npf)
TYPE_MAP["generic"] = _abstract(np.generic, lambda x: isinstance(x, SymBool) or x.npf)


# -- constructors


def np_array(x, dtype=None, copy=True, ndmin=0, **kw):
    k = kind_of(dtype)
    if k in ("b", "i", "f") or (dtype is None and numeric_like(x)):
        if not hasattr(x, "__len__") and hasattr(x, "__array__") and not is_sym(x):
            x = np.asarray(x)
        r = as_sym(x, dtype)
        if r is x or (isinstance(x, np.ndarray) and np.shares_memory(r.view(np.ndarray), x)):
            r = r.copy()
        while r.ndim < ndmin:
            r = r[None]
        return r
    if k == "O":
        r = wrap(_objarray_loose(x), "O")
        return r.copy() if r is x else r
    if dtype is not None:
        return np.array(_untag(x), dtype=dtype, **({"ndmin": ndmin} if ndmin else {}))
    return np.array(x, **({"ndmin": ndmin} if ndmin else {}))


def _untag(x):
    return x.tolist() if isinstance(x, SymArray) else x


def _objarray_loose(x):
    try:
        return _objarray(x)
    except ValueError:
        return np.array(x, dtype=object)


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SymArray) and (dtype is None or kind_of(dtype) == x._kind):
        return x
    return np_array(x, dtype=dtype)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(v.__index__() for v in s)
    if isinstance(s, np.ndarray):
        return tuple(int(v) for v in s.tolist())
    return (s.__index__(),)


def _filled(shape, val, kind):
    out = np.empty(_shape(shape), dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = cast_scalar(val, kind)
    return wrap(out, kind)


def np_zeros(shape, dtype=float, **kw):
    k = kind_of(dtype)
    if k not in _DT:
        return np.zeros(shape, dtype=dtype)
    return _filled(shape, 0, k) if k != "O" else _filled(shape, 0, k)


def np_empty(shape, dtype=float, **kw):
    k = kind_of(dtype)
    if k not in _DT:
        return np.empty(shape, dtype=dtype)
    if k == "O":
        return wrap(np.empty(_shape(shape), dtype=object), "O")
    return _filled(shape, 0, k)


def np_ones(shape, dtype=float, **kw):
    return _filled(shape, 1, kind_of(dtype))


def np_full(shape, v, dtype=None, **kw):
    k = kind_of(dtype) or scalar_kind(v)
    if k not in _DT or (k == "O" and dtype is None):
        return np.full(shape, v, dtype=dtype)
    if isinstance(v, (list, tuple, np.ndarray)):
        out = _filled(shape, 0, k)
        out[...] = v
        return out
    return _filled(shape, v, k)


def np_arange(*a, dtype=None, **kw):
    a = [v.__index__() if isinstance(v, SymNum) and v.isint else v for v in a]
    return wrap(np.arange(*a, dtype=_real_dt(dtype)))


def _real_dt(dt):
    return getattr(dt, "_npdtype", dt)


def np_eye(n, m=None, k=0, dtype=float, **kw):
    return wrap(np.eye(int(n), m, k, dtype=_real_dt(dtype)))


def np_zeros_like(a, dtype=None, **kw):
    return _filled(np.shape(a), 0, kind_of(dtype) or arr_kind(a))


def np_ones_like(a, dtype=None, **kw):
    return _filled(np.shape(a), 1, kind_of(dtype) or arr_kind(a))


def np_full_like(a, v, dtype=None, **kw):
    return _filled(np.shape(a), v, kind_of(dtype) or arr_kind(a))


def np_empty_like(a, dtype=None, **kw):
    return _filled(np.shape(a), 0, kind_of(dtype) or arr_kind(a))


# -- reductions


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    if not isinstance(a, np.ndarray) and hasattr(a, "__next__"):
        a = list(a)
    r = reduce_(UF["add"][0], a, axis, keepdims, "add")
    if "initial" in kw:
        r = r + kw["initial"]
    return r


def np_prod(a, axis=None, dtype=None, **kw):
    return reduce_(UF["multiply"][0], a, axis, kw.get("keepdims", False), "multiply")


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = as_sym(a)
    s = reduce_(UF["add"][0], a, axis, keepdims, "add")
    n = a.size if axis is None else (
        a.shape[axis] if not isinstance(axis, tuple) else math.prod(a.shape[x] for x in axis)
    )
    if n == 0:
        return np.float64("nan") if not isinstance(s, np.ndarray) else _filled(s.shape, math.nan, "f")
    return _elementwise(_np_div, (s, float(n)), "f")


def np_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return np_mean(a, axis)
    a, w = as_sym(a), as_sym(weights)
    if axis is None or a.ndim == 1:
        return _np_div(np_sum(a * w), np_sum(w))
    if w.ndim == 1 and w.shape != a.shape:
        w = NP.reshape(w, [-1 if i == axis % a.ndim else 1 for i in range(a.ndim)])
    return NP.divide(np_sum(a * w, axis=axis), np_sum(w * np_ones_like(a, dtype=float), axis=axis))


def np_any(a, axis=None, **kw):
    if hasattr(a, "__next__"):
        a = list(a)
    return reduce_(UF["logical_or"][0], a, axis, kw.get("keepdims", False), "logical_or", "b")


def np_all(a, axis=None, **kw):
    return reduce_(UF["logical_and"][0], a, axis, kw.get("keepdims", False), "logical_and", "b")


def np_max(a, axis=None, **kw):
    if "initial" in kw:
        a = list(as_sym(a).view(np.ndarray).flat) + [kw["initial"]]
    return reduce_(smax, a, axis, kw.get("keepdims", False), "maximum")


def np_min(a, axis=None, **kw):
    if "initial" in kw:
        a = list(as_sym(a).view(np.ndarray).flat) + [kw["initial"]]
    return reduce_(smin, a, axis, kw.get("keepdims", False), "minimum")


def _arg(a, better, axis):
    a = as_sym(a)
    if axis is not None and a.ndim > 1:
        axis = axis % a.ndim
        moved = np.moveaxis(a.view(np.ndarray), axis, 0)
        out = np.empty(moved.shape[1:], dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = _arg(wrap(moved[(slice(None),) + idx].copy(), a._kind), better, None)
        return wrap(out, "i")
    items = list(a.view(np.ndarray).flat)
    if not items:
        raise ValueError("attempt to get argmin of an empty sequence")
    best, bi = items[0], 0
    for i, x in enumerate(items[1:], 1):
        c = better(x, best)
        if is_sym(c):
            bi = ite(c, i, bi)
            best = ite(c, x, best)
        elif c:
            best, bi = x, i
    return boxed(bi, "i")


def np_isscalar(x):
    return True if is_sym(x) else False if isinstance(x, SymArray) else np.isscalar(x)



def np_argmin(a, axis=None, **kw):
    return _arg(a, lambda x, b: x < b, axis)


def np_argmax(a, axis=None, **kw):
    a = as_sym(a)
    if a._kind == "b":
        a = a.astype(int)
    return _arg(a, lambda x, b: x > b, axis)


def np_cumsum(a, axis=None, dtype=None, out=None):
    a = as_sym(a)
    if a._kind == "b":
        a = a.astype(int)
    if axis is None:
        a = wrap(a.view(np.ndarray).reshape(-1), a._kind)
        axis = 0
    r = accumulate_(UF["add"][0], a, axis)
    if dtype is not None:
        r = r.astype(dtype)
    if out is not None:
        out[...] = r
        return out
    return r


def np_diff(a, n=1, axis=-1, **kw):
    a = as_sym(a)
    if a.ndim != 1 or n != 1:
        raise Unsupported("diff nd")
    return a[1:] - a[:-1]


def np_count_nonzero(a, axis=None, **kw):
    return np_sum(as_sym(a).astype(bool).astype(int), axis=axis)


def np_median(a, **kw):
    v = sorted(as_sym(a).tolist())
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


# -- searching / selection


def np_where(c, x=None, y=None):
    if x is None and y is None:
        return np_nonzero(c)
    if not is_sym(c) and not isinstance(c, np.ndarray):
        c = as_sym(c)
    kind = join(arr_kind(as_sym(x)), arr_kind(as_sym(y)))
    return _elementwise(lambda a, b, d: cast_scalar(ite(_tb(a), b, d), kind), (c, x, y), kind)


def np_nonzero(a):
    a = as_sym(a)
    raw = a.view(np.ndarray)
    mask = np.array([bool(_tb(v)) for v in raw.flat], dtype=bool).reshape(raw.shape)
    return tuple(wrap(z) for z in np.nonzero(mask))


def np_flatnonzero(a):
    return np_nonzero(as_sym(a).reshape(-1))[0]


def np_argwhere(a):
    t = np_nonzero(a)
    return wrap(np.transpose([np.array(x.tolist(), dtype=int) for x in t]), "i") if t else t


def np_searchsorted(a, v, side="left", sorter=None):
    a = as_sym(a)
    raw = a.view(np.ndarray)
    n = raw.shape[0]

    def one(x):
        # numpy's binary search on a sorted array = count of elements before x
        x = unnp(x)
        lo, hi = 0, n
        # bisection, exactly as numpy does, so that unsorted input behaves alike
        while lo < hi:
            mid = lo + ((hi - lo) >> 1)
            m = raw[mid]
            go = (m < x) if side == "left" else (m <= x)
            if bool(go):
                lo = mid + 1
            else:
                hi = mid
        return lo

    if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(_plain(as_sym(v))) > 0:
        va = as_sym(v)
        out = np.empty(va.shape, dtype=object)
        for idx in np.ndindex(*va.shape):
            out[idx] = one(va.view(np.ndarray)[idx])
        return wrap(out, "i")
    if isinstance(v, np.ndarray):
        v = v.item()
    return np.int64(one(v))


def np_sort(a, axis=-1, **kw):
    a = as_sym(a).copy()
    if a.ndim == 1:
        a.sort()
        return a
    axis = axis % a.ndim
    moved = np.moveaxis(a.view(np.ndarray), axis, -1)
    for idx in np.ndindex(*moved.shape[:-1]):
        for i, v in enumerate(sorted(moved[idx].tolist())):
            moved[idx + (i,)] = v
    return a


def np_argsort(a, axis=-1, **kw):
    a = as_sym(a)
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    raw = a.view(np.ndarray).tolist()
    return wrap(np.array(sorted(range(len(raw)), key=lambda i: _Key(raw[i])), dtype=int))


class _Key:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def np_unique(a, **kw):
    if not numeric_like(a):
        return np.unique(_untag(a), **kw)
    raw = as_sym(a).view(np.ndarray).reshape(-1).tolist()
    if not any(is_sym(v) for v in raw):
        r = np.unique(np.array(raw), **kw)
        return _wrapr(r)
    if kw:
        raise Unsupported("unique with options")
    out = []
    for v in sorted(raw):
        if not out or bool(out[-1] != v):
            out.append(v)
    return as_sym(out)


def np_isin(a, b, **kw):
    bl = list(as_sym(b if hasattr(b, "__len__") and not isinstance(b, (set, dict)) else list(b)).view(np.ndarray).flat)
    r = _elementwise(lambda x: lor(*[x == y for y in bl]), (as_sym(a),), "b")
    return ~r if kw.get("invert") else r


def np_clip(a, lo=None, hi=None, out=None, **kw):
    r = a
    if lo is not None:
        r = _elementwise(smax, (r, lo), "join")
    if hi is not None:
        r = _elementwise(smin, (r, hi), "join")
    return r


# -- comparisons


def _close(a, b, rtol, atol, equal_nan=False):
    a, b = unnp(a), unnp(b)
    for v in (a, b):
        if isinstance(v, float) and not math.isfinite(v):
            if is_sym(a) or is_sym(b):
                return False
            return bool(np.isclose(a, b, equal_nan=equal_nan))
    return abs(a - b) <= (atol + rtol * abs(b))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _elementwise(lambda x, y: _close(x, y, rtol, atol, equal_nan), (a, b), "b")


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return boolval(np_all(np_isclose(as_sym(a), as_sym(b), rtol, atol, equal_nan)))


def np_array_equal(a, b, equal_nan=False):
    if not numeric_like(a) or not numeric_like(b):
        return np.array_equal(_untag(a), _untag(b))
    a, b = as_sym(a), as_sym(b)
    if a.shape != b.shape:
        return False
    return boolval(np_all(_elementwise(_eq, (a, b), "b")))


def boolval(x):
    x = unnp(x)
    return x if isinstance(x, SymBool) else bool(x)


# -- linear algebra


def _dotvec(x, y):
    acc = None
    for a, b in zip(x, y):
        p = unnp(a) * unnp(b)
        acc = p if acc is None else acc + p
    return 0 if acc is None else acc


def np_dot(a, b, out=None):
    a, b = as_sym(a), as_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    kind = join(a._kind, b._kind)
    ra, rb = a.view(np.ndarray), b.view(np.ndarray)
    if a.shape[-1] != b.shape[-2 if b.ndim > 1 else 0]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    bt = rb if rb.ndim == 1 else np.moveaxis(rb, -2, -1)
    sa, sb = ra.shape[:-1], bt.shape[:-1]
    res = np.empty(sa + sb, dtype=object)
    for i in np.ndindex(*sa):
        for j in np.ndindex(*sb):
            res[i + j] = cast_scalar(_dotvec(ra[i], bt[j]), kind)
    if res.shape == ():
        return boxed(res[()], kind)
    return wrap(res, kind)


def np_matmul(a, b, **kw):
    a, b = as_sym(a), as_sym(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("batched matmul")
    return np_dot(a, b)


def np_inner(a, b):
    a, b = as_sym(a), as_sym(b)
    if a.ndim == 1 and b.ndim == 1:
        return np_dot(a, b)
    raise Unsupported("inner nd")


def np_vdot(a, b):
    return np_dot(as_sym(a).reshape(-1), as_sym(b).reshape(-1))


def np_outer(a, b, **kw):
    a, b = as_sym(a).reshape(-1), as_sym(b).reshape(-1)
    return a[:, None] * b[None, :]


def np_einsum(spec, *ops, **kw):
    ops = [as_sym(o) for o in ops]
    lhs, _, rhs = spec.replace(" ", "").partition("->")
    ins = lhs.split(",")
    if "->" not in spec:
        from collections import Counter

        c = Counter("".join(ins))
        rhs = "".join(sorted(k for k, v in c.items() if v == 1))
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    summ = [c for c in dims if c not in rhs]
    out = np.empty(tuple(dims[c] for c in rhs), dtype=object)
    for idx in np.ndindex(*out.shape):
        env = dict(zip(rhs, idx))
        acc = None
        for sidx in np.ndindex(*[dims[c] for c in summ]):
            env.update(zip(summ, sidx))
            p = None
            for s, o in zip(ins, ops):
                v = o.view(np.ndarray)[tuple(env[c] for c in s)]
                p = v if p is None else p * v
            acc = p if acc is None else acc + p
        out[idx] = acc if acc is not None else 0
    kind = join(*[o._kind for o in ops])
    return wrap(out, kind) if out.shape else boxed(out[()], kind)


def np_trace(a, *r, **kw):
    a = as_sym(a)
    acc = 0
    for i in range(min(a.shape)):
        acc = acc + a.view(np.ndarray)[i, i]
    return acc


def np_cross(a, b, **kw):
    a, b = as_sym(a).tolist(), as_sym(b).tolist()
    return as_sym([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def np_norm(x, ord=None, axis=None, keepdims=False):
    x = as_sym(x)
    if ord not in (None, 2) or (ord == 2 and axis is None and x.ndim != 1):
        if ord == 1 and x.ndim == 1:
            return np_sum(NP.absolute(x))
        raise Unsupported("norm ord")
    sq = np_sum(_elementwise(lambda v: unnp(v) * unnp(v), (x,), "f"), axis=axis, keepdims=keepdims)
    if isinstance(sq, np.ndarray):
        return _elementwise(_fn("sqrt"), (sq,), "f")
    return boxed(_fn("sqrt")(sq), "f")


def np_det(a):
    a = as_sym(a)
    if not has_sym(a):
        return np.linalg.det(np.array(a.tolist(), dtype=float))
    m = a.tolist()
    n = len(m)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    if n == 3:
        return (
            m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
            - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
        )
    raise Unsupported("det n>3")


def _conc_linalg(name):
    real = getattr(np.linalg, name)

    def f(*a, **k):
        if has_sym(a):
            raise Unsupported(f"linalg.{name} on symbolic data")
        conv = [np.array(x.tolist(), dtype=float) if isinstance(x, SymArray) else x for x in a]
        return _wrapr(real(*conv, **k))

    return f


LINALG_FUNCS = {"norm": np_norm, "det": np_det}
for _n in ("inv", "solve", "eigh", "eig", "svd", "pinv", "lstsq", "matrix_rank", "qr"):
    LINALG_FUNCS[_n] = _conc_linalg(_n)


class LinalgShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")

    def __getattr__(self, name):
        if name in LINALG_FUNCS:
            return LINALG_FUNCS[name]
        return getattr(np.linalg, name)


# -- random: nondeterministic source installed by the harness

RNG_FACTORY = [None]


class RandomShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.random")

    def default_rng(self, seed=None, *a, **k):
        if RNG_FACTORY[0] is not None:
            return RNG_FACTORY[0](seed)
        return np.random.default_rng(seed)

    def __getattr__(self, name):
        return getattr(np.random, name)


def np_round(a, decimals=0, out=None):
    if decimals != 0:
        if has_sym(a):
            f = 10 ** int(decimals)
            return np_round(a * f) / f if is_sym(a) else np_round(as_sym(a) * f) / f
        return _wrapr(np.round(np.array(as_sym(a).tolist(), dtype=float), decimals))
    if isinstance(a, (list, tuple, np.ndarray)):
        a = as_sym(a)
        if a._kind == "i":
            return a.copy()
        return _elementwise(_fn("rint"), (a,), "f")
    if is_sym(a):
        return a.rint() if not a.isint else a
    return np.round(a)


def np_copy(a, **kw):
    return np_array(a)


def np_atleast_1d(a):
    a = as_sym(a)
    return a if a.ndim else wrap(a.view(np.ndarray).reshape(1), a._kind)


def np_chebvander(x, deg):
    x = as_sym(x, float)
    raw = x.view(np.ndarray)
    out = np.empty(raw.shape + (deg + 1,), dtype=object)
    for idx in np.ndindex(*raw.shape):
        v = raw[idx]
        t = [1.0, v]
        for k in range(2, deg + 1):
            t.append(2.0 * v * t[k - 1] - t[k - 2])
        for k in range(deg + 1):
            out[idx + (k,)] = t[k]
    return wrap(out, "f")


NP_FUNCS = {
    "array": np_array,
    "asarray": np_asarray,
    "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray,
    "copy": np_copy,
    "zeros": np_zeros,
    "empty": np_empty,
    "ones": np_ones,
    "full": np_full,
    "arange": np_arange,
    "eye": np_eye,
    "identity": np_eye,
    "zeros_like": np_zeros_like,
    "ones_like": np_ones_like,
    "full_like": np_full_like,
    "empty_like": np_empty_like,
    "sum": np_sum,
    "nansum": np_sum,
    "prod": np_prod,
    "mean": np_mean,
    "average": np_average,
    "any": np_any,
    "all": np_all,
    "max": np_max,
    "amax": np_max,
    "min": np_min,
    "amin": np_min,
    "argmin": np_argmin,
    "isscalar": np_isscalar,
    "argmax": np_argmax,
    "cumsum": np_cumsum,
    "diff": np_diff,
    "count_nonzero": np_count_nonzero,
    "median": np_median,
    "where": np_where,
    "nonzero": np_nonzero,
    "flatnonzero": np_flatnonzero,
    "argwhere": np_argwhere,
    "searchsorted": np_searchsorted,
    "sort": np_sort,
    "argsort": np_argsort,
    "unique": np_unique,
    "isin": np_isin,
    "in1d": np_isin,
    "clip": np_clip,
    "isclose": np_isclose,
    "allclose": np_allclose,
    "array_equal": np_array_equal,
    "dot": np_dot,
    "matmul": np_matmul,
    "inner": np_inner,
    "vdot": np_vdot,
    "outer": np_outer,
    "einsum": np_einsum,
    "trace": np_trace,
    "cross": np_cross,
    "round": np_round,
    "around": np_round,
    "atleast_1d": np_atleast_1d,
}

NP = NPShim()
