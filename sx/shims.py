"""
Stand-ins for numpy, math and a few builtins, installed into the globals of the cratermaker modules while a symbolic
path runs (and only then).  Every stand-in accepts concrete values too and then defers to the real function.
"""

from __future__ import annotations

import builtins
import inspect
import math as _math
import numbers
import operator
import sys
import types
import typing

import numpy as _np

from . import engine as E
from .engine import Sym, SymBool, SymFloat, SymInt, SymNum, Unsupported, _is_special, is_sym, ite

F64 = _np.dtype("float64")
_OBJ = _np.dtype(object)


# --------------------------------------------------------------------------------------------------- arrays
class SymArray(_np.ndarray):
    """Object array whose entries may be symbolic; presents itself as float64."""

    @property
    def dtype(self):
        return F64

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        ov = OVERRIDES.get(name)
        if ov is not None and func.__module__ and func.__module__.startswith("numpy") and "linalg" not in func.__module__:
            return ov(*args, **kwargs)
        args = _debase(args)
        kwargs = {k: _debase(v) for k, v in kwargs.items()}
        return wrap(func(*args, **kwargs))

    def __getitem__(self, k):
        r = _np.ndarray.__getitem__(self, _index(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(v, _np.ndarray):
            v = v.view(_np.ndarray)
        _np.ndarray.__setitem__(self, _index(k), v)

    def astype(self, dtype, *a, **kw):
        dt = _dt(dtype)
        if dt is None or dt.kind == "f" or dt.kind == "O":
            return self.copy()
        if dt.kind in "iu":
            if any(isinstance(x, SymFloat) for x in self.flat):
                return ew(_trunc_int, self)
            return _np.array([int(x) for x in self.view(_np.ndarray).flat], dtype=dt).reshape(self.shape)
        if dt.kind == "b":
            return ew(lambda t: t != 0, self)
        raise Unsupported(f"astype {dt}")

    def sum(self, axis=None, **kw):
        return np_sum(self, axis=axis)

    def mean(self, axis=None, **kw):
        return np_mean(self, axis=axis)

    def max(self, axis=None, **kw):
        return np_max(self, axis=axis)

    def min(self, axis=None, **kw):
        return np_min(self, axis=axis)

    def prod(self, axis=None, **kw):
        return _reduce(operator.mul, self, axis, 1)

    def cumsum(self, axis=None, **kw):
        return np_cumsum(self)

    def any(self, axis=None, **kw):
        return np_any(self, axis)

    def all(self, axis=None, **kw):
        return np_all(self, axis)

    def argmin(self, axis=None, **kw):
        return np_argmin(self)

    def argmax(self, axis=None, **kw):
        return np_argmax(self)

    def argsort(self, *a, **kw):
        return np_argsort(self)

    def sort(self, *a, **kw):
        self[...] = np_sort(self)

    def nonzero(self):
        return _np.nonzero(_concrete_mask(self))

    def clip(self, lo=None, hi=None, **kw):
        return np_clip(self, lo, hi)

    def round(self, decimals=0, **kw):
        return np_round(self, decimals)

    def item(self, *a):
        return self.view(_np.ndarray).item(*a)

    def tolist(self):
        return self.view(_np.ndarray).tolist()

    def __iter__(self):
        if self.ndim == 1:
            return iter([_np.ndarray.__getitem__(self, i) for i in range(len(self))])
        return iter([self[i] for i in range(len(self))])

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(_np.ndarray).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __contains__(self, x):
        return bool(np_any(ew(lambda a: a == x, self)))

    def __float__(self):
        return float(self.view(_np.ndarray).reshape(-1)[0])

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    def __repr__(self):
        return "SymArray(" + repr(self.view(_np.ndarray)) + ")"

    __str__ = __repr__


def _debase(x):
    if isinstance(x, SymArray):
        return x.view(_np.ndarray)
    if isinstance(x, tuple):
        return tuple(_debase(y) for y in x)
    if isinstance(x, list):
        return [_debase(y) for y in x]
    return x


def _concrete_mask(m):
    m = _debase(m)
    return _np.array([bool(x) for x in m.reshape(-1)], dtype=bool).reshape(m.shape)


def _index(k):
    if isinstance(k, tuple):
        return tuple(_index(x) for x in k)
    if isinstance(k, SymInt):
        return int(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, list) and any(isinstance(x, Sym) for x in k):
        k = sarr(k)
    if isinstance(k, _np.ndarray) and k.view(_np.ndarray).dtype == _OBJ:
        kk = k.view(_np.ndarray)
        if kk.size and all(isinstance(x, (bool, _np.bool_, SymBool)) for x in kk.reshape(-1)):
            return _concrete_mask(kk)
        return _np.array([int(x) for x in kk.reshape(-1)], dtype=_np.int64).reshape(kk.shape)
    return k


def has_sym(x, depth=3) -> bool:
    if isinstance(x, Sym):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == _OBJ and any(isinstance(y, Sym) for y in x.reshape(-1))
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values())
    return False


def sarr(x):
    """Build a SymArray from nested sequences of scalars."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, _np.ndarray):
        return x.astype(object).view(SymArray)
    if isinstance(x, (list, tuple, range)):
        xs = list(x)
        if not xs:
            return _np.empty(0, dtype=object).view(SymArray)
        if any(isinstance(y, (list, tuple, _np.ndarray)) and not (isinstance(y, _np.ndarray) and y.ndim == 0) for y in xs):
            subs = [sarr(y) for y in xs]
            shp = subs[0].shape
            if any(s.shape != shp for s in subs):
                raise ValueError("inhomogeneous shape")
            out = _np.empty((len(subs), *shp), dtype=object)
            for i, s in enumerate(subs):
                out[i] = s.view(_np.ndarray)
            return out.view(SymArray)
        out = _np.empty(len(xs), dtype=object)
        for i, y in enumerate(xs):
            out[i] = y.item() if isinstance(y, _np.ndarray) else y
        return out.view(SymArray)
    out = _np.empty((), dtype=object)
    out[()] = x
    return out.view(SymArray)


def wrap(r):
    """Re-view object-array results as SymArray."""
    if isinstance(r, SymArray):
        return r
    if isinstance(r, _np.ndarray) and r.dtype == _OBJ:
        if r.ndim == 0:
            return r[()]
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def _collapse(a):
    """Object results without any symbolic entry go back to ordinary arrays (bool / int / float)."""
    flat = a.reshape(-1)
    if any(isinstance(x, Sym) for x in flat):
        return a.view(SymArray)
    if flat.size and all(isinstance(x, (bool, _np.bool_)) for x in flat):
        return a.astype(bool)
    return a.view(SymArray)


def ew(f, *args):
    """Elementwise application with broadcasting."""
    arrs = []
    anyarr = False
    for x in args:
        if isinstance(x, Sym) or x is None:
            o = _np.empty((), dtype=object)
            o[()] = x
            arrs.append(o)
        elif isinstance(x, (list, tuple)):
            anyarr = True
            arrs.append(sarr(x).view(_np.ndarray))
        elif isinstance(x, _np.ndarray):
            anyarr = anyarr or x.ndim > 0
            arrs.append(x.view(_np.ndarray))
        elif hasattr(x, "__array__") and not isinstance(x, _np.generic) and getattr(x, "shape", ()) != ():
            anyarr = True
            v = getattr(x, "values", None)
            arrs.append(v.view(_np.ndarray) if isinstance(v, _np.ndarray) else _np.asarray(x))
        else:
            o = _np.empty((), dtype=object)
            o[()] = x
            arrs.append(o)
    if not anyarr:
        return f(*[_py(a[()]) for a in arrs])
    bs = _np.broadcast_arrays(*arrs)
    out = _np.empty(bs[0].shape, dtype=object)
    for i in _np.ndindex(out.shape):
        out[i] = f(*[_py(b[i]) for b in bs])
    return _collapse(out)


def _py(x):
    """numpy scalar -> Python scalar (numpy scalars would send the operation back to the ufunc)."""
    return x.item() if isinstance(x, _np.generic) else x


# --------------------------------------------------------------------------------------------------- scalar kernels
def _k(symf, realf):
    def g(x):
        if isinstance(x, Sym):
            return symf(x)
        return realf(x)

    return g


def _div(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        with _np.errstate(all="ignore"):
            return _np.true_divide(a, b)
    try:
        return a / b
    except ZeroDivisionError:
        if not isinstance(a, Sym):
            a_pos, a_zero = a > 0, a == 0
        else:
            a_zero = bool(a == 0)
            a_pos = False if a_zero else bool(a > 0)
        return float("nan") if a_zero else (float("inf") if a_pos else float("-inf"))


def _pow(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a**b
    try:
        return E.sym_pow(a, b)
    except ZeroDivisionError:
        return float("inf")


def _trunc_int(x):
    if isinstance(x, SymFloat):
        return x.__trunc__()
    if isinstance(x, Sym):
        return x
    return int(x)


def _sign(x):
    if isinstance(x, Sym):
        return ite(x > 0, 1, ite(x < 0, -1, 0)) * (1.0 if isinstance(x, SymFloat) else 1)
    return _np.sign(x)


def _floor(x):
    return x.__floor__() * 1.0 if isinstance(x, SymFloat) else (x if isinstance(x, Sym) else _np.floor(x))


def _ceil(x):
    return x.__ceil__() * 1.0 if isinstance(x, SymFloat) else (x if isinstance(x, Sym) else _np.ceil(x))


def _trunc(x):
    return x.__trunc__() * 1.0 if isinstance(x, SymFloat) else (x if isinstance(x, Sym) else _np.trunc(x))


def _isnan(x):
    if isinstance(x, Sym):
        return False
    return bool(_np.isnan(x))


def _isinf(x):
    if isinstance(x, Sym):
        return False
    return bool(_np.isinf(x))


def _isfinite(x):
    if isinstance(x, Sym):
        return True
    return bool(_np.isfinite(x))


def _mod(a, b):
    return a % b


def _land(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        a = a if isinstance(a, SymBool) else bool(a)
        b = b if isinstance(b, SymBool) else bool(b)
        return a & b
    return bool(a) and bool(b)


def _lor(a, b):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        a = a if isinstance(a, SymBool) else bool(a)
        b = b if isinstance(b, SymBool) else bool(b)
        return a | b
    return bool(a) or bool(b)


def _lnot(a):
    return ~a if isinstance(a, SymBool) else (a == 0 if isinstance(a, Sym) else not a)


def _inv(a):
    if isinstance(a, SymBool):
        return ~a
    if isinstance(a, (bool, _np.bool_)):
        return not a
    return ~a


def _smax(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _np.maximum(a, b)
    if _isnan(a) or _isnan(b):
        return float("nan")
    return E.smax(a, b)


def _smin(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return _np.minimum(a, b)
    if _isnan(a) or _isnan(b):
        return float("nan")
    return E.smin(a, b)


def _nanignore(f):
    def g(a, b):
        if _isnan(a):
            return b
        if _isnan(b):
            return a
        return f(a, b)

    return g


def _hypot(a, b):
    return E.sym_sqrt(a * a + b * b, np_style=True) if (is_sym(a) or is_sym(b)) else _np.hypot(a, b)


def _atan2(a, b):
    return E.sym_atan2(a, b) if (is_sym(a) or is_sym(b)) else _np.arctan2(a, b)


def _sq(x):
    return x * x


def _cbrt(x):
    if not is_sym(x):
        return _np.cbrt(x)
    if bool(x >= 0):
        return E.sym_pow(x, 1.0 / 3.0)
    return -E.sym_pow(-x, 1.0 / 3.0)


def _expm1(x):
    return E.sym_exp(x) - 1 if is_sym(x) else _np.expm1(x)


def _log1p(x):
    return E.sym_log(x + 1) if is_sym(x) else _np.log1p(x)


def _copysign(a, b):
    if is_sym(a) or is_sym(b):
        return ite(b >= 0, abs(a), -abs(a))
    return _np.copysign(a, b)


UF1 = {
    "negative": operator.neg,
    "positive": lambda x: x,
    "absolute": abs,
    "fabs": abs,
    "sqrt": _k(lambda x: E.sym_sqrt(x, np_style=True), _np.sqrt),
    "square": _sq,
    "cbrt": _cbrt,
    "exp": _k(E.sym_exp, _np.exp),
    "exp2": lambda x: _pow(2.0, x),
    "expm1": _expm1,
    "log1p": _log1p,
    "log": _k(E.sym_log, _np.log),
    "log10": _k(lambda x: E.sym_log(x, 10), _np.log10),
    "log2": _k(lambda x: E.sym_log(x, 2), _np.log2),
    "sin": _k(E.sym_sin, _np.sin),
    "cos": _k(E.sym_cos, _np.cos),
    "tan": _k(lambda x: _div(E.sym_sin(x), E.sym_cos(x)), _np.tan),
    "arcsin": _k(E.sym_asin, _np.arcsin),
    "arccos": _k(E.sym_acos, _np.arccos),
    "arctan": _k(E.sym_atan, _np.arctan),
    "radians": _k(lambda x: x * (_math.pi / 180.0), _np.radians),
    "degrees": _k(lambda x: x * (180.0 / _math.pi), _np.degrees),
    "sign": _sign,
    "floor": _floor,
    "ceil": _ceil,
    "trunc": _trunc,
    "rint": _k(lambda x: x.__round__() * 1.0, _np.rint),
    "isnan": _isnan,
    "isinf": _isinf,
    "isfinite": _isfinite,
    "logical_not": _lnot,
    "invert": _inv,
    "reciprocal": lambda x: _div(1.0, x),
    "conjugate": lambda x: x,
}
UF1["deg2rad"] = UF1["radians"]
UF1["rad2deg"] = UF1["degrees"]
UF2 = {
    "add": operator.add,
    "subtract": operator.sub,
    "multiply": operator.mul,
    "divide": _div,
    "true_divide": _div,
    "floor_divide": operator.floordiv,
    "remainder": _mod,
    "mod": _mod,
    "power": _pow,
    "float_power": _pow,
    "maximum": _smax,
    "minimum": _smin,
    "fmax": _nanignore(_smax),
    "fmin": _nanignore(_smin),
    "greater": operator.gt,
    "greater_equal": operator.ge,
    "less": operator.lt,
    "less_equal": operator.le,
    "equal": operator.eq,
    "not_equal": operator.ne,
    "logical_and": _land,
    "logical_or": _lor,
    "bitwise_and": _land,
    "bitwise_or": _lor,
    "logical_xor": lambda a, b: a ^ b,
    "bitwise_xor": lambda a, b: a ^ b,
    "hypot": _hypot,
    "arctan2": _atan2,
    "copysign": _copysign,
}


def array_ufunc(ufunc, method, *inputs, **kwargs):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    if method == "__call__":
        f = UF1.get(name) if len(inputs) == 1 else UF2.get(name)
        if f is None:
            raise Unsupported(f"numpy ufunc {name}")
        if where is not True:
            base = out[0] if out is not None else _np.empty(_np.broadcast_shapes(*[_np.shape(_debase(x)) for x in inputs]), dtype=object)
            r = ew(lambda w, o, *a: f(*a) if bool(w) else o, where, base, *inputs)
        else:
            r = ew(f, *inputs)
        if out is not None:
            o = out[0]
            if not isinstance(o, SymArray) and o.dtype != _OBJ:
                for i in _np.ndindex(o.shape):
                    o[i] = _np.broadcast_to(_debase(r), o.shape)[i]
            else:
                o[...] = r
            return o
        return r
    if method == "reduce":
        axis = kwargs.get("axis", 0)
        tab = {
            "add": lambda: np_sum(inputs[0], axis=axis),
            "multiply": lambda: _reduce(operator.mul, inputs[0], axis, 1),
            "maximum": lambda: np_max(inputs[0], axis=axis),
            "minimum": lambda: np_min(inputs[0], axis=axis),
            "logical_and": lambda: np_all(inputs[0], axis),
            "logical_or": lambda: np_any(inputs[0], axis),
        }
        if name in tab:
            return tab[name]()
    if method == "accumulate" and name == "add":
        return np_cumsum(inputs[0])
    if method == "accumulate" and name in ("maximum", "minimum"):
        a = sarr(inputs[0])
        o, acc = [], None
        for x in a:
            acc = x if acc is None else UF2[name](acc, x)
            o.append(acc)
        return sarr(o)
    if method == "at":
        a, idx, *rest = inputs
        f = UF2[name]
        idx = _index(idx)
        vals = _np.broadcast_to(_debase(sarr(rest[0])), _np.shape(idx))
        for i, v in zip(_np.asarray(idx).reshape(-1), vals.reshape(-1)):
            a[i] = f(a[i], v)
        return None
    if method == "outer":
        f = UF2[name]
        a, b = sarr(inputs[0]), sarr(inputs[1])
        return ew(f, a.reshape(a.shape + (1,) * b.ndim), b)
    raise Unsupported(f"numpy ufunc {name}.{method}")


def _reduce(f, a, axis, init):
    a = sarr(a).view(_np.ndarray)
    if axis is None or a.ndim == 1:
        acc = init
        for x in a.reshape(-1):
            acc = f(acc, x) if acc is not None else x
        return acc
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    a = _np.moveaxis(a, axis, 0)
    out = _np.empty(a.shape[1:], dtype=object)
    for i in _np.ndindex(out.shape):
        acc = init
        for x in a[(slice(None), *i)]:
            acc = f(acc, x) if acc is not None else x
        out[i] = acc
    return _collapse(out)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
    if where is not True:
        a = ew(lambda w, x: ite(w, x, 0) if isinstance(w, SymBool) else (x if w else 0), where, a)
    r = _reduce(operator.add, a, axis, 0)
    if isinstance(r, int) and not isinstance(r, bool) and _np.size(_debase(sarr(a))) == 0:
        return 0.0
    return r


def np_mean(a, axis=None, **kw):
    a = sarr(a)
    n = a.size if axis is None else a.shape[axis]
    s = np_sum(a, axis)
    return ew(lambda x: _div(x, n), s) if isinstance(s, _np.ndarray) else _div(s, n)


def np_max(a, axis=None, out=None, initial=None, **kw):
    a = sarr(a)
    if a.size == 0 and initial is None:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    return _reduce(_smax, a, axis, initial)


def np_min(a, axis=None, out=None, initial=None, **kw):
    a = sarr(a)
    if a.size == 0 and initial is None:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    return _reduce(_smin, a, axis, initial)


def np_nanmax(a, axis=None, **kw):
    return _reduce(_nanignore(_smax), sarr(a), axis, None)


def np_nanmin(a, axis=None, **kw):
    return _reduce(_nanignore(_smin), sarr(a), axis, None)


def np_nansum(a, axis=None, **kw):
    return _reduce(operator.add, ew(lambda x: 0.0 if _isnan(x) else x, a), axis, 0)


def np_nanmean(a, axis=None, **kw):
    xs = [x for x in sarr(a).view(_np.ndarray).reshape(-1) if not _isnan(x)]
    return _div(np_sum(sarr(xs)), len(xs))


def np_cumsum(a, axis=None, dtype=None, out=None):
    a = sarr(a).view(_np.ndarray).reshape(-1)
    o = _np.empty(a.shape, dtype=object)
    acc = 0
    for i, x in enumerate(a):
        acc = acc + x
        o[i] = acc
    return o.view(SymArray)


def _truth(x):
    return x if isinstance(x, SymBool) else (x != 0 if isinstance(x, Sym) else bool(x))


def np_any(a, axis=None, out=None, keepdims=False, **kw):
    if isinstance(a, Sym):
        return _truth(a)
    return _reduce(lambda p, q: _lor(p, _truth(q)), a, axis, False)


def np_all(a, axis=None, out=None, keepdims=False, **kw):
    if isinstance(a, Sym):
        return _truth(a)
    return _reduce(lambda p, q: _land(p, _truth(q)), a, axis, True)


def np_argsort(a, axis=-1, kind=None, order=None, stable=None):
    import functools

    xs = list(sarr(a).view(_np.ndarray).reshape(-1))

    def cmp(i, j):
        if bool(xs[i] < xs[j]):
            return -1
        if bool(xs[j] < xs[i]):
            return 1
        return 0

    return _np.array(sorted(range(len(xs)), key=functools.cmp_to_key(cmp)), dtype=_np.int64)


def np_sort(a, axis=-1, **kw):
    a = sarr(a)
    if a.ndim != 1:
        raise Unsupported("sort of a multi-dimensional array")
    return a[np_argsort(a)]


def np_argmin(a, axis=None, **kw):
    if axis is not None and sarr(a).ndim > 1:
        raise Unsupported("argmin axis")
    xs = list(sarr(a).view(_np.ndarray).reshape(-1))
    if not xs:
        raise ValueError("attempt to get argmin of an empty sequence")
    b = 0
    for i in range(1, len(xs)):
        if bool(xs[i] < xs[b]):
            b = i
    return b


def np_argmax(a, axis=None, **kw):
    if axis is not None and sarr(a).ndim > 1:
        raise Unsupported("argmax axis")
    xs = list(sarr(a).view(_np.ndarray).reshape(-1))
    if not xs:
        raise ValueError("attempt to get argmax of an empty sequence")
    b = 0
    for i in range(1, len(xs)):
        if bool(xs[i] > xs[b]):
            b = i
    return b


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max

    def f(x, l, h):
        if l is not None:
            x = _smax(x, l)
        if h is not None:
            x = _smin(x, h)
        return x

    r = ew(f, a, lo, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def np_where(c, *xy):
    if not xy:
        return _np.nonzero(_concrete_mask(sarr(c)))
    return ew(lambda w, a, b: ite(w, a, b) if isinstance(w, SymBool) else (a if w else b), c, *xy)


def np_nonzero(c):
    return _np.nonzero(_concrete_mask(sarr(c)))


def np_flatnonzero(c):
    return _np.flatnonzero(_concrete_mask(sarr(c)))


def np_argwhere(c):
    return _np.argwhere(_concrete_mask(sarr(c)))


def np_count_nonzero(c, axis=None, **kw):
    return np_sum(ew(_truth, c))


def np_round(a, decimals=0, out=None):
    return ew(lambda x: x.__round__(decimals) * 1.0 if isinstance(x, SymFloat) else (x if isinstance(x, Sym) else _np.round(x, decimals)), a)


def np_isscalar(x):
    return True if isinstance(x, Sym) else _np.isscalar(x)


def np_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(_np.isclose(x, y, rtol, atol, equal_nan))
        if _is_special(x) or _is_special(y):
            return False
        return abs(x - y) <= (atol + rtol * abs(y))

    return ew(f, a, b)


def np_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np_all(np_isclose(a, b, rtol, atol, equal_nan)))


def np_array_equal(a, b, equal_nan=False):
    a, b = sarr(a), sarr(b)
    if a.shape != b.shape:
        return False
    return bool(np_all(ew(operator.eq, a, b)))


def np_searchsorted(a, v, side="left", sorter=None):
    xs = list(sarr(a).view(_np.ndarray).reshape(-1))

    def one(x):
        n = 0
        for y in xs:
            if bool((y < x) if side == "left" else (y <= x)):
                n += 1
            else:
                break
        return n

    if isinstance(v, (list, tuple, _np.ndarray)) and _np.ndim(_debase(v)) > 0:
        return _np.array([one(x) for x in sarr(v).view(_np.ndarray).reshape(-1)], dtype=_np.int64)
    return one(v if not isinstance(v, _np.ndarray) else v.item())


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side="left" if right else "right")


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = sarr(a)
    if axis is not None:
        raise Unsupported("unique with axis")
    flat = list(a.view(_np.ndarray).reshape(-1))
    order = np_argsort(a.reshape(-1))
    vals, idx, inv, cnt = [], [], [0] * len(flat), []
    for i in order:
        if vals and not bool(flat[i] != vals[-1]):
            cnt[-1] += 1
        else:
            vals.append(flat[i])
            idx.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    out = [sarr(vals)]
    if return_index:
        out.append(_np.array(idx))
    if return_inverse:
        out.append(_np.array(inv))
    if return_counts:
        out.append(_np.array(cnt))
    return out[0] if len(out) == 1 else tuple(out)


def np_isin(a, b, assume_unique=False, invert=False, **kw):
    bs = list(sarr(b).view(_np.ndarray).reshape(-1))

    def f(x):
        r = False
        for y in bs:
            r = _lor(r, x == y)
        return _lnot(r) if invert else r

    return ew(f, a)


def np_diff(a, n=1, axis=-1, **kw):
    a = sarr(a)
    return ew(operator.sub, a[1:], a[:-1])


def np_dot(a, b, out=None):
    a, b = sarr(a), sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(operator.mul, a, b)
    return wrap(_np.dot(a.view(_np.ndarray), b.view(_np.ndarray)))


def np_cross(a, b, **kw):
    a, b = sarr(a), sarr(b)
    if a.shape != (3,) or b.shape != (3,):
        return wrap(_np.cross(a.view(_np.ndarray), b.view(_np.ndarray)))
    return sarr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    s = np_sum(ew(_sq, x), axis=axis)
    return ew(lambda t: E.sym_sqrt(t, np_style=True) if is_sym(t) else _np.sqrt(t), s)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xs = list(sarr(xp).view(_np.ndarray).reshape(-1))
    fs = list(sarr(fp).view(_np.ndarray).reshape(-1))

    def f(t):
        r = fs[-1] if right is None else right
        if bool(t == xs[-1]):
            return fs[-1]
        if bool(t > xs[-1]):
            return r
        if bool(t < xs[0]):
            return fs[0] if left is None else left
        for i in range(len(xs) - 1):
            if bool(t < xs[i + 1]):
                return fs[i] + (fs[i + 1] - fs[i]) * _div(t - xs[i], xs[i + 1] - xs[i])
        return fs[-1]

    return ew(f, x)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    cap = NP_HOOKS.get("linspace_max")
    if cap is not None and num > cap:
        num = cap  # a stated restriction of the harness: a coarser grid
    num = int(num)
    if retstep:
        raise Unsupported("linspace retstep")
    d = num - 1 if endpoint else num
    return sarr([start + (stop - start) * E.frac(i) / d if d else start for i in range(num)] if num else [])


def np_logspace(start, stop, num=50, endpoint=True, base=10.0, **kw):
    return ew(lambda x: _pow(base, x), np_linspace(start, stop, num, endpoint))


def np_arange(*a, **kw):
    a = list(a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a[:3]
    out, x, n = [], lo, 0
    while bool(x < hi) if not (not is_sym(st) and st < 0) else bool(x > hi):
        out.append(x)
        n += 1
        if n > 200:
            raise Unsupported("arange longer than 200 steps")
        x = lo + n * st
    return sarr(out)


def np_ptp(a, **kw):
    return np_max(a) - np_min(a)


def np_median(a, **kw):
    s = np_sort(sarr(a).reshape(-1))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def np_std(a, **kw):
    m = np_mean(a)
    v = np_mean(ew(lambda x: (x - m) * (x - m), a))
    return E.sym_sqrt(v, np_style=True) if is_sym(v) else _np.sqrt(v)


def np_average(a, weights=None, **kw):
    if weights is None:
        return np_mean(a)
    return _div(np_sum(ew(operator.mul, a, weights)), np_sum(weights))


def np_nan_to_num(a, nan=0.0, **kw):
    return ew(lambda x: nan if _isnan(x) else x, a)


def np_real_if_close(a, **kw):
    return a


OVERRIDES = {
    "sum": np_sum, "mean": np_mean, "max": np_max, "amax": np_max, "min": np_min, "amin": np_min,
    "nanmax": np_nanmax, "nanmin": np_nanmin, "nansum": np_nansum, "nanmean": np_nanmean, "cumsum": np_cumsum,
    "any": np_any, "all": np_all, "argsort": np_argsort, "sort": np_sort, "argmin": np_argmin, "argmax": np_argmax,
    "clip": np_clip, "where": np_where, "nonzero": np_nonzero, "flatnonzero": np_flatnonzero, "argwhere": np_argwhere,
    "count_nonzero": np_count_nonzero, "round": np_round, "around": np_round, "isscalar": np_isscalar, "isclose": np_isclose,
    "allclose": np_allclose, "array_equal": np_array_equal, "searchsorted": np_searchsorted, "digitize": np_digitize,
    "unique": np_unique, "isin": np_isin, "diff": np_diff, "dot": np_dot, "cross": np_cross, "interp": np_interp,
    "linspace": np_linspace, "logspace": np_logspace, "arange": np_arange, "ptp": np_ptp, "median": np_median,
    "std": np_std, "average": np_average, "nan_to_num": np_nan_to_num, "prod": lambda a, axis=None, **k: _reduce(operator.mul, a, axis, 1),
    "ndim": lambda a: 0 if isinstance(a, Sym) else _np.ndim(_debase(a)),
    "shape": lambda a: () if isinstance(a, Sym) else _np.shape(_debase(sarr(a)) if isinstance(a, (list, tuple)) else _debase(a)),
    "size": lambda a, *k: 1 if isinstance(a, Sym) else _np.size(_debase(a), *k),
    "isreal": lambda a: True, "iscomplexobj": lambda a: False,
}


def _dt(d):
    if d is None:
        return None
    if isinstance(d, ShimMeta):
        d = d._real
    try:
        return _np.dtype(d)
    except TypeError:
        return _OBJ


def _float_like(dtype):
    dt = _dt(dtype)
    return dt is None or dt.kind == "f" or dt.kind == "O"


def c_array(x, dtype=None, *a, **kw):
    kw.pop("copy", None)
    if not has_sym(x):
        if dtype is not None:
            return _np.array(x, *a, dtype=_dt(dtype), **kw)
        return _np.array(x, *a, **kw)
    r = sarr(x)
    if r is x:
        r = r.copy()
    if kw.get("ndmin"):
        while r.ndim < kw["ndmin"]:
            r = r.reshape((1, *r.shape))
    if dtype is not None and not _float_like(dtype):
        r = r.astype(dtype)
    return r


def c_asarray(x, dtype=None, *a, **kw):
    if isinstance(x, SymArray) and _float_like(dtype):
        return x
    if not has_sym(x):
        if dtype is not None:
            return _np.asarray(x, dtype=_dt(dtype))
        return _np.asarray(x)
    return c_array(x, dtype)


def c_atleast_1d(*xs):
    rs = []
    for x in xs:
        if has_sym(x):
            x = sarr(x)
            rs.append(x.reshape(1) if x.ndim == 0 else x)
        else:
            rs.append(_np.atleast_1d(x))
    return rs[0] if len(rs) == 1 else tuple(rs)


def c_atleast_2d(*xs):
    rs = []
    for x in xs:
        if has_sym(x):
            x = c_atleast_1d(x)
            rs.append(x.reshape((1, *x.shape)) if x.ndim == 1 else x)
        else:
            rs.append(_np.atleast_2d(x))
    return rs[0] if len(rs) == 1 else tuple(rs)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


def _filled(shape, v):
    o = _np.empty(_shape(shape), dtype=object)
    o.fill(v)
    return o.view(SymArray)


def c_zeros(shape, dtype=None, *a, **kw):
    if not _float_like(dtype):
        return _np.zeros(_shape(shape), dtype=_dt(dtype))
    return _filled(shape, 0.0)


def c_ones(shape, dtype=None, *a, **kw):
    if not _float_like(dtype):
        return _np.ones(_shape(shape), dtype=_dt(dtype))
    return _filled(shape, 1.0)


def c_empty(shape, dtype=None, *a, **kw):
    if not _float_like(dtype):
        return _np.empty(_shape(shape), dtype=_dt(dtype))
    return _filled(shape, 0.0)


def c_full(shape, fill_value, dtype=None, *a, **kw):
    if dtype is None and not is_sym(fill_value) and not isinstance(fill_value, float):
        return _np.full(_shape(shape), fill_value)
    if not _float_like(dtype):
        return _np.full(_shape(shape), fill_value, dtype=_dt(dtype))
    return _filled(shape, fill_value)


def _like(x):
    return (F64 if isinstance(x, SymArray) or isinstance(x, Sym) else None) or _np.asarray(x).dtype


def c_zeros_like(x, dtype=None, **kw):
    return c_zeros(_np.shape(_debase(x)) if not isinstance(x, Sym) else (), dtype if dtype is not None else _like(x))


def c_ones_like(x, dtype=None, **kw):
    return c_ones(_np.shape(_debase(x)) if not isinstance(x, Sym) else (), dtype if dtype is not None else _like(x))


def c_empty_like(x, dtype=None, **kw):
    return c_empty(_np.shape(_debase(x)) if not isinstance(x, Sym) else (), dtype if dtype is not None else _like(x))


def c_full_like(x, v, dtype=None, **kw):
    return c_full(_np.shape(_debase(x)) if not isinstance(x, Sym) else (), v, dtype if dtype is not None else _like(x))


def c_concatenate(xs, axis=0, **kw):
    xs = list(xs)
    if any(has_sym(x) for x in xs):
        return wrap(_np.concatenate([sarr(x).view(_np.ndarray) if not isinstance(x, _np.ndarray) else x.view(_np.ndarray).astype(object) for x in xs], axis=axis))
    return _np.concatenate(xs, axis=axis, **kw)


def c_vectorize(f, *a, **kw):
    def g(*args):
        return ew(f, *args)

    return g


def c_fromiter(it, dtype=None, count=-1, **kw):
    return c_array(list(it), dtype)


def c_ravel(x, *a, **kw):
    return sarr(x).reshape(-1) if has_sym(x) else _np.ravel(x, *a, **kw)


CREATE = {
    "array": c_array, "asarray": c_asarray, "asanyarray": c_asarray, "ascontiguousarray": c_asarray, "copy": lambda x, **k: c_array(x),
    "atleast_1d": c_atleast_1d, "atleast_2d": c_atleast_2d,
    "zeros": c_zeros, "ones": c_ones, "empty": c_empty, "full": c_full, "zeros_like": c_zeros_like, "ones_like": c_ones_like,
    "empty_like": c_empty_like, "full_like": c_full_like, "concatenate": c_concatenate, "vectorize": c_vectorize,
    "fromiter": c_fromiter, "ravel": c_ravel,
}


class ShimMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, cls._real)

    def __subclasscheck__(cls, sub):
        return issubclass(getattr(sub, "_real", sub), cls._real)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)


def _mkshim(real, conv, dtype=None):
    ns = {"_real": real, "__new__": lambda cls, *a, **k: conv(*a, **k)}
    if dtype is not None:
        ns["dtype"] = _np.dtype(dtype)
    return ShimMeta(real.__name__, (), ns)


def _untoken(x):
    """The value that a printed symbolic number stands for (None for any other text)."""
    p = E.CUR
    if type(x) is not str or p is None or not p.tokens:
        return None
    v, spec = p.tokens.get(x.strip(), (None, None))
    if v is not None and spec != "":
        raise E.Unsupported("a rounded printed number is read back")
    return v


def _tofloat(*a):
    if not a:
        return 0.0
    x = a[0]
    if type(x) is str and (v := _untoken(x)) is not None:
        x = v
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymInt):
        return SymFloat(E._real(x.e))
    if isinstance(x, SymBool):
        return SymFloat(E._real(E.lift(x)))
    if isinstance(x, SymArray):
        if x.size != 1:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return _tofloat(x.view(_np.ndarray).reshape(-1)[0])
    return float(x)


def _toint(*a, **kw):
    if not a:
        return 0
    x = a[0]
    if type(x) is str and (v := _untoken(x)) is not None:
        if isinstance(v, SymFloat):
            raise ValueError("invalid literal for int()")
        x = v
    if isinstance(x, SymNum):
        return x.__trunc__()
    if isinstance(x, SymBool):
        return E.mk(E.lift(x))
    if isinstance(x, SymArray):
        return _toint(x.view(_np.ndarray).reshape(-1)[0])
    return int(*a, **kw)


def _tobool(*a):
    if not a:
        return False
    x = a[0]
    return bool(x)


def _np_float(real):
    def conv(*a):
        x = a[0] if a else 0.0
        if isinstance(x, SymArray):
            return x if x.ndim else _tofloat(x)
        if isinstance(x, Sym):
            return _tofloat(x)
        if has_sym(x):
            return sarr(x)
        return real(*a)

    return conv


def _np_int(real):
    def conv(*a):
        x = a[0] if a else 0
        if isinstance(x, SymArray):
            return x.astype(_np.int64)
        if isinstance(x, Sym):
            return _toint(x)
        return real(*a)

    return conv


FLOAT = _mkshim(float, _tofloat, "float64")
INT = _mkshim(int, _toint, "int64")
NP_TYPES = {}
for _n in ("float64", "float32", "double"):
    NP_TYPES[_n] = _mkshim(getattr(_np, _n), _np_float(getattr(_np, _n)), _n)
for _n in ("int64", "int32", "uint32", "uint64", "uint8", "int8", "int16", "uint16", "intp", "int_"):
    NP_TYPES[_n] = _mkshim(getattr(_np, _n), _np_int(getattr(_np, _n)), _n)


def _flat(T):
    if isinstance(T, tuple):
        for t in T:
            yield from _flat(t)
    elif isinstance(T, ShimMeta):
        yield T._real
    elif isinstance(T, types.UnionType) or typing.get_origin(T) is typing.Union:
        for t in typing.get_args(T):
            yield from _flat(t)
    else:
        yield T


_FL = (float, _np.floating, _np.float64, _np.number, _np.inexact, _np.generic, numbers.Number, numbers.Complex, numbers.Real, object)
_IN = (int, _np.integer, _np.signedinteger, _np.int64, _np.number, _np.generic, numbers.Number, numbers.Complex, numbers.Real, numbers.Rational, numbers.Integral, object)
_BO = (bool, _np.bool_, int, object)


def s_isinstance(x, T):
    ts = list(_flat(T))
    if isinstance(x, Sym):
        tab = _FL if isinstance(x, SymFloat) else (_IN if isinstance(x, SymInt) else _BO)
        for t in ts:
            if t in tab or (isinstance(t, type) and isinstance(x, t) and t is not Sym and issubclass(t, Sym)):
                return True
        return False
    return isinstance(x, tuple(ts)) if not any(t is None for t in ts) else isinstance(x, T)


def s_max(*a, key=None, **kw):
    if key is None and len(a) == 1 and isinstance(a[0], SymArray):
        return np_max(a[0])
    if key is not None:
        return max(*a, key=key, **kw)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        return max(*a, **kw)
    if not any(is_sym(x) for x in xs):
        return max(xs)
    r = xs[0]
    for x in xs[1:]:
        # Python: x replaces r iff x > r
        if _is_special(r) or _is_special(x):
            r = x if x > r else r
        else:
            r = ite(x > r, x, r)
    return r


def s_min(*a, key=None, **kw):
    if key is None and len(a) == 1 and isinstance(a[0], SymArray):
        return np_min(a[0])
    if key is not None:
        return min(*a, key=key, **kw)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not xs:
        return min(*a, **kw)
    if not any(is_sym(x) for x in xs):
        return min(xs)
    r = xs[0]
    for x in xs[1:]:
        if _is_special(r) or _is_special(x):
            r = x if x < r else r
        else:
            r = ite(x < r, x, r)
    return r


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def s_any(xs):
    for x in xs:
        if x:
            return True
    return False


# --------------------------------------------------------------------------------------------------- module proxies
def _ufunc_wrapper(name, real):
    f1, f2 = UF1.get(name), UF2.get(name)

    def g(*a, **kw):
        if any(has_sym(x) for x in a) or has_sym(kw.get("out", None)):
            a = tuple(sarr(x) if isinstance(x, (list, tuple)) else x for x in a)
            o = kw.pop("out", None)
            if o is not None:
                kw["out"] = o if isinstance(o, tuple) else (o,)
            r = array_ufunc(real, "__call__", *a, **kw)
            return _np.float64(r) if type(r) is float else r
        return real(*a, **kw)

    g.__name__ = name
    for m in ("reduce", "accumulate", "at", "outer"):
        def meth(*a, _m=m, **kw):
            if any(has_sym(x) for x in a):
                return array_ufunc(real, _m, *a, **kw)
            return getattr(real, _m)(*a, **kw)

        setattr(g, m, meth)
    g._shim_of = real
    return g


def _generic_wrapper(name, real):
    ov = OVERRIDES.get(name)

    def g(*a, **kw):
        if has_sym(list(a)) or has_sym(kw):
            if ov is not None:
                return ov(*a, **kw)
            if "dtype" in kw:
                kw["dtype"] = object if _float_like(kw["dtype"]) else _dt(kw["dtype"])
            return wrap(real(*_debase(tuple(sarr(x) if isinstance(x, (list,)) and has_sym(x, 0) else x for x in a)), **kw))
        if "dtype" in kw:
            kw["dtype"] = _dt(kw["dtype"])
        a = tuple(x._real if isinstance(x, ShimMeta) else x for x in a)
        if name in ("linspace", "logspace", "geomspace"):
            cap = NP_HOOKS.get("linspace_max")
            if cap is not None:
                n = a[2] if len(a) > 2 else kw.pop("num", 50)
                return real(a[0], a[1], min(n, cap), *a[3:], **kw)
        return real(*a, **kw)

    g.__name__ = name
    g._shim_of = real
    return g


class _LinalgShim:
    def __getattr__(self, n):
        real = getattr(_np.linalg, n)
        if n == "norm":
            def g(x, *a, **kw):
                return np_norm(x, *a, **kw) if has_sym(x) else real(x, *a, **kw)
            return g
        return real


class _RandomShim:
    def __getattr__(self, n):
        if n == "default_rng":
            def g(*a, **kw):
                hook = NP_HOOKS.get("default_rng")
                return hook(*a, **kw) if hook else _np.random.default_rng(*a, **kw)
            return g
        return getattr(_np.random, n)


NP_HOOKS: dict = {}


class _CClass:
    def __getitem__(self, k):
        if has_sym(list(k) if isinstance(k, tuple) else k):
            cols = [sarr(x).view(_np.ndarray) for x in k]
            cols = [c.reshape(-1, 1) if c.ndim == 1 else c for c in cols]
            return _np.concatenate(cols, axis=1).view(SymArray)
        return _np.c_[k]


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if name == "linalg":
            r = _LinalgShim()
        elif name == "random":
            r = _RandomShim()
        elif name == "c_":
            r = _CClass()
        elif name == "pow":
            r = _ufunc_wrapper("power", _np.power)
        elif name == "abs":
            r = _ufunc_wrapper("absolute", _np.absolute)
        elif name == "acos" or name == "asin" or name == "atan" or name == "atan2":
            real = getattr(_np, name)
            r = _ufunc_wrapper(real.__name__, real)
        elif name in NP_TYPES:
            r = NP_TYPES[name]
        elif name in CREATE:
            r = CREATE[name]
        else:
            real = getattr(_np, name)
            if isinstance(real, _np.ufunc):
                r = _ufunc_wrapper(real.__name__, real)
            elif isinstance(real, type) or not callable(real):
                r = real
            else:
                r = _generic_wrapper(name, real)
        c[name] = r
        return r


NP = NumpyShim()


def _m1(name, symf):
    real = getattr(_math, name)

    def g(x, *a):
        if isinstance(x, SymArray):
            x = x.item()
        if isinstance(x, Sym):
            return symf(x, *a)
        if any(is_sym(y) for y in a):
            return symf(x, *a)
        return real(x, *a)

    g.__name__ = name
    return g


def _mlog(x, base=None):
    if base is None:
        return E.sym_log(x, np_style=False)
    if is_sym(base):
        return E.sym_log(x, np_style=False) / E.sym_log(base, np_style=False)
    return E.sym_log(x, base=base, np_style=False)


def _mhypot(*xs):
    if not any(is_sym(x) for x in xs):
        return _math.hypot(*xs)
    s = 0
    for x in xs:
        s = s + x * x
    return E.sym_sqrt(s)


def _asin_m(f):
    def g(x):
        r = f(x)
        if _isnan(r):
            raise ValueError("math domain error")
        return r

    return g


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        d = self.__dict__
        d.update({k: v for k, v in vars(_math).items() if not k.startswith("__")})
        for n, f in {
            "sqrt": E.sym_sqrt, "exp": E.sym_exp, "log": _mlog, "log10": lambda x: E.sym_log(x, 10, False),
            "log2": lambda x: E.sym_log(x, 2, False), "log1p": lambda x: E.sym_log(x + 1, np_style=False),
            "expm1": lambda x: E.sym_exp(x) - 1, "exp2": lambda x: E.sym_pow(2.0, x), "cbrt": _cbrt,
            "sin": E.sym_sin, "cos": E.sym_cos, "tan": lambda x: E.sym_sin(x) / E.sym_cos(x),
            "asin": _asin_m(E.sym_asin), "acos": _asin_m(E.sym_acos), "atan": E.sym_atan,
            "floor": lambda x: x.__floor__(), "ceil": lambda x: x.__ceil__(), "trunc": lambda x: x.__trunc__(),
            "fabs": lambda x: abs(x), "isnan": lambda x: False, "isinf": lambda x: False, "isfinite": lambda x: True,
            "radians": lambda x: x * (_math.pi / 180.0), "degrees": lambda x: x * (180.0 / _math.pi),
        }.items():
            d[n] = _m1(n, f)
        d["hypot"] = _mhypot
        d["pow"] = lambda a, b: E.sym_pow(a, b) if is_sym(a) or is_sym(b) else _math.pow(a, b)
        d["atan2"] = lambda a, b: _atan2(a, b)
        d["copysign"] = lambda a, b: _copysign(a, b) if is_sym(a) or is_sym(b) else _math.copysign(a, b)
        d["fsum"] = lambda xs: s_sum(xs)
        d["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
            abs(a - b) <= s_max(rel_tol * s_max(abs(a), abs(b)), abs_tol) if is_sym(a) or is_sym(b) else _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        )
        d["fmod"] = lambda a, b: (a - b * _toint(a / b)) if is_sym(a) or is_sym(b) else _math.fmod(a, b)
        d["prod"] = lambda xs, start=1: _reduce(operator.mul, list(xs), None, start)


MATH = MathShim()


# --------------------------------------------------------------------------------------------------- scipy stand-ins
class RootResult:
    def __init__(self, root, converged=True):
        self.root = root
        self.converged = converged
        self.flag = "converged"
        self.iterations = 1
        self.function_calls = 1

    def __getitem__(self, k):
        return getattr(self, k)


def root_scalar(f, args=(), method=None, bracket=None, fprime=None, x0=None, x1=None, **kw):
    """Assumed correct solver: returns some root of f (inside the bracket when one is given)."""
    p = E.CUR
    import scipy.optimize

    if p is None:
        return scipy.optimize.root_scalar(f, args, method=method, bracket=bracket, fprime=fprime, x0=x0, x1=x1, **kw)
    if not isinstance(args, tuple):
        args = (args,)
    if bracket is not None:
        a, b = bracket[0], bracket[1]
        fa, fb = f(a, *args), f(b, *args)
        fa, fb = _tofloat(fa), _tofloat(fb)
        if not any(E.is_sym(v) for v in (a, b, fa, fb)):
            return scipy.optimize.root_scalar(f, args, method=method, bracket=bracket, fprime=fprime, x0=x0, x1=x1, **kw)
        p.link_points([E.Fraction(float(v)) for v in (a, b) if not E.is_sym(v)])
        if bool(fa == 0):
            return RootResult(_tofloat(a))
        if bool(fb == 0):
            return RootResult(_tofloat(b))
        pos_a, pos_b = bool(fa > 0), bool(fb > 0)
        if pos_a == pos_b:
            raise ValueError("f(a) and f(b) must have different signs")
    x = SymFloat(p.fresh("real", "root"))
    if bracket is not None:
        p.assume((x >= E.smin(a, b)) & (x <= E.smax(a, b)))
    fx = _tofloat(f(x, *args))
    p.assume(fx == 0)
    return RootResult(x)


# --------------------------------------------------------------------------------------------------- installation
def _noop(*a, **k):
    return None


class _Tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, n):
        return _noop


BUILTIN_SHADOWS = {"float": FLOAT, "int": INT, "isinstance": s_isinstance, "max": s_max, "min": s_min, "sum": s_sum, "print": _noop}


def _translate_global(v, memo):
    """Replacement for one module global, or None to leave it alone."""
    if v is _np:
        return NP
    if v is _math:
        return MATH
    if isinstance(v, _np.ufunc):
        return getattr(NP, v.__name__)
    mod = getattr(v, "__module__", None)
    name = getattr(v, "__name__", None)
    if isinstance(v, types.BuiltinFunctionType) and mod == "math":
        return getattr(MATH, name, None)
    if callable(v) and isinstance(name, str) and mod in ("numpy", "numpy.linalg", "numpy.random"):
        if not isinstance(v, type) and getattr(_np, name, None) is v:
            return getattr(NP, name)
        if isinstance(v, type) and name in NP_TYPES and getattr(_np, name) is v:
            return NP_TYPES[name]
        if mod == "numpy.linalg" and name == "norm":
            return NP.linalg.norm
        if name == "default_rng":
            return NP.random.default_rng
    if name == "root_scalar" and mod and mod.startswith("scipy"):
        return root_scalar
    if name == "tqdm" and isinstance(v, type):
        return _Tqdm
    return None


class Installed:
    """Context manager: install the stand-ins in every cratermaker module (plus extra global overrides)."""

    def __init__(self, prefix="cratermaker"):
        self.prefix = prefix

    def __enter__(self):
        self.saved = []
        for mname, mod in list(sys.modules.items()):
            if mod is None or not (mname == self.prefix or mname.startswith(self.prefix + ".")):
                continue
            g = vars(mod)
            new = {}
            for k, v in list(g.items()):
                if k.startswith("__"):
                    continue
                try:
                    r = _translate_global(v, None)
                except Exception:
                    r = None
                if r is not None:
                    new[k] = r
            for k, v in BUILTIN_SHADOWS.items():
                if k not in g:
                    new[k] = v
            for k, v in new.items():
                self.saved.append((g, k, g.get(k, _MISSING)))
                g[k] = v
        self._imp = builtins.__import__
        real_imp = self._imp
        prefix = self.prefix

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and globals is not None and str(globals.get("__name__", "")).startswith(prefix):
                if name == "math":
                    return MATH
                if name == "numpy":
                    return NP
                if name == "numpy.linalg" and fromlist:
                    return NP.linalg
                if name == "scipy.optimize" and fromlist and "root_scalar" in fromlist:
                    m = types.SimpleNamespace(**{n: getattr(real_imp(name, globals, locals, fromlist, level), n) for n in fromlist})
                    m.root_scalar = root_scalar
                    return m
            return real_imp(name, globals, locals, fromlist, level)

        builtins.__import__ = imp
        return self

    def __exit__(self, *a):
        builtins.__import__ = self._imp
        for g, k, v in reversed(self.saved):
            if v is _MISSING:
                g.pop(k, None)
            else:
                g[k] = v
        return False


_MISSING = object()
