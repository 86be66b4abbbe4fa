"""numpy arrays of symbolic scalars, and shims of numpy functions."""

from __future__ import annotations

import builtins
import functools
import math
from fractions import Fraction

import numpy as np

from . import core
from .core import (
    SymBool,
    SymInt,
    SymReal,
    Unsupported,
    is_sym,
    ite,
    land,
    lnot,
    lor,
    to_real,
)

_FLOATS = (float, np.floating)


class SymArray(np.ndarray):
    """Object array of python numbers and symbolic scalars.

    `kind` ('f', 'i', 'b' or None) emulates the dtype of the array; `bits` is the size of
    unsigned integers with overflows (8, 16...; None: no overflow).
    """

    kind = None
    bits = None

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, "kind", None)
        self.bits = getattr(obj, "bits", None)

    def int_dtype(self):
        return np.dtype(f"u{self.bits // 8}")

    # -- conversions
    def astype(self, dtype, *args, **kwargs):
        if dtype is object:
            return self.copy()
        k = np.dtype(dtype).kind
        if k == "O":
            # the type of another symbolic array
            return self.copy()
        if k == "i" and np.dtype(dtype).itemsize in (4, 8):
            # conversion of nan (x86)
            vmin = -(2 ** (8 * np.dtype(dtype).itemsize - 1))

            def conv(x):
                if isinstance(x, float) and x != x:
                    return vmin
                return scalar_astype(x, k)

        else:

            def conv(x):
                return scalar_astype(x, k)

        out = _map(conv, self)
        out.kind = {"u": "i"}.get(k, k)
        size = np.dtype(dtype).itemsize * 8
        if k == "u" and size < 64:
            out = wrap_unsigned(out, size)
        return out

    def concretize_bool(self):
        return np.array(
            [bool(x) for x in self.ravel().tolist()], dtype=bool
        ).reshape(self.shape)

    def _fix_key(self, key):
        if isinstance(key, tuple):
            return tuple(self._fix_one(k) for k in key)
        return self._fix_one(key)

    def _fix_one(self, k):
        if isinstance(k, np.ndarray) and k.dtype == object:
            vals = k.ravel().tolist()
            if all(core._isboolish(v) for v in vals):
                return np.array([bool(v) for v in vals], dtype=bool).reshape(k.shape)
            return np.array([int(v) for v in vals], dtype=np.intp).reshape(k.shape)
        if isinstance(k, list):
            if any(is_sym(x) for x in k):
                return self._fix_one(np.array(k, dtype=object))
        if type(k) is SymInt:
            return k.__index__()
        if type(k) is SymBool:
            return bool(k)
        if isinstance(k, slice):
            return slice(_idx(k.start), _idx(k.stop), _idx(k.step))
        return k

    def __getitem__(self, key):
        if isinstance(key, str):
            return super().__getitem__(key)
        return super().__getitem__(self._fix_key(key))

    def __setitem__(self, key, value):
        value = self._coerce(value)
        if (
            isinstance(key, np.ndarray)
            and key.dtype == object
            and key.shape == self.shape
            and any(type(v) is SymBool for v in key.ravel().tolist())
            and (not isinstance(value, np.ndarray) or value.ndim == 0)
        ):
            # masked assignment of a scalar: merged, no path split
            if isinstance(value, np.ndarray):
                value = value.item()
            for idx in np.ndindex(*self.shape):
                old = super().__getitem__(idx)
                super().__setitem__(idx, ite(key[idx], value, old))
            return
        super().__setitem__(self._fix_key(key), value)

    def _coerce(self, value):
        kind = self.kind
        if kind not in ("i", "b", "f"):
            return value
        if isinstance(value, np.ndarray):
            if value.dtype.kind == kind:
                return value
            return _map(lambda x: scalar_astype(x, kind), value)
        if isinstance(value, (list, tuple)):
            return self._coerce(_obj(value))
        if core._isnum(value):
            return scalar_astype(value, kind)
        return value

    def cumsum(self, axis=None, **kw):
        return np.cumsum(self, axis=axis)

    @property
    def real(self):
        return _map(lambda x: x.real, self)

    @property
    def imag(self):
        return _map(lambda x: x.imag, self)

    def conj(self):
        return _map(lambda x: x.conjugate(), self)

    conjugate = conj

    # -- ufuncs and functions
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        impl = FUNCTIONS.get(func)
        if impl is not None:
            return impl(*args, **kwargs)
        if not _deep_sym((args, kwargs)):
            # nothing symbolic: the real function
            return func(*_plain_args(args), **_plain_args(kwargs))
        r = super().__array_function__(func, types, args, kwargs)
        if type(r) is np.ndarray and r.dtype == object and func in KEEP_CLASS:
            r = r.view(SymArray)
            r.kind = _guess_kind(r)
        return r

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array is ambiguous")
        return bool(self.ravel().tolist()[0])

    def __round__(self, n=None):
        return np.round(self)

    def any(self, axis=None, out=None, keepdims=False):
        if axis is None:
            return lor([_truth(x) for x in self.ravel().tolist()])
        return _along(self, axis, lambda v: lor([_truth(x) for x in v]))

    def all(self, axis=None, out=None, keepdims=False):
        if axis is None:
            return land([_truth(x) for x in self.ravel().tolist()])
        return _along(self, axis, lambda v: land([_truth(x) for x in v]))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return _reduce(self, axis, lambda v: _sum(v), keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return _reduce(self, axis, lambda v: functools.reduce(lambda a, b: a * b, v, 1), keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return _reduce(self, axis, lambda v: _div(_sum(v), len(v)), keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        def f(v):
            m = _div(_sum(v), len(v))
            return _div(_sum([(x - m) * (x - m) for x in v]), len(v) - ddof)

        return _reduce(self, axis, f, keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False):
        return _reduce(self, axis, _vmax, keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return _reduce(self, axis, _vmin, keepdims)

    def argmax(self, axis=None, out=None):
        return _reduce(self, axis, lambda v: _vargmax(v), False)

    def argmin(self, axis=None, out=None):
        return _reduce(self, axis, lambda v: _vargmax([_neg1(x) for x in v]), False)

    def round(self, decimals=0, out=None):
        return _map(lambda x: x.__round__(decimals) if decimals else _rint(x), self)

    def clip(self, a_min=None, a_max=None, out=None):
        def f(x):
            if a_min is not None:
                x = ite(x < a_min, a_min, x)
            if a_max is not None:
                x = ite(x > a_max, a_max, x)
            return x

        r = _map(f, self)
        if out is not None:
            out[...] = r
        return r

    def nonzero(self):
        return np.nonzero(self.concretize_bool())

    def sort(self, axis=-1, **kw):
        r = _sort(self, axis)
        self[...] = r

    def tolist(self):
        return super().tolist()

    def fill(self, value):
        self[...] = value


def _neg1(x):
    return -x


def _truth(x):
    if core._isboolish(x):
        return x
    return x != 0


def _idx(k):
    if type(k) is SymInt:
        return k.__index__()
    return k


def _obj(x):
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype != object else np.asarray(x)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        parts = [_obj(y) for y in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shape = parts[0].shape
        out = np.empty((len(parts),) + shape, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p.item()
        return out
    a = np.empty((), dtype=object)
    if isinstance(x, np.generic):
        x = x.item()
    a[()] = x
    return a


def has_sym(x):
    if is_sym(x):
        return True
    if type(x) is SymArray:
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def _guess_kind(a):
    kinds = set()
    for v in a.ravel().tolist():
        if isinstance(v, (complex, np.complexfloating)):
            kinds.add("c")
        elif core._isboolish(v):
            kinds.add("b")
        elif type(v) is SymInt or (
            type(v) is not SymReal and isinstance(v, (int, np.integer))
        ):
            kinds.add("i")
        else:
            kinds.add("f")
    if "c" in kinds:
        return "c"
    if "f" in kinds:
        return "f"
    if "i" in kinds:
        return "i"
    if "b" in kinds:
        return "b"
    return None


# functions that move values, written in Python with numpy.empty_like
KEEP_CLASS = {np.roll, np.fft.fftshift, np.fft.ifftshift, np.rot90, np.flip, np.moveaxis}


def as_symarray(x, kind=None):
    if type(x) is SymArray:
        return x
    a = _obj(x)
    r = a.view(SymArray)
    r.kind = kind or _guess_kind(a)
    return r


def build(shape, f):
    a = np.empty(shape, dtype=object).view(SymArray)
    for idx in np.ndindex(*a.shape):
        np.ndarray.__setitem__(a, idx, f(idx))
    a.kind = _guess_kind(a)
    return a


def scalar_astype(x, k):
    if x is None:
        return x
    if is_sym(x):
        if k == "c":
            return core.to_complex(x)
        return x.astype({"f": float, "i": int, "u": int, "b": bool}[k])
    if k == "f":
        return float(x)
    if k in "iu":
        return int(x)
    if k == "b":
        return bool(x)
    if k == "c":
        return complex(x)
    raise Unsupported(f"astype kind {k}")


def _map(f, *arrays):
    arrays = np.broadcast_arrays(*[_obj(a) for a in arrays])
    out = np.empty(arrays[0].shape, dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = f(*[a[idx] for a in arrays])
    out = out.view(SymArray)
    out.kind = _guess_kind(out)
    return out


def _along(a, axis, f):
    a = _obj(a)
    if isinstance(axis, tuple):
        if len(axis) == 1:
            return _along(a, axis[0], f)
        axis = tuple(ax % a.ndim for ax in axis)
        keep = [i for i in range(a.ndim) if i not in axis]
        a = a.transpose(keep + list(axis))
        a = a.reshape(a.shape[: len(keep)] + (-1,))
        axis = -1
        if not keep:
            return f(a.tolist())
    a = np.moveaxis(a, axis, -1)
    out = np.empty(a.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = f(a[idx].tolist())
    out = out.view(SymArray)
    out.kind = _guess_kind(out)
    return out


def _reduce(a, axis, f, keepdims=False):
    if keepdims not in (False, np._NoValue):
        raise Unsupported("keepdims")
    if axis is None:
        return f(_obj(a).ravel().tolist())
    if _obj(a).ndim == 1:
        return f(_obj(a).tolist())
    return _along(a, axis, f)


def _sum(v):
    r = 0
    for x in v:
        if core._isboolish(x):
            x = x._int() if is_sym(x) else int(x)
        r = x + r
    return r


def _div(a, b):
    if is_sym(a) or is_sym(b):
        return to_real(a) / b
    if b == 0:
        return float("nan")
    return a / b


def _vmax(v):
    # NaN propagates
    r = v[0]
    for x in v[1:]:
        r = _max2(r, x)
    return r


def _vmin(v):
    # NaN propagates
    r = v[0]
    for x in v[1:]:
        r = _max2(r, x, _le)
    return r


def _max2(a, b, cmp=None):
    c = (cmp or _ge)(a, b)
    if is_sym(c) and core.cur().split_minmax:
        c = bool(c)
    an = _isnan(a)
    bn = _isnan(b)
    r = ite(c, a, b)
    if an is not False:
        r = ite(an, a, r)
    if bn is not False:
        r = ite(land(bn, lnot(an)), b, r)
    return r


def _le(a, b):
    return a <= b


def _ge(a, b):
    return a >= b


def _vargmax(v):
    best, ibest = v[0], 0
    for i, x in enumerate(v[1:], 1):
        better = x > best
        bn = _isnan(best)
        if bn is not False:
            better = land(better, lnot(bn))
        xn = _isnan(x)
        if xn is not False:
            better = lor(better, land(xn, lnot(bn)))
        ibest = ite(better, i, ibest)
        best = ite(better, x, best)
    return ibest


def _isnan(x):
    if type(x) is SymReal:
        return x.isnan()
    if is_sym(x) or isinstance(x, (int, np.integer, bool, np.bool_)):
        return False
    if x is None:
        return False
    return math.isnan(x)


def _isinf(x):
    if is_sym(x):
        return False
    return math.isinf(x)


def _meth(name, fallback):
    def f(x):
        if is_sym(x):
            return getattr(to_real(x), name)()
        return fallback(x)

    return f


def _rint(x):
    if type(x) is SymReal:
        return x.rint()
    if is_sym(x):
        return x
    return np.rint(x)


def _npcall(uf):
    def f(*xs):
        with np.errstate(all="ignore"):
            r = uf(*xs)
        return r.item() if isinstance(r, np.generic) else r

    return f


def _fmax(a, b):
    r = ite(a >= b, a, b)
    an, bn = _isnan(a), _isnan(b)
    if an is not False:
        r = ite(an, b, r)
    if bn is not False:
        r = ite(bn, a, r)
    return r


def _np_div(a, b):
    if is_sym(a) or is_sym(b):
        return to_real(a) / b
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def _minimum2(a, b):
    return -_max2(-a, -b)


def _sub(a, b):
    return a - b


UFUNCS = {
    np.add: lambda a, b: a + b,
    np.subtract: lambda a, b: a - b,
    np.multiply: lambda a, b: a * b,
    np.true_divide: _np_div,
    np.floor_divide: lambda a, b: a // b,
    np.remainder: lambda a, b: a % b,
    np.power: lambda a, b: a**b,
    np.negative: lambda a: -a,
    np.positive: lambda a: a,
    np.absolute: abs,
    np.fabs: abs,
    np.square: lambda a: a * a,
    np.less: lambda a, b: a < b,
    np.less_equal: lambda a, b: a <= b,
    np.greater: lambda a, b: a > b,
    np.greater_equal: lambda a, b: a >= b,
    np.equal: lambda a, b: a == b,
    np.not_equal: lambda a, b: a != b,
    np.logical_and: lambda a, b: land(_truth(a), _truth(b)),
    np.logical_or: lambda a, b: lor(_truth(a), _truth(b)),
    np.logical_not: lambda a: lnot(_truth(a)),
    np.bitwise_and: lambda a, b: land(a, b) if core._isboolish(a) else a & b,
    np.bitwise_or: lambda a, b: lor(a, b) if core._isboolish(a) else a | b,
    np.bitwise_xor: lambda a, b: a ^ b,
    np.invert: lambda a: lnot(a) if core._isboolish(a) else ~a,
    np.isnan: _isnan,
    np.isinf: _isinf,
    np.isfinite: lambda a: lnot(lor(_isnan(a), _isinf(a))),
    np.sqrt: _meth("sqrt", _npcall(np.sqrt)),
    np.exp: _meth("exp", _npcall(np.exp)),
    np.log: _meth("log", _npcall(np.log)),
    np.sin: _meth("sin", _npcall(np.sin)),
    np.cos: _meth("cos", _npcall(np.cos)),
    np.tan: _meth("tan", _npcall(np.tan)),
    np.tanh: _meth("tanh", _npcall(np.tanh)),
    np.floor: _meth("floor", _npcall(np.floor)),
    np.ceil: _meth("ceil", _npcall(np.ceil)),
    np.trunc: lambda a: to_real(to_real(a).trunc()) if is_sym(a) else np.trunc(a).item(),
    np.rint: _rint,
    np.maximum: _max2,
    np.minimum: _minimum2,
    np.fmax: _fmax,
    np.fmin: lambda a, b: -_fmax(-a, -b),
    np.conjugate: lambda a: a.conjugate(),
    np.sign: lambda a: ite(a > 0, 1, ite(a < 0, -1, 0)),
}
UFUNCS[np.divide] = _np_div


def _hypot(a, b):
    r = a * a + b * b
    return r.sqrt() if is_sym(r) else math.sqrt(r)


def _copysign(a, b):
    # (no negative zero)
    return ite(b < 0, -abs(a), abs(a))


def _symonly(f, npf):
    """`f` only for symbolic arguments"""

    def g(*args):
        if any(is_sym(a) for a in args):
            return f(*args)
        return npf(*args).item()

    return g


for _uf, _f in (
    (np.hypot, _hypot),
    (np.reciprocal, lambda a: _np_div(1.0, a)),
    (np.logical_xor, lambda a, b: lnot(_truth(a)) if _truth(b) is True else (
        _truth(a) if _truth(b) is False else ite(_truth(b), lnot(_truth(a)), _truth(a)))),
    (np.float_power, lambda a, b: to_real(a) ** b),
    (np.copysign, _copysign),
    (np.signbit, lambda a: a < 0),
    (np.heaviside, lambda a, b: ite(a > 0, 1.0, ite(a < 0, 0.0, b))),
    (np.deg2rad, lambda a: a * (math.pi / 180)),
    (np.radians, lambda a: a * (math.pi / 180)),
    (np.rad2deg, lambda a: a * (180 / math.pi)),
    (np.degrees, lambda a: a * (180 / math.pi)),
):
    UFUNCS[_uf] = _symonly(_f, _uf)


def _deep_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(v) for v in x)
    if isinstance(x, dict):
        return any(_deep_sym(v) for v in x.values())
    return False


def plain_array(a):
    """Ordinary numpy array of a SymArray without symbolic content."""
    kind = a.kind or _guess_kind(a)
    dtype = {"f": float, "i": int, "b": bool}.get(kind)
    if dtype is None:
        return np.asarray(a).view(np.ndarray)
    return np.array(a.tolist(), dtype=dtype).reshape(a.shape)


def _plain_args(x):
    if type(x) is SymArray:
        return plain_array(x)
    if isinstance(x, list):
        return [_plain_args(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_plain_args(v) for v in x)
    if isinstance(x, dict):
        return {k: _plain_args(v) for k, v in x.items()}
    return x


_BOOL_UFUNCS = {
    np.isnan, np.isfinite, np.logical_not, np.logical_and, np.logical_or,
    np.bitwise_and, np.bitwise_or, np.invert, np.less, np.less_equal, np.greater,
    np.greater_equal, np.equal, np.not_equal,
}


_WRAP_UFUNCS = {
    np.add, np.subtract, np.multiply, np.negative, np.power, np.square, np.floor_divide,
    np.remainder, np.maximum, np.minimum, np.absolute, np.positive,
}


def wrap_unsigned(a, bits):
    n = 2**bits
    out = _map(lambda x: x if not is_sym(x) and 0 <= x < n else x % n, a)
    out.kind, out.bits = "i", bits
    return out


def result_bits(ufunc, inputs):
    """size of the unsigned integers of the result"""
    if ufunc not in _WRAP_UFUNCS:
        return None
    sizes = []
    for x in inputs:
        if isinstance(x, SymArray):
            if x.bits is None:
                return None
            sizes.append(x.bits)
        elif isinstance(x, (np.ndarray, np.generic)):
            if x.dtype.kind == "u":
                sizes.append(8 * x.dtype.itemsize)
            elif x.dtype.kind != "b":
                return None
        elif not (type(x) is SymInt or isinstance(x, int) and not is_sym(x)):
            return None
    return max(sizes, default=None)


def dispatch_ufunc(ufunc, method, inputs, kwargs):
    if method == "__call__" and ufunc not in UFUNCS and ufunc is not np.matmul:
        if not _deep_sym((inputs, kwargs)):
            return ufunc(*_plain_args(inputs), **_plain_args(kwargs))
    out = kwargs.pop("out", None)
    kwargs.pop("casting", None)
    kwargs.pop("dtype", None)
    where = kwargs.pop("where", True)
    if where is not True:
        if method != "__call__" or len(inputs) > 2:
            raise Unsupported("ufunc where")
        target = out[0] if out is not None else None
        if target is None:
            raise Unsupported("ufunc where without out")
        if not isinstance(target, SymArray):
            raise Unsupported("out= into a plain array")
        # element by element: the function is not applied elsewhere
        shape = target.shape
        arrays = [np.broadcast_to(_obj(x), shape) for x in inputs]
        conds = np.broadcast_to(_obj(where), shape)
        for idx in np.ndindex(*shape):
            c = _truth(conds[idx])
            if c is True or (c is not False and bool(c)):
                target[idx] = UFUNCS[ufunc](*[x[idx] for x in arrays])
        return target
    if method == "reduce":
        return _ufunc_reduce(ufunc, inputs, kwargs)
    if method == "accumulate" and ufunc in UFUNCS:
        a = as_symarray(inputs[0])
        r = a.copy()
        r_m = np.moveaxis(r, kwargs.get("axis", 0), 0)
        for i in range(1, len(r_m)):
            r_m[i] = _map(UFUNCS[ufunc], r_m[i - 1], r_m[i])
        return r
    if method == "outer":
        a, b = (_obj(x) for x in inputs)
        return _map(UFUNCS[ufunc], a.reshape(a.shape + (1,) * b.ndim), b)
    if method != "__call__":
        raise Unsupported(f"ufunc {ufunc} {method}")
    if ufunc is np.matmul:
        r = matmul(*inputs)
    elif ufunc is np.divmod:
        raise Unsupported("divmod")
    else:
        f = UFUNCS.get(ufunc)
        if f is None:
            raise Unsupported(f"ufunc {ufunc}")
        if all(not isinstance(x, (np.ndarray, list, tuple)) for x in inputs):
            r = f(*[x.item() if isinstance(x, np.generic) else x for x in inputs])
        else:
            r = _map(f, *inputs)
            bits = result_bits(ufunc, inputs)
            if bits:
                r = wrap_unsigned(r, bits)
            if ufunc in _BOOL_UFUNCS and r.size and all(
                type(x) is bool for x in r.ravel().tolist()
            ):
                # can be an index of plain arrays
                r = np.array(r.tolist(), dtype=bool)
            if r.ndim == 0:
                r = r.item()
    if out is not None:
        (o,) = out
        if not isinstance(o, SymArray):
            raise Unsupported("out= into a plain array")
        o[...] = r
        return o
    return r


def _ufunc_reduce(ufunc, inputs, kwargs):
    a = as_symarray(inputs[0])
    axis = kwargs.get("axis", 0)
    if ufunc is np.add:
        return a.sum(axis=axis)
    if ufunc is np.multiply:
        return a.prod(axis=axis)
    if ufunc is np.maximum:
        return a.max(axis=axis)
    if ufunc is np.minimum:
        return a.min(axis=axis)
    if ufunc is np.logical_and:
        return a.all(axis=axis)
    if ufunc is np.logical_or:
        return a.any(axis=axis)
    raise Unsupported(f"reduce {ufunc}")


# --------------------------------------------------------------------------
# array functions

FUNCTIONS = {}


def implements(*funcs):
    def deco(f):
        for func in funcs:
            FUNCTIONS[func] = f
        return f

    return deco


@implements(np.where)
def where(cond, *args):
    if not args:
        if isinstance(cond, SymArray):
            return cond.nonzero()
        return np.where(cond)
    x, y = args
    return _map(ite, cond, x, y)


@implements(np.select)
def select(condlist, choicelist, default=0):
    r = default
    for cond, choice in zip(reversed(condlist), reversed(choicelist)):
        r = _map(ite, cond, choice, r)
    return r


@implements(np.copyto)
def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _map(ite, where, src, dst)


@implements(np.average)
def average(a, axis=None, weights=None, returned=False, **kw):
    if returned or kw:
        raise Unsupported("average")
    a = as_symarray(a)
    if weights is None:
        return a.mean(axis=axis)
    w = as_symarray(weights)
    if w.shape != a.shape:
        if axis is None or w.ndim != 1:
            raise Unsupported("average")
        shape = [1] * a.ndim
        shape[axis] = w.size
        w = w.reshape(shape)
        return (a * w).sum(axis=axis) / w.sum()
    return (a * w).sum(axis=axis) / w.sum(axis=axis)


@implements(np.bincount)
def bincount(x, weights=None, minlength=0):
    if has_sym(x) or weights is None:
        raise Unsupported("bincount")
    x = [int(v) for v in np.asarray(x).ravel().tolist()]
    out = [0.0] * max(minlength, max(x, default=-1) + 1)
    for i, w in zip(x, _obj(weights).ravel().tolist()):
        out[i] = out[i] + w
    return as_symarray(out)


@implements(np.linalg.det)
def det(a):
    m = as_symarray(a).tolist()
    if len(m) > 4 or any(isinstance(v, list) for row in m for v in row):
        raise Unsupported("det")

    def minor(rows, cols):
        if not rows:
            return 1.0
        r = 0.0
        for k, c in enumerate(cols):
            r = r + (-1) ** k * m[rows[0]][c] * minor(rows[1:], cols[:k] + cols[k + 1 :])
        return r

    n = tuple(range(len(m)))
    return minor(n, n)


@implements(np.nonzero)
def nonzero(a):
    return as_symarray(a).nonzero()


@implements(np.flatnonzero)
def flatnonzero(a):
    return as_symarray(a).ravel().nonzero()[0]


@implements(np.argwhere)
def argwhere(a):
    return np.transpose(as_symarray(a).nonzero())


@implements(np.sum)
def np_sum(a, axis=None, **kw):
    return as_symarray(a).sum(axis=axis)


@implements(np.prod)
def np_prod(a, axis=None, **kw):
    return as_symarray(a).prod(axis=axis)


@implements(np.mean)
def np_mean(a, axis=None, **kw):
    return as_symarray(a).mean(axis=axis)


@implements(np.std)
def np_std(a, axis=None, **kw):
    return as_symarray(a).std(axis=axis, ddof=kw.get("ddof", 0))


@implements(np.var)
def np_var(a, axis=None, **kw):
    return as_symarray(a).var(axis=axis, ddof=kw.get("ddof", 0))


@implements(np.max)
def np_max(a, axis=None, **kw):
    return as_symarray(a).max(axis=axis)


@implements(np.min)
def np_min(a, axis=None, **kw):
    return as_symarray(a).min(axis=axis)


@implements(np.ptp)
def np_ptp(a, axis=None, **kw):
    a = as_symarray(a)
    return a.max(axis=axis) - a.min(axis=axis)


@implements(np.argmax)
def np_argmax(a, axis=None, **kw):
    return as_symarray(a).argmax(axis=axis)


@implements(np.argmin)
def np_argmin(a, axis=None, **kw):
    return as_symarray(a).argmin(axis=axis)


def _drop_nan(v):
    """Path split on the NaN flags."""
    return [x for x in v if not _isnan(x)]


def _nanreduce(a, axis, f, empty=float("nan")):
    def g(v):
        v = _drop_nan(v)
        return f(v) if v else empty

    return _reduce(as_symarray(a), axis, g)


@implements(np.nanmax)
def nanmax(a, axis=None, **kw):
    return _nanreduce(a, axis, _vmax)


def _vvar(v):
    mean = _div(_sum(v), len(v))
    return _div(_sum([(x - mean) * (x - mean) for x in v]), len(v))


@implements(np.nanvar)
def nanvar(a, axis=None, **kw):
    return _nanreduce(a, axis, _vvar)


@implements(np.nanstd)
def nanstd(a, axis=None, **kw):
    return _nanreduce(a, axis, lambda v: to_real(_vvar(v)).sqrt())


@implements(np.inner)
def np_inner(a, b):
    a, b = as_symarray(a), as_symarray(b)
    if a.ndim == b.ndim == 1:
        return matmul(a, b)
    return matmul(a, b.T)


@implements(np.tensordot)
def np_tensordot(a, b, axes=2):
    a, b = as_symarray(a), as_symarray(b)
    if isinstance(axes, (int, np.integer)):
        axes = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    left, right = ([x] if isinstance(x, (int, np.integer)) else list(x) for x in axes)
    left, right = [i % a.ndim for i in left], [i % b.ndim for i in right]
    keep_a = [i for i in range(a.ndim) if i not in left]
    keep_b = [i for i in range(b.ndim) if i not in right]
    shape = tuple(a.shape[i] for i in keep_a) + tuple(b.shape[i] for i in keep_b)
    n = int(np.prod([a.shape[i] for i in left], dtype=int))
    x = a.transpose(keep_a + left).reshape((-1, n))
    y = b.transpose(right + keep_b).reshape((n, -1))
    return matmul(x, y).reshape(shape)


@implements(np.nanmin)
def nanmin(a, axis=None, **kw):
    return _nanreduce(a, axis, _vmin)


@implements(np.nanmean)
def nanmean(a, axis=None, **kw):
    return _nanreduce(a, axis, lambda v: _div(_sum(v), len(v)))


@implements(np.nansum)
def nansum(a, axis=None, **kw):
    return _nanreduce(a, axis, _sum, 0)


@implements(np.nanargmax)
def nanargmax(a, axis=None, **kw):
    def g(v):
        keep = [i for i, x in enumerate(v) if not _isnan(x)]
        if not keep:
            raise ValueError("All-NaN slice encountered")
        j = _vargmax([v[i] for i in keep])
        return keep[j.__index__() if is_sym(j) else j]

    return _reduce(as_symarray(a), axis, g)


@implements(np.nanargmin)
def nanargmin(a, axis=None, **kw):
    return nanargmax(-as_symarray(a), axis=axis)


@implements(np.nan_to_num)
def nan_to_num(a, copy=True, nan=0.0, **kw):
    r = _map(lambda x: ite(_isnan(x), nan, x), a)
    if not copy:
        a[...] = r
        return a
    return r


@implements(np.any)
def np_any(a, axis=None, **kw):
    return as_symarray(a).any(axis=axis)


@implements(np.all)
def np_all(a, axis=None, **kw):
    return as_symarray(a).all(axis=axis)


@implements(np.clip)
def np_clip(a, a_min=None, a_max=None, out=None, **kw):
    return as_symarray(a).clip(a_min, a_max, out=out)


@implements(np.round)
def np_round(a, decimals=0, **kw):
    return as_symarray(a).round(decimals)


@implements(np.count_nonzero)
def count_nonzero(a, axis=None, **kw):
    return _reduce(_map(_truth, a), axis, _sum)


@implements(np.isclose)
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _map(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


@implements(np.allclose)
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(isclose(a, b, rtol, atol))


@implements(np.array_equal)
def array_equal(a, b, **kw):
    a, b = _obj(a), _obj(b)
    if a.shape != b.shape:
        return False
    return np_all(_map(lambda x, y: x == y, a, b))


@implements(np.diff)
def np_diff(a, n=1, axis=-1, **kw):
    a = as_symarray(a)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s0 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s0[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s0)]
    return a


@implements(np.cumsum)
def np_cumsum(a, axis=None, **kw):
    a = as_symarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    out = a.copy()
    n = a.shape[axis]
    out_m = np.moveaxis(out, axis, 0)
    a_m = np.moveaxis(a, axis, 0)
    for i in range(1, n):
        out_m[i] = out_m[i - 1] + a_m[i]
    return out


@implements(np.dot)
def np_dot(a, b, out=None):
    a, b = as_symarray(a), as_symarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return matmul(a, b)


def matmul(a, b):
    a, b = _obj(a), _obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return _sum([x * y for x, y in zip(a.tolist(), b.tolist())])
    if a.ndim == 2 and b.ndim == 1:
        return as_symarray([matmul(a[i], b) for i in range(a.shape[0])])
    if a.ndim == 1 and b.ndim == 2:
        return as_symarray([matmul(a, b[:, j]) for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        return as_symarray(
            [[matmul(a[i], b[:, j]) for j in range(b.shape[1])] for i in range(a.shape[0])]
        )
    raise Unsupported("matmul ndim")


@implements(np.cross)
def np_cross(a, b, **kw):
    a, b = as_symarray(a), as_symarray(b)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise Unsupported("cross")
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    r = [a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0]
    return np.stack([as_symarray(x) for x in r], axis=-1)


def _sort(a, axis=-1):
    def f(v):
        # insertion network with merged min / max (no path split)
        v = list(v)
        n = len(v)
        for i in range(n):
            for j in range(n - 1 - i):
                c = v[j] <= v[j + 1]
                v[j], v[j + 1] = ite(c, v[j], v[j + 1]), ite(c, v[j + 1], v[j])
        return v

    a = as_symarray(a)
    if a.ndim == 1:
        return as_symarray(f(a.tolist()))
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        out[idx] = f(np.ndarray.__getitem__(m, idx).tolist())
    r = np.moveaxis(out, -1, axis).view(SymArray)
    r.kind = a.kind
    return r


@implements(np.sort)
def np_sort(a, axis=-1, **kw):
    return _sort(a, axis)


@implements(np.median)
def np_median(a, axis=None, **kw):
    def f(v):
        s = _sort(as_symarray(v)).tolist()
        n = len(s)
        if n % 2:
            return to_real(s[n // 2]) if is_sym(s[n // 2]) else float(s[n // 2])
        return _div(s[n // 2 - 1] + s[n // 2], 2)

    return _reduce(as_symarray(a), axis, f)


@implements(np.percentile)
def np_percentile(a, q, axis=None, **kw):
    if isinstance(q, (list, tuple, np.ndarray)):
        raise Unsupported("percentile with several q")

    def f(v):
        s = _sort(as_symarray(v)).tolist()
        pos = (len(s) - 1) * q / 100
        i = math.floor(pos)
        g = pos - i
        if g == 0:
            return s[i]
        return s[i] + (s[i + 1] - s[i]) * g

    return _reduce(as_symarray(a), axis, f)


@implements(np.histogram)
def np_histogram(*a, **k):
    raise Unsupported("histogram")


@implements(np.zeros_like, np.empty_like)
def zeros_like(a, dtype=None, **kw):
    kind = np.dtype(dtype).kind if dtype is not None else getattr(a, "kind", None)
    return alloc(kw.get("shape") or np.shape(a), kind or "f", 0)


@implements(np.ones_like)
def ones_like(a, dtype=None, **kw):
    kind = np.dtype(dtype).kind if dtype is not None else getattr(a, "kind", None)
    return alloc(np.shape(a), kind or "f", 1)


@implements(np.full_like)
def full_like(a, fill, dtype=None, **kw):
    r = zeros_like(a, dtype)
    r[...] = fill
    return r


def alloc(shape, kind, value):
    kind = {"u": "i"}.get(kind, kind)
    if type(shape) is SymInt:
        shape = shape.__index__()
    if isinstance(shape, (tuple, list, np.ndarray)):
        shape = tuple(int(n) for n in shape)
    a = np.empty(shape, dtype=object)
    if kind == "f":
        value = float(value)
    elif kind == "i":
        value = int(value)
    elif kind == "b":
        value = bool(value)
    a.fill(value)
    a = a.view(SymArray)
    a.kind = kind if kind in "fib" else None
    return a


@implements(np.interp)
def np_interp(*a, **k):
    raise Unsupported("interp")


@implements(np.cov)
def np_cov(*a, **k):
    raise Unsupported("cov")


@implements(np.linalg.norm)
def norm(x, ord=None, axis=None, **kw):
    if ord not in (None, 2):
        raise Unsupported("norm ord")
    x = as_symarray(x)
    return np.sqrt((x * x).sum(axis=axis))


@implements(np.linalg.inv)
def inv(a):
    a = as_symarray(a)
    n = a.shape[0]
    if n == 2:
        d = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        return as_symarray([[a[1, 1], -a[0, 1]], [-a[1, 0], a[0, 0]]]) / d
    if n == 3:
        m = a.tolist()
        c = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                r = [x for x in range(3) if x != i]
                s = [x for x in range(3) if x != j]
                minor = m[r[0]][s[0]] * m[r[1]][s[1]] - m[r[0]][s[1]] * m[r[1]][s[0]]
                c[j][i] = minor if (i + j) % 2 == 0 else -minor
        d = sum(m[0][k] * c[k][0] for k in range(3))
        return as_symarray(c) / d
    raise Unsupported("inv n")


@implements(np.linalg.solve)
def solve(a, b):
    return matmul(inv(a), b)


@implements(np.meshgrid)
def np_meshgrid(*xi, indexing="xy", **kw):
    xi = [as_symarray(x).ravel() for x in xi]
    if len(xi) != 2:
        raise Unsupported("meshgrid")
    x, y = xi
    if indexing == "xy":
        X = as_symarray(_obj([x.tolist()] * len(y)))
        Y = as_symarray(_obj([[v] * len(x) for v in y.tolist()]))
    else:
        X = as_symarray(_obj([[v] * len(y) for v in x.tolist()]))
        Y = as_symarray(_obj([y.tolist()] * len(x)))
    return [X, Y]


@implements(np.gradient)
def np_gradient(f, *varargs, axis=None, edge_order=1):
    f = as_symarray(f)
    if axis is None:
        axes = tuple(range(f.ndim))
    elif isinstance(axis, int):
        axes = (axis,)
    else:
        axes = axis
    if not varargs:
        varargs = (1.0,) * len(axes)
    elif len(varargs) == 1:
        varargs = varargs * len(axes)
    res = []
    for ax, h in zip(axes, varargs):
        g = np.moveaxis(f, ax, 0)
        out = np.moveaxis(f.copy(), ax, 0)
        out.kind = "f"
        n = g.shape[0]
        h = np.asarray(h) if not is_sym(h) and not isinstance(h, SymArray) else h
        if isinstance(h, np.ndarray) and h.ndim == 0:
            h = h.item()
        if isinstance(h, np.ndarray):
            x = h
            d = [x[i + 1] - x[i] for i in range(n - 1)]
        else:
            d = [h] * (n - 1)
        for i in range(1, n - 1):
            dm, dp = d[i - 1], d[i]
            if isinstance(h, np.ndarray):
                a = -dp / (dm * (dm + dp))
                b = (dp - dm) / (dm * dp)
                c = dm / (dp * (dm + dp))
                out[i] = a * g[i - 1] + b * g[i] + c * g[i + 1]
            else:
                out[i] = (g[i + 1] - g[i - 1]) / (2 * h)
        out[0] = (g[1] - g[0]) / d[0]
        out[n - 1] = (g[n - 1] - g[n - 2]) / d[-1]
        res.append(np.moveaxis(out, 0, ax))
    return res[0] if len(res) == 1 else res


@implements(np.unique)
def np_unique(a, **kw):
    if kw:
        raise Unsupported(f"unique with {sorted(kw)}")
    res = []
    for x in _obj(a).ravel().tolist():
        i = 0
        while i < len(res) and bool(res[i] < x):
            i += 1
        if i == len(res) or not bool(res[i] == x):
            res.insert(i, x)
    out = np.empty(len(res), dtype=object)
    out[:] = res
    return as_symarray(out, as_symarray(a).kind)


@implements(np.isin)
def np_isin(a, b, **kw):
    b = _obj(b).ravel().tolist()
    return _map(lambda x: lor([x == y for y in b]), a)


@implements(np.array2string, np.array_repr, np.array_str)
def np_repr(*a, **k):
    return "<symarray>"


@implements(np.may_share_memory)
def np_may_share_memory(a, b, *args):
    return False


# --------------------------------------------------------------------------
# shim of the numpy namespace and of a few builtins


class _ShimMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, cls._real)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls._real)

    def __eq__(cls, other):
        return other is cls or other is cls._real

    def __hash__(cls):
        return hash(cls._real)


class ShimInt(metaclass=_ShimMeta):
    _real = int
    dtype = np.dtype(int)
    from_bytes = int.from_bytes

    def __new__(cls, x=0, *args):
        if type(x) is SymReal:
            return x.trunc()
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return x._int()
        if isinstance(x, SymArray) and x.size == 1:
            return cls(x.ravel().tolist()[0])
        if type(x) is str and not args:
            v = core.from_numeral(x)
            if v is not None:
                return v
        return int(x, *args)


class ShimFloat(metaclass=_ShimMeta):
    _real = float
    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if is_sym(x):
            return to_real(x)
        if isinstance(x, SymArray) and x.size == 1:
            return cls(x.ravel().tolist()[0])
        if type(x) is str:
            v = core.from_numeral(x)
            if v is not None:
                return to_real(v)
        return float(x)


class ShimBool(metaclass=_ShimMeta):
    _real = bool
    dtype = np.dtype(bool)

    def __new__(cls, x=False):
        return bool(x)


def _dtype_kind(dtype, default="f"):
    if dtype is None:
        return default
    if dtype is object:
        return "O"
    return np.dtype(dtype).kind


def _exact(x):
    if is_sym(x):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(float(x))


def gauss_solve(a, b):
    """Exact solution of a x = b (b: matrix), with path splits on symbolic pivots."""
    a = [[_exact(x) for x in row] for row in _obj(a).tolist()]
    b = [[_exact(x) for x in row] for row in _obj(b).tolist()]
    n = len(a)
    if not any(is_sym(x) for row in a for x in row):
        inverse = _rounded_inverse(tuple(map(tuple, a)))
        cols = list(zip(*b))
        return [
            [_sum([x * y for x, y in zip(row, col) if x]) for col in cols]
            for row in inverse
        ]
    return _gauss_jordan(a, b)


@functools.lru_cache(maxsize=32)
def _rounded_inverse(a):
    """Exact inverse rounded to 240 bits after the point (short numbers for the solver)"""
    n = len(a)
    one = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    one = _gauss_jordan([list(row) for row in a], one)
    return [[Fraction(round(x * 2**240), 2**240) for x in row] for row in one]


def _gauss_jordan(a, b):
    n = len(a)
    for k in range(n):
        pivot = None
        # concrete pivots first
        order = sorted(range(k, n), key=lambda i: is_sym(a[i][k]))
        for i in order:
            if bool(a[i][k] != 0):
                pivot = i
                break
        if pivot is None:
            raise np.linalg.LinAlgError("Singular matrix")
        a[k], a[pivot] = a[pivot], a[k]
        b[k], b[pivot] = b[pivot], b[k]
        p = a[k][k]
        for i in range(n):
            if i == k:
                continue
            f = a[i][k]
            if not is_sym(f) and f == 0:
                continue
            f = f / p
            a[i] = [x - f * y if j > k else (Fraction(0) if j == k else x)
                    for j, (x, y) in enumerate(zip(a[i], a[k]))]
            b[i] = [x - f * y for x, y in zip(b[i], b[k])]
    return [[x / a[k][k] for x in b[k]] for k in range(n)]


class LinalgShim:
    """numpy.linalg, exact for symbolic (or, on request, all) arrays."""

    exact = False

    def __getattr__(self, name):
        return getattr(np.linalg, name)

    def solve(self, a, b):
        if not (self.exact or has_sym(a) or has_sym(b)):
            return np.linalg.solve(_plain_args(a), _plain_args(b))
        vec = np.ndim(b) == 1
        bb = [[x] for x in _obj(b).tolist()] if vec else b
        r = gauss_solve(a, _obj(bb))
        return as_symarray([x[0] for x in r] if vec else r, "f")

    def inv(self, a):
        if not (self.exact or has_sym(a)):
            return np.linalg.inv(_plain_args(a))
        return as_symarray(gauss_solve(a, np.eye(len(a), dtype=int)), "f")

    def pinv(self, a, *args, **kw):
        if not (self.exact or has_sym(a)):
            return np.linalg.pinv(_plain_args(a), *args, **kw)
        a = _map(_exact, a)
        m, n = a.shape
        if m >= n:
            # full column rank
            return as_symarray(gauss_solve(matmul(a.T, a), a.T), "f")
        return as_symarray(gauss_solve(matmul(a, a.T), a), "f").T

    def _numbers(self, a):
        """the numbers equal to the elements (numpy on floats)"""
        from .core import normal_number

        r = np.empty(np.shape(a))
        for idx in np.ndindex(*r.shape):
            r[idx] = normal_number(_obj(a)[idx])
        return r

    def svd(self, a, *args, **kw):
        return np.linalg.svd(self._numbers(a), *args, **kw)

    def eigh(self, a, *args, **kw):
        return np.linalg.eigh(self._numbers(a), *args, **kw)

    def eig(self, a, *args, **kw):
        return np.linalg.eig(self._numbers(a), *args, **kw)

    def lstsq(self, a, b, rcond=None):
        if not (self.exact or has_sym(a) or has_sym(b)):
            return np.linalg.lstsq(_plain_args(a), _plain_args(b), rcond=rcond)
        p = self.pinv(a)
        return matmul(p, as_symarray(b)), None, None, None

    def norm(self, a, ord=None, axis=None):
        if not has_sym(a):
            return np.linalg.norm(_plain_args(a), ord=ord, axis=axis)
        if ord not in (None, 2):
            raise Unsupported("norm")
        return _reduce(
            as_symarray(a), axis, lambda v: to_real(_sum([x * x for x in v])).sqrt()
        )

    def det(self, a):
        if not has_sym(a):
            return np.linalg.det(_plain_args(a))
        m = _obj(a).tolist()

        def det(m):
            if len(m) == 1:
                return m[0][0]
            r = 0
            for j, x in enumerate(m[0]):
                c = x * det([row[:j] + row[j + 1 :] for row in m[1:]])
                r = r + c if j % 2 == 0 else r - c
            return r

        return det(m)


_ROOTS = {1: [(1, 0)], 2: [(1, 0), (-1, 0)], 4: [(1, 0), (0, 1), (-1, 0), (0, -1)]}


def dft(a, axis, sign, norm=1):
    """Discrete Fourier transform (exact for sizes 1, 2 and 4, otherwise with the roots of
    unity rounded to double precision)."""
    a = np.moveaxis(_obj(a), axis, -1)
    n = a.shape[-1]
    if n not in _ROOTS:
        if n > 16:
            raise Unsupported(f"DFT of size {n}")
        angles = [2 * np.pi * k / n for k in range(n)]
        _ROOTS[n] = [
            tuple(0 if abs(v) < 1e-15 else float(v) for v in (np.cos(t), np.sin(t)))
            for t in angles
        ]
    w = _ROOTS[n]
    out = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape[:-1]):
        v = [core.to_complex(x) for x in a[idx].tolist()]
        for k in range(n):
            re, im = 0, 0
            for j, x in enumerate(v):
                c, s = w[(sign * j * k) % n]
                if c:
                    re = c * x.re + re
                    im = c * x.im + im
                if s:
                    re = -s * x.im + re
                    im = s * x.re + im
            if norm != 1:
                re = to_real(re) / norm
                im = to_real(im) / norm
            out[idx + (k,)] = core.SymComplex(re, im)
    out = np.moveaxis(out, -1, axis).view(SymArray)
    out.kind = "c"
    return out


class FFTShim:
    """numpy.fft with exact transforms of symbolic arrays."""

    def __getattr__(self, name):
        return getattr(np.fft, name)

    def _nd(self, a, axes, sign, norm):
        for ax in axes:
            n = np.shape(a)[ax]
            a = dft(a, ax, sign, n if norm else 1)
        return a

    def _sized(self, a, axes, s):
        """cut or padded with zeros"""
        if s is None:
            return a
        a = _obj(a)
        for ax, n in zip(axes, s):
            if n is None or n < 0 or n == a.shape[ax]:
                continue
            b = np.moveaxis(a, ax, -1)[..., :n]
            full = np.empty(b.shape[:-1] + (n,), dtype=object)
            full.fill(0)
            full[..., : b.shape[-1]] = b
            a = np.moveaxis(full, -1, ax).view(SymArray)
        return a

    def _transform(self, name, a, axes, sign, s=None, norm=None, out=None, single=False):
        if out is not None:
            raise Unsupported(f"numpy.fft.{name} with out")
        if not has_sym(a):
            kw = dict(n=s and s[0], axis=axes[0]) if single else dict(s=s, axes=axes)
            return getattr(np.fft, name)(a, norm=norm, **kw)
        a = self._sized(a, axes, s)
        if norm not in (None, "backward", "ortho", "forward"):
            raise ValueError(f"Invalid norm value {norm}")
        if norm == "ortho":
            n = int(np.prod([np.shape(a)[ax] for ax in axes]))
            r = self._nd(a, axes, sign, False)
            return r / (int(np.sqrt(n)) if int(np.sqrt(n)) ** 2 == n else float(np.sqrt(n)))
        return self._nd(a, axes, sign, (norm == "forward") == (sign == -1))

    def fft(self, a, n=None, axis=-1, norm=None, out=None):
        return self._transform("fft", a, (axis,), -1, n and (n,), norm, out, True)

    def ifft(self, a, n=None, axis=-1, norm=None, out=None):
        return self._transform("ifft", a, (axis,), 1, n and (n,), norm, out, True)

    def fft2(self, a, s=None, axes=(-2, -1), norm=None, out=None):
        return self._transform("fft2", a, axes, -1, s, norm, out)

    def ifft2(self, a, s=None, axes=(-2, -1), norm=None, out=None):
        return self._transform("ifft2", a, axes, 1, s, norm, out)

    def fftn(self, a, s=None, axes=None, norm=None, out=None):
        axes = tuple(range(np.ndim(a))) if axes is None else axes
        return self._transform("fftn", a, axes, -1, s, norm, out)

    def ifftn(self, a, s=None, axes=None, norm=None, out=None):
        axes = tuple(range(np.ndim(a))) if axes is None else axes
        return self._transform("ifftn", a, axes, 1, s, norm, out)

    def rfft2(self, a, axes=(-2, -1)):
        if not has_sym(a):
            return np.fft.rfft2(a, axes=axes)
        r = np.moveaxis(self.fft2(a, axes=axes), axes[-1], -1)
        r = r[..., : r.shape[-1] // 2 + 1]
        return np.moveaxis(r, -1, axes[-1])

    def irfft2(self, a, s=None, axes=(-2, -1)):
        if not has_sym(a):
            return np.fft.irfft2(a, s=s, axes=axes)
        a = np.moveaxis(_obj(a), axes, (-2, -1))
        n = s[-1] if s is not None else 2 * (a.shape[-1] - 1)
        return np.moveaxis(irdft2(a, n, True), (-2, -1), axes)

    rfft = irfft = None


def irdft2(a, n, norm):
    """Inverse transform of an half-complex array (last two axes): first the complex
    transform along the first axis, then the real transform, which ignores the
    imaginary part of the first (and last, when even) terms."""
    n0 = a.shape[-2]
    a = dft(a, -2, 1, n0 if norm else 1)
    full = np.empty(a.shape[:-1] + (n,), dtype=object)
    for idx in np.ndindex(*a.shape[:-1]):
        for k in range(n // 2 + 1):
            v = core.to_complex(a[idx + (k,)])
            if k == 0 or 2 * k == n:
                v = core.SymComplex(v.re, 0)
            full[idx + (k,)] = v
            if k and 2 * k != n:
                full[idx + (n - k,)] = v.conjugate()
    return dft(full, -1, 1, n if norm else 1).real


class FakePyFFTW:
    """pyfftw with exact (symbolic) transforms, not normalised on request."""

    @staticmethod
    def empty_aligned(shape, dtype="float64", **kw):
        return alloc(tuple(shape), np.dtype(dtype).kind, 0)

    zeros_aligned = empty_aligned

    class FFTW:
        def __init__(self, input_array, output_array, axes=(-1,), direction="FFTW_FORWARD", **kw):
            self.i, self.o, self.axes = input_array, output_array, axes
            self.direction = direction

        def __call__(self, normalise_idft=True):
            if tuple(a % 2 for a in self.axes) != (0, 1):
                raise Unsupported("axes of pyfftw")
            if self.direction == "FFTW_FORWARD":
                r = FFTShim().fft2(as_symarray(self.i))
                self.o[...] = r[..., : r.shape[-1] // 2 + 1]
            else:
                self.o[...] = irdft2(
                    as_symarray(self.i), self.o.shape[-1], normalise_idft
                )
            return self.o


class NumpyShim:
    """Stands for the module numpy in the modules of /repo during symbolic runs."""

    def __init__(self, real, allocate=True):
        self.__dict__["_np"] = real
        self.__dict__["_allocate"] = allocate

    def __getattr__(self, name):
        return getattr(self._np, name)

    def _dtype(self, dtype):
        return dtype

    def iinfo(self, dtype):
        # integers of any size stand for the integer types
        return np.iinfo(np.int64 if dtype == np.dtype(object) else dtype)

    def zeros(self, shape, dtype=None, **kw):
        if self._allocate:
            return alloc(shape, _dtype_kind(dtype), 0)
        return np.zeros(shape, dtype or float)

    def empty(self, shape, dtype=None, **kw):
        if self._allocate:
            return alloc(shape, _dtype_kind(dtype), 0)
        return np.empty(shape, dtype or float)

    def ones(self, shape, dtype=None, **kw):
        if self._allocate:
            return alloc(shape, _dtype_kind(dtype), 1)
        return np.ones(shape, dtype or float)

    def full(self, shape, fill, dtype=None, **kw):
        if self._allocate or is_sym(fill):
            kind = _dtype_kind(dtype, None)
            if kind is None:
                kind = (
                    "b" if core._isboolish(fill)
                    else "i" if type(fill) is SymInt or (isinstance(fill, (int, np.integer)) and not is_sym(fill))
                    else "f"
                )
            r = alloc(shape, kind, 0)
            r[...] = fill
            return r
        return np.full(shape, fill, dtype)

    def zeros_like(self, a, dtype=None, **kw):
        if self._allocate or has_sym(a):
            k = _dtype_kind(dtype, None) or getattr(a, "kind", None) or np.asarray(a).dtype.kind
            return alloc(np.shape(a), "f" if k == "O" else k, 0)
        return np.zeros_like(a, dtype=dtype)

    empty_like = zeros_like

    def ones_like(self, a, dtype=None, **kw):
        r = self.zeros_like(a, dtype)
        r[...] = 1
        return r

    def full_like(self, a, fill, dtype=None, **kw):
        r = self.zeros_like(a, dtype)
        r[...] = fill
        return r

    def array(self, x, dtype=None, **kw):
        if has_sym(x):
            r = as_symarray(x).copy() if isinstance(x, SymArray) else as_symarray(x)
            if isinstance(x, (list, tuple)) and x:
                bits = {getattr(y, "bits", None) for y in x}
                if len(bits) == 1:
                    r.bits = bits.pop()
            if dtype is not None and dtype is not object:
                r = r.astype(dtype)
            return r
        return np.array(x, dtype=dtype, **kw)

    def asarray(self, x, dtype=None, **kw):
        if has_sym(x):
            r = as_symarray(x)
            if dtype is not None and dtype is not object:
                r = r.astype(dtype)
            return r
        return np.asarray(x, dtype=dtype, **kw)

    asanyarray = asarray

    def ascontiguousarray(self, x, dtype=None):
        if has_sym(x):
            return self.asarray(x, dtype).copy()
        return np.ascontiguousarray(x, dtype=dtype)

    def atleast_1d(self, *xs):
        r = [as_symarray(x) if is_sym(x) else x for x in xs]
        r = [x.reshape(1) if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in r]
        if len(r) == 1:
            return r[0] if isinstance(r[0], SymArray) else np.atleast_1d(r[0])
        return r

    def arange(self, *args, dtype=None, **kw):
        if not any(is_sym(a) for a in args):
            r = np.arange(*args, dtype=dtype, **kw)
            return r
        if len(args) == 1:
            start, stop, step = 0, args[0], 1
        elif len(args) == 2:
            (start, stop), step = args, 1
        else:
            start, stop, step = args
        n = to_real(to_real(stop) - start) / step
        n = to_real(n).ceil()
        n = to_real(n).trunc()
        n = ite(n < 0, 0, n)
        n = n.__index__() if is_sym(n) else int(n)
        return as_symarray([start + i * step for i in range(n)]) if n else alloc((0,), "i", 0)

    def linspace(self, start, stop, num=50, **kw):
        if not has_sym((start, stop, num)):
            return np.linspace(start, stop, num, **kw)
        num = int(num)
        if num == 1:
            return as_symarray([to_real(start)])
        step = to_real(stop - start) / (num - 1)
        return as_symarray([to_real(start) + i * step for i in range(num)])

    def fromiter(self, x, dtype=None, count=-1, **kw):
        x = list(x)
        if not has_sym(x):
            return np.fromiter(x, dtype, count)
        return self.array(x if count < 0 else x[:count], dtype)

    def vectorize(self, func, *args, **kw):
        if args or kw:
            return np.vectorize(func, *args, **kw)
        real = np.vectorize(func)

        def call(*xs):
            if not has_sym(xs):
                return real(*xs)
            r = _map(func, *xs)
            return r if any(isinstance(x, (np.ndarray, list, tuple)) for x in xs) else r.item()

        return call

    def round(self, x, decimals=0, **kw):
        if is_sym(x):
            return _rint(x) if decimals == 0 else x.__round__(decimals)
        return np.round(x, decimals, **kw)

    around = round

    fft = FFTShim()
    linalg = LinalgShim()

    def mgrid(self):
        raise Unsupported("mgrid")

    def vstack(self, xs, **kw):
        return np.vstack([as_symarray(x) if has_sym(x) else x for x in xs])

    def hstack(self, xs, **kw):
        return np.hstack([as_symarray(x) if has_sym(x) else x for x in xs])

    def float64(self, x=0.0):
        return x if is_sym(x) or isinstance(x, SymArray) else np.float64(x)


def _passthrough(npy_type):
    class Shim(metaclass=_ShimMeta):
        _real = npy_type
        dtype = np.dtype(npy_type)

        def __new__(cls, x=0):
            if is_sym(x):
                return x.astype(npy_type)
            if isinstance(x, SymArray):
                return x.astype(npy_type)
            return npy_type(x)

    Shim.__name__ = npy_type.__name__
    return Shim


for _t in ("float32", "float64", "int32", "int64", "uint8", "uint16", "uint32", "int8", "int16"):
    setattr(NumpyShim, _t, _passthrough(getattr(np, _t)))


def shim_len(x):
    f = getattr(type(x), "__symlen__", None)
    if f is not None:
        return f(x)
    return builtins.len(x)


def shim_round(x, n=None):
    if is_sym(x):
        return x.__round__(n) if n is not None else x.__round__()
    return builtins.round(x, n) if n is not None else builtins.round(x)


def shim_max(*args, **kw):
    """max without path split for numbers."""
    xs = list(args[0]) if len(args) == 1 else list(args)
    if kw or not any(is_sym(x) for x in xs) or not all(core._isnum(x) for x in xs):
        return builtins.max(*args, **kw)
    r = xs[0]
    for x in xs[1:]:
        r = ite(x > r, x, r)
    return r


def shim_min(*args, **kw):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if kw or not any(is_sym(x) for x in xs) or not all(core._isnum(x) for x in xs):
        return builtins.min(*args, **kw)
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r


class MathShim:
    def __getattr__(self, name):
        return getattr(math, name)

    def sqrt(self, x):
        return to_real(x).sqrt() if is_sym(x) else math.sqrt(x)

    def hypot(self, *xs):
        if not any(is_sym(x) for x in xs):
            return math.hypot(*xs)
        return to_real(_sum([x * x for x in xs])).sqrt()

    def dist(self, p, q):
        return self.hypot(*[x - y for x, y in zip(p, q)])

    def fsum(self, xs):
        xs = list(xs)
        return _sum(xs) if any(is_sym(x) for x in xs) else math.fsum(xs)

    def prod(self, xs, *, start=1):
        for x in xs:
            start = start * x
        return start

    def fabs(self, x):
        return abs(x) if is_sym(x) else math.fabs(x)

    def isfinite(self, x):
        return lnot(_isnan(x)) if is_sym(x) else math.isfinite(x)

    def isclose(self, a, b, **kw):
        if not (is_sym(a) or is_sym(b)):
            return math.isclose(a, b, **kw)
        rel, abs_tol = kw.get("rel_tol", 1e-9), kw.get("abs_tol", 0.0)
        a, b = to_real(a), to_real(b)
        big = ite(abs(a) > abs(b), abs(a), abs(b))
        return lor(abs(a - b) <= rel * big, abs(a - b) <= abs_tol)

    def floor(self, x):
        return x.__floor__() if is_sym(x) else math.floor(x)

    def ceil(self, x):
        return x.__ceil__() if is_sym(x) else math.ceil(x)

    def isnan(self, x):
        return _isnan(x)

    def exp(self, x):
        return to_real(x).exp() if is_sym(x) else math.exp(x)

    def log(self, x, *a):
        return to_real(x).log() if is_sym(x) else math.log(x, *a)

    def log10(self, x):
        if not is_sym(x):
            return math.log10(x)
        raise Unsupported("log10")


class Shims:
    """Context manager: install the shims in all the loaded modules of /repo."""

    def __init__(
        self, allocate=True, prefix=("fluidimage",), extra=(), builtins_=True, replace=(),
        exact_linalg=False,
    ):
        self.exact_linalg = exact_linalg
        # pairs (real object, substitute), found in the modules by identity
        self.replace = replace() if callable(replace) else replace
        self.allocate = allocate
        self.prefix = prefix
        self.extra = list(extra)
        self.builtins_ = builtins_

    def __enter__(self):
        import sys

        self.saved = []
        npshim = NumpyShim(np, self.allocate)
        mshim = MathShim()
        names = dict(
            int=ShimInt,
            float=ShimFloat,
            round=shim_round,
            max=shim_max,
            min=shim_min,
            len=shim_len,
        )
        repl = {
            id(np): npshim,
            id(math): mshim,
            id(math.sqrt): mshim.sqrt,
            id(math.floor): mshim.floor,
            id(math.ceil): mshim.ceil,
            id(math.exp): mshim.exp,
            id(math.log): mshim.log,
            id(math.isnan): mshim.isnan,
            id(np.fft): npshim.fft,
            id(np.linalg): npshim.linalg,
        }
        npshim.linalg.exact = self.exact_linalg
        for name in ("solve", "inv", "pinv", "lstsq", "norm", "det"):
            repl[id(getattr(np.linalg, name))] = getattr(npshim.linalg, name)
        for name in ("fft", "ifft", "fft2", "ifft2", "fftn", "ifftn", "rfft2", "irfft2"):
            repl[id(getattr(np.fft, name))] = getattr(npshim.fft, name)
        if "pyfftw" in sys.modules:
            repl[id(sys.modules["pyfftw"])] = FakePyFFTW
        for real, substitute in self.replace:
            repl[id(real)] = substitute
        for attr in ("zeros", "empty", "ones", "arange", "linspace", "array", "asarray",
                     "zeros_like", "empty_like", "ones_like", "full", "float32",
                     "float64", "int32", "int64", "uint32", "ascontiguousarray"):
            repl[id(getattr(np, attr))] = getattr(npshim, attr)
        for modname, mod in list(sys.modules.items()):
            if mod is None or not any(
                modname == p or modname.startswith(p + ".") for p in self.prefix
            ):
                continue
            d = mod.__dict__
            for key, value in list(d.items()):
                if id(value) in repl and not key.startswith("__"):
                    self.saved.append((d, key, value, True))
                    d[key] = repl[id(value)]
            if self.builtins_:
                for key, value in names.items():
                    if key not in d:
                        self.saved.append((d, key, None, False))
                        d[key] = value
        for d, key, value in self.extra:
            self.saved.append((d, key, d.get(key), key in d))
            d[key] = value
        return self

    def __exit__(self, *exc):
        for d, key, value, existed in reversed(self.saved):
            if existed:
                d[key] = value
            else:
                d.pop(key, None)
        return False
