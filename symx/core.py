"""Path-exploring symbolic execution of real Python functions with z3.

The functions of /repo are executed by the normal CPython interpreter on proxy
objects (`SymBool`, `SymInt`, `SymReal`) which hold z3 terms.  When the code
branches on a symbolic condition (`__bool__`), the solver says which branches are
feasible and each feasible branch is explored (depth first, by re-execution).
Assertions (`eng.check`) are decided by the solver for all the values satisfying
the path condition.

The same harness function is also run by `ConcreteEngine`, on ordinary Python
values taken from a model and without any shim: this is how counterexamples are
replayed and how the symbolic semantics is validated.
"""

from __future__ import annotations

import builtins
import math
import numbers
import sys
import time
from fractions import Fraction

import numpy as np
import z3

# models with huge rational numbers
sys.set_int_max_str_digits(0)

_REAL_INT = builtins.int
_REAL_FLOAT = builtins.float
_REAL_BOOL = builtins.bool


class PathAbort(BaseException):
    """The path is infeasible or cut: leave it silently."""


class BudgetExceeded(BaseException):
    pass


class Unsupported(BaseException):
    """The engine cannot encode an operation: an error of the check."""


class Inconclusive(BaseException):
    """The solver answered unknown."""


class CheckFailed(BaseException):
    """A check failed in a concrete run."""

    def __init__(self, label, msg=""):
        super().__init__(f"{label}: {msg}")
        self.label = label


class ReplayInvalid(BaseException):
    """An assumption does not hold in a concrete run."""


_current = None


def cur():
    if _current is None:
        raise RuntimeError("no current engine")
    return _current


# --------------------------------------------------------------------------
# terms


def _ratval(value):
    if isinstance(value, Fraction):
        f = value
    else:
        f = Fraction(value)
    return z3.RealVal(f)


def is_sym(x):
    return type(x) in _SYM_TYPES


def _z3bool(x):
    if type(x) is SymBool:
        return x.e
    if isinstance(x, (_REAL_BOOL, np.bool_)):
        return z3.BoolVal(_REAL_BOOL(x))
    raise Unsupported(f"not a boolean: {x!r}")


_memo_bool = {}


def mkbool(e):
    # the same terms are built again on each path: simplified once
    key = e.ast.value
    hit = _memo_bool.get(key)
    if hit is not None:
        return hit[1]
    s = z3.simplify(e)
    if z3.is_true(s):
        r = True
    elif z3.is_false(s):
        r = False
    else:
        r = SymBool(s)
    if len(_memo_bool) > 300000:
        _memo_bool.clear()
    _memo_bool[key] = (e, r)
    return r


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class _SymBase:
    __slots__ = ()
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr

        return arr.dispatch_ufunc(ufunc, method, inputs, kwargs)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar-like interface
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


class SymBool(_SymBase):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return _REAL_BOOL

    def __bool__(self):
        return cur().branch(self.e)

    def __index__(self):
        return _REAL_INT(_REAL_BOOL(self))

    __int__ = __index__

    def __hash__(self):
        return hash(_REAL_BOOL(self))

    def __repr__(self):
        return f"SymBool({self.e})"

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __and__(self, other):
        if _isarr(other):
            return NotImplemented
        if not _isboolish(other):
            return self._int() & other
        return mkbool(z3.And(self.e, _z3bool(other)))

    __rand__ = __and__

    def __or__(self, other):
        if _isarr(other):
            return NotImplemented
        return mkbool(z3.Or(self.e, _z3bool(other)))

    __ror__ = __or__

    def __xor__(self, other):
        if _isarr(other):
            return NotImplemented
        return mkbool(z3.Xor(self.e, _z3bool(other)))

    __rxor__ = __xor__

    def __eq__(self, other):
        if _isarr(other):
            return NotImplemented
        if _isboolish(other):
            return mkbool(self.e == _z3bool(other))
        if not _isnum(other):
            return NotImplemented
        return self._int() == other

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return lnot(r)

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def astype(self, dtype):
        k = np.dtype(dtype).kind
        if k == "b":
            return self
        if k in "iu":
            return self._int()
        return to_real(self._int())


def _isboolish(x):
    return type(x) is SymBool or isinstance(x, (_REAL_BOOL, np.bool_))


def _isarr(x):
    return isinstance(x, np.ndarray)


def _isnum(x):
    return (
        is_sym(x)
        or isinstance(
            x, (_REAL_INT, _REAL_FLOAT, np.integer, np.floating, np.bool_, Fraction)
        )
    )


def lnot(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    return not x


def _nary(es, lib_func):
    args = (z3.Ast * len(es))()
    for i, e in enumerate(es):
        args[i] = e.ast
    return z3.BoolRef(lib_func(z3.main_ctx().ref(), len(es), args), z3.main_ctx())


def land(*xs):
    es = []
    for x in _flat(xs):
        if type(x) is SymBool:
            es.append(x.e)
        elif isinstance(x, (_REAL_BOOL, np.bool_)):
            if not x:
                return False
        else:
            raise Unsupported(f"not a boolean: {x!r}")
    if not es:
        return True
    if len(es) == 1:
        return SymBool(es[0])
    return mkbool(_nary(es, z3.Z3_mk_and))


def lor(*xs):
    es = []
    for x in _flat(xs):
        if type(x) is SymBool:
            es.append(x.e)
        elif isinstance(x, (_REAL_BOOL, np.bool_)):
            if x:
                return True
        else:
            raise Unsupported(f"not a boolean: {x!r}")
    if not es:
        return False
    if len(es) == 1:
        return SymBool(es[0])
    return mkbool(_nary(es, z3.Z3_mk_or))


def implies(a, b):
    return lor(lnot(a), b)


def _flat(xs):
    for x in xs:
        if isinstance(x, np.ndarray):
            yield from x.ravel().tolist()
        elif isinstance(x, (list, tuple)):
            yield from _flat(x)
        elif hasattr(x, "__next__"):
            yield from _flat(list(x))
        else:
            yield x


class SymInt(_SymBase):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return _REAL_INT

    def __repr__(self):
        return f"SymInt({self.e})"

    def __str__(self):
        if callable(cur().opaque_str):
            return cur().opaque_str(self, "")
        if cur().opaque_str == "numeral":
            return cur().numeral(self)
        if cur().opaque_str:
            return "<symint>"
        return str(self.__index__())

    def __format__(self, spec):
        if callable(cur().opaque_str):
            return cur().opaque_str(self, spec)
        if cur().opaque_str == "numeral":
            return cur().numeral(self)
        if cur().opaque_str:
            return "<symint>"
        return format(self.__index__(), spec)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        return cur().concretize(self.e)

    __int__ = __index__

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, n=None):
        return self

    def __float__(self):
        return _REAL_FLOAT(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def is_integer(self):
        return True

    def astype(self, dtype):
        k = np.dtype(dtype).kind
        if k in "iu":
            return self
        if k == "f":
            return to_real(self)
        if k == "b":
            return self != 0
        raise Unsupported(f"SymInt.astype({dtype})")

    def _arith(self, other, fint, freal, swap=False):
        if type(other) is SymBool:
            other = other._int()
        if isinstance(other, (_REAL_BOOL, np.bool_)):
            other = _REAL_INT(other)
        if type(other) is SymInt:
            b = other.e
        elif type(other) is SymReal:
            a = to_real(self)
            return freal(other, a) if swap else freal(a, other)
        elif isinstance(other, (_REAL_INT, np.integer)):
            b = z3.IntVal(_REAL_INT(other))
        elif isinstance(other, (_REAL_FLOAT, np.floating, Fraction)):
            a, b = to_real(self), to_real(other)
            return freal(b, a) if swap else freal(a, b)
        elif isinstance(other, complex):
            a = SymComplex(to_real(self), 0.0)
            b = to_complex(other)
            return freal(b, a) if swap else freal(a, b)
        else:
            return NotImplemented
        a = self.e
        if swap:
            a, b = b, a
        return fint(a, b)

    def __add__(self, o):
        return self._arith(o, lambda a, b: mkint(a + b), lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: mkint(a + b), lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: mkint(a - b), lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: mkint(a - b), lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._arith(o, lambda a, b: mkint(a * b), lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._arith(o, lambda a, b: mkint(a * b), lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._arith(
            o,
            lambda a, b: to_real(SymInt(a)) / to_real(SymInt(b)),
            lambda a, b: a / b,
        )

    def __rtruediv__(self, o):
        return self._arith(
            o,
            lambda a, b: to_real(SymInt(a)) / to_real(SymInt(b)),
            lambda a, b: a / b,
            True,
        )

    def __floordiv__(self, o):
        return self._arith(o, _int_floordiv, lambda a, b: a // b)

    def __rfloordiv__(self, o):
        return self._arith(o, _int_floordiv, lambda a, b: a // b, True)

    def __mod__(self, o):
        return self._arith(o, _int_mod, lambda a, b: a % b)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % self.__index__()
        return self._arith(o, _int_mod, lambda a, b: a % b, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        return _pow(self, o)

    def __rpow__(self, o):
        n = self.__index__()
        return o**n

    def __lshift__(self, o):
        return self * 2 ** _REAL_INT(o)

    def __rshift__(self, o):
        return self // 2 ** _REAL_INT(o)

    def __and__(self, o):
        if _isnum(o) and not is_sym(o) and o >= 0 and (o & (o + 1)) == 0:
            return self % _REAL_INT(o + 1)
        return self.__index__() & o

    __rand__ = __and__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    absolute = __abs__

    def _cmp(self, o, f):
        return self._arith(
            o, lambda a, b: mkbool(f(a, b)), lambda a, b: _real_cmp(a, b, f)
        )

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def sqrt(self):
        return to_real(self).sqrt()

    def __getattr__(self, name):
        # numpy object loops call methods named after the ufunc
        if name in ("exp", "log", "rint", "floor", "ceil", "cos", "sin", "tanh"):
            return getattr(to_real(self), name)
        raise AttributeError(name)


def _int_floordiv(a, b):
    _no_zero_division(b)
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return mkint(a / b)
        return mkint((-a) / (-b))
    if cur().branch(b > 0):
        return mkint(a / b)
    return mkint((-a) / (-b))


def _int_mod(a, b):
    _no_zero_division(b)
    if z3.is_int_value(b) and b.as_long() > 0:
        return mkint(a % b)
    q = _int_floordiv(a, b)
    qe = q.e if type(q) is SymInt else z3.IntVal(q)
    return mkint(a - b * qe)


def _no_zero_division(b):
    if z3.is_int_value(b):
        if b.as_long() == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return
    if cur().branch(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")


NAN = float("nan")


def to_real(x):
    """Convert a number to a SymReal (or, when constant, to a SymReal constant)."""
    t = type(x)
    if t is SymReal:
        return x
    if t is SymInt:
        return SymReal(z3.ToReal(x.e))
    if t is SymBool:
        return SymReal(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, (_REAL_BOOL, np.bool_)):
        return SymReal(z3.RealVal(_REAL_INT(x)))
    if isinstance(x, (_REAL_INT, np.integer)):
        return SymReal(z3.RealVal(_REAL_INT(x)))
    if isinstance(x, Fraction):
        return SymReal(_ratval(x))
    if isinstance(x, (_REAL_FLOAT, np.floating)):
        x = _REAL_FLOAT(x)
        if math.isnan(x):
            return SymReal(z3.RealVal(0), z3.BoolVal(True))
        if math.isinf(x):
            raise Unsupported("infinite float in a symbolic expression")
        return SymReal(_ratval(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_real(x.item())
    raise Unsupported(f"to_real({type(x)})")


def mkreal(e, nan=None):
    if nan is not None:
        nan = z3.simplify(nan)
        if z3.is_false(nan):
            nan = None
        elif z3.is_true(nan):
            return NAN
    e = z3.simplify(e)
    return SymReal(e, nan)


def _nanor(*ns):
    ns = [n for n in ns if n is not None]
    if not ns:
        return None
    if len(ns) == 1:
        return ns[0]
    return z3.Or(ns)


def _real_cmp(a, b, f):
    a, b = to_real(a), to_real(b)
    nan = _nanor(a.nan, b.nan)
    ea, eb = a.e, b.e
    # exp is increasing
    la, lb = _exponent(ea), _exponent(eb)
    if la is not None and lb is not None:
        ea, eb = la, lb
    elif la is not None and z3.is_rational_value(eb) and eb.numerator_as_long() <= 0:
        ea, eb = z3.RealVal(1), z3.RealVal(0)
    elif lb is not None and z3.is_rational_value(ea) and ea.numerator_as_long() <= 0:
        ea, eb = z3.RealVal(0), z3.RealVal(1)
    elif getattr(cur(), "inverse_quotients", False):
        memo = cur().memo.setdefault("poly", {})
        d = dict(_poly(z3.simplify(ea), memo))
        for m, c in _poly(z3.simplify(eb), memo).items():
            c = d.get(m, 0) - c
            if c:
                d[m] = c
            else:
                d.pop(m, None)
        ea, eb = _poly_term(d, memo.get("atoms", {})), z3.RealVal(0)
    e = f(ea, eb)
    if nan is not None:
        e = z3.And(z3.Not(nan), e)
    return mkbool(e)


UF_EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
UF_LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
UF = {
    name: z3.Function(name, z3.RealSort(), z3.RealSort())
    for name in ("sin", "cos", "tan", "tanh", "arctan", "arcsin", "arccos")
}


def _exponent(e):
    """x if e is exp(x), 0 if e is 1, otherwise None"""
    if z3.is_app(e) and e.decl().eq(UF_EXP):
        return e.arg(0)
    if z3.is_rational_value(e) and e.eq(z3.RealVal(1)):
        return z3.RealVal(0)
    return None


def _mul2(a, b):
    return a * b


def _add2(a, b):
    return a + b


def _nonneg(x):
    if x.nn:
        return True
    if z3.is_rational_value(x.e):
        return x.e.numerator_as_long() >= 0
    return False


def _positive(x):
    if x.nn == 2:
        return True
    if z3.is_rational_value(x.e):
        return x.e.numerator_as_long() > 0
    return False


class SymReal(_SymBase):
    """An IEEE float modelled as a mathematical real, plus a NaN flag."""

    __slots__ = ("e", "nan", "sq", "nn")

    def __init__(self, e, nan=None, sq=None, nn=False):
        self.e = e
        self.nan = nan
        # known to be nonnegative (sums, products of squares)
        self.nn = nn
        # for square roots: the number of which it is the root
        self.sq = sq

    @property
    def __class__(self):
        return _REAL_FLOAT

    def __repr__(self):
        return f"SymReal({self.e}{'' if self.nan is None else ', nan=' + str(self.nan)})"

    def __str__(self):
        return "<symreal>"

    def __format__(self, spec):
        return "<symreal>"

    def __bool__(self):
        e = self.e != 0
        if self.nan is not None:
            e = z3.Or(self.nan, e)
        return cur().branch(e)

    def __hash__(self):
        raise Unsupported("hash of a SymReal")

    def __float__(self):
        v = const_value(self)
        if v is not None:
            return _REAL_FLOAT(v)
        raise Unsupported("float(SymReal): a shim is needed")

    def _nonnan(self):
        if self.nan is not None and cur().branch(self.nan):
            raise ValueError("cannot convert float NaN to integer")

    def __int__(self):
        return _REAL_INT(self.trunc())

    def trunc(self):
        self._nonnan()
        return mkint(
            z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        )

    __trunc__ = trunc

    def __floor__(self):
        self._nonnan()
        return mkint(z3.ToInt(self.e))

    def __ceil__(self):
        self._nonnan()
        return mkint(-z3.ToInt(-self.e))

    def floor(self):
        return mkreal(z3.ToReal(z3.ToInt(self.e)), self.nan)

    def ceil(self):
        return mkreal(-z3.ToReal(z3.ToInt(-self.e)), self.nan)

    def _rint_int(self):
        # round half to even
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        return z3.If(
            d < half,
            f,
            z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)),
        )

    def rint(self):
        return mkreal(z3.ToReal(self._rint_int()), self.nan)

    def __round__(self, n=None):
        if n is None:
            self._nonnan()
            return mkint(self._rint_int())
        if n == 0:
            return self.rint()
        s = Fraction(10) ** n
        return (self * s).rint() / s

    round = __round__

    def is_integer(self):
        return mkbool(z3.IsInt(self.e)) if self.nan is None else mkbool(
            z3.And(z3.Not(self.nan), z3.IsInt(self.e))
        )

    def isnan(self):
        return False if self.nan is None else mkbool(self.nan)

    def astype(self, dtype):
        k = np.dtype(dtype).kind
        if k == "f":
            return self
        if k in "iu":
            return self.trunc()
        if k == "b":
            return self != 0
        raise Unsupported(f"SymReal.astype({dtype})")

    def _bin(self, o, f, swap=False):
        if not _isnum(o):
            if isinstance(o, complex):
                a, b = SymComplex(self, 0.0), to_complex(o)
                return f(b, a) if swap else f(a, b)
            return NotImplemented
        if o is self and f is _mul2:
            if self.sq is not None:
                return self.sq
            r = mkreal(self.e * self.e, self.nan)
            if type(r) is SymReal:
                r.nn = True
            return r
        o = to_real(o)
        a, b = (o, self) if swap else (self, o)
        r = mkreal(f(a.e, b.e), _nanor(a.nan, b.nan))
        if type(r) is not SymReal:
            return r
        if f is _mul2 or f is _add2:
            if _nonneg(a) and _nonneg(b):
                r.nn = True
                pos = _positive(a), _positive(b)
                if all(pos) if f is _mul2 else any(pos):
                    r.nn = 2
                if f is _mul2 and self.sq is not None:
                    v = const_value(o)
                    if v is not None:
                        r.sq = self.sq * (v * v)
        return r

    def __add__(self, o):
        return self._bin(o, _add2)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, _mul2)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _real_div(self, to_real(o))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        return _real_div(to_real(o), self)

    def __floordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        r = self / o
        return to_real(r).floor()

    def __rfloordiv__(self, o):
        if not _isnum(o):
            return NotImplemented
        r = o / self
        return to_real(r).floor()

    def __mod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self - o * (self // o)

    def __rmod__(self, o):
        if not _isnum(o):
            return NotImplemented
        return o - self * (o // self)

    def __pow__(self, o):
        return _pow(self, o)

    def __neg__(self):
        return mkreal(-self.e, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.e >= 0, self.e, -self.e), self.nan)

    absolute = fabs = __abs__

    def __lt__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self.nn and _iszero(o):
            return False
        if _isinf(o):
            return self._cmp_inf(o > 0)
        return _real_cmp(self, o, lambda a, b: a < b)

    def __le__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self.nn == 2 and _iszero(o):
            return False
        if _isinf(o):
            return self._cmp_inf(o > 0)
        return _real_cmp(self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self.nn == 2 and _iszero(o):
            return (True if self.nan is None else mkbool(z3.Not(self.nan)))
        if _isinf(o):
            return self._cmp_inf(o < 0)
        return _real_cmp(self, o, lambda a, b: a > b)

    def __ge__(self, o):
        if not _isnum(o):
            return NotImplemented
        if self.nn and _iszero(o):
            return (True if self.nan is None else mkbool(z3.Not(self.nan)))
        if _isinf(o):
            return self._cmp_inf(o < 0)
        return _real_cmp(self, o, lambda a, b: a >= b)

    def _cmp_inf(self, value):
        if not value:
            return False
        return True if self.nan is None else mkbool(z3.Not(self.nan))

    def __eq__(self, o):
        if not _isnum(o):
            return NotImplemented
        if _isinf(o):
            return False
        return _real_cmp(self, o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def sqrt(self):
        return cur().sqrt(self)

    def square(self):
        return self * self

    def exp(self):
        # positive: see the comparisons
        return SymReal(UF_EXP(z3.simplify(self.e)), self.nan, None, 2)

    def log(self):
        e = z3.simplify(self.e)
        if z3.is_app(e) and e.decl().eq(UF_EXP):
            return mkreal(e.arg(0), self.nan)
        if self.nn != 2 and cur().branch(self.e <= 0):
            raise cur().cut("log of a non-positive number")
        return mkreal(UF_LOG(self.e), self.nan)

    def __getattr__(self, name):
        if name in UF:
            f = UF[name]
            if cur().float_sqrt:
                v = const_value(self)
                if v is not None:
                    return lambda: float_function(name, _REAL_FLOAT(v))
            return lambda: mkreal(f(self.e), self.nan)
        raise AttributeError(name)


def _iszero(o):
    return not is_sym(o) and o == 0


def _isinf(o):
    return isinstance(o, (_REAL_FLOAT, np.floating)) and not is_sym(o) and math.isinf(o)


def _real_div(a, b):
    bval = z3.simplify(b.e)
    if z3.is_rational_value(bval):
        n = bval.numerator_as_long()
        if n != 0:
            if n > 0 and a.nn:
                d = Fraction(bval.denominator_as_long(), n)
                return a * d
            return mkreal(a.e / bval, _nanor(a.nan, b.nan))
        zero = True
    else:
        eng = cur()
        key = None
        if (eng.canonical_quotients or eng.inverse_quotients) and b.nan is None:
            # the same decision for the same polynomial
            poly = _poly(bval, eng.memo.setdefault("poly", {}))
            if poly:
                lead = poly[max(poly)]
                key = ("zero", frozenset((m, c / lead) for m, c in poly.items()))
        zero = None if key is None else eng._zeros.get(key)
        if b.nn == 2:
            # positive
            zero = False
        if zero is None and eng.assume_nonzero:
            zero = False
        if zero is None:
            zero = eng.branch(
                bval == 0 if b.nan is None else z3.And(z3.Not(b.nan), bval == 0)
            )
            if key is not None:
                eng._zeros[key] = zero
    if zero:
        # numpy semantics: 0/0 is nan; x/0 is infinite, which is not modelled
        if cur().zero_div == "raise":
            raise ZeroDivisionError("float division by zero")
        if a.nan is not None and cur().branch(a.nan):
            return NAN
        if cur().branch(a.e == 0):
            return NAN
        raise cur().cut("division of a non-zero number by zero (infinity)")
    return cur().quotient(a, b)


def _pow(a, n):
    if is_sym(n):
        v = const_value(n)
        if v is None:
            n = n.__index__()
        else:
            n = v
    if isinstance(n, (_REAL_FLOAT, np.floating)) and _REAL_FLOAT(n) == 0.5:
        return to_real(a).sqrt()
    if _REAL_FLOAT(n) == _REAL_INT(n):
        isfloat = isinstance(n, (_REAL_FLOAT, np.floating)) and not is_sym(n)
        n = _REAL_INT(n)
        if isfloat:
            a = to_real(a)
        if n < 0:
            return 1 / _pow(to_real(a), -n)
        if n == 2 and type(a) is SymReal and a.sq is not None:
            return a.sq
        if n == 2:
            return a * a
        r = 1
        for _ in range(n):
            r = a * r
        return r
    raise Unsupported(f"pow with exponent {n!r}")


class SymComplex(_SymBase):
    """A complex number with real (maybe symbolic) parts."""

    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def __class__(self):
        return complex

    def __repr__(self):
        return f"SymComplex({self.re}, {self.im})"

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    def __add__(self, o):
        o = to_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = to_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return to_complex(o) - self

    def __mul__(self, o):
        o = to_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(
            self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re
        )

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = to_complex(o)
        if o is None:
            return NotImplemented
        if not is_sym(o.im) and o.im == 0:
            return SymComplex(to_real(self.re) / o.re, to_real(self.im) / o.re)
        d = to_real(o.re * o.re + o.im * o.im)
        r = self * o.conjugate()
        return SymComplex(to_real(r.re) / d, to_real(r.im) / d)

    def __rtruediv__(self, o):
        return to_complex(o) / self

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        sq = to_real(_pow(self.re, 2) + _pow(self.im, 2))
        v = const_value(sq)
        if v is not None:
            return to_real(sq).sqrt()
        eng = cur()
        eng._nfresh += 1
        r = z3.Real(f"abs!{eng._nfresh}")
        eng._define(r, z3.And(r >= 0, r * r == sq.e))
        return SymReal(r, sq.nan, sq, True)

    absolute = __abs__

    def __pow__(self, n):
        n = _REAL_INT(n)
        r = 1
        for _ in range(n):
            r = self * r
        return r

    def __eq__(self, o):
        o = to_complex(o)
        return land(o.re == self.re, o.im == self.im)

    def __ne__(self, o):
        return lnot(self == o)

    def __hash__(self):
        raise Unsupported("hash of a SymComplex")

    def astype(self, dtype):
        k = np.dtype(dtype).kind
        if k == "c":
            return self
        return to_real(self.re).astype(dtype)


def to_complex(x):
    if type(x) is SymComplex:
        return x
    if isinstance(x, (complex, np.complexfloating)):
        x = complex(x)
        return SymComplex(x.real, x.imag)
    if _isnum(x):
        return SymComplex(to_real(x) if is_sym(x) else x, 0.0)
    return None


_SYM_TYPES = frozenset((SymBool, SymInt, SymReal, SymComplex))

numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


def const_value(x):
    """The constant value of a proxy, or None."""
    if type(x) is SymInt:
        e = z3.simplify(x.e)
        return e.as_long() if z3.is_int_value(e) else None
    if type(x) is SymReal:
        if x.nan is not None:
            n = z3.simplify(x.nan)
            if z3.is_true(n):
                return NAN
            if not z3.is_false(n):
                return None
        e = z3.simplify(x.e)
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        return None
    if type(x) is SymBool:
        e = z3.simplify(x.e)
        return True if z3.is_true(e) else False if z3.is_false(e) else None
    return x


def ite(cond, a, b):
    """Merged conditional (no path split)."""
    if isinstance(cond, (_REAL_BOOL, np.bool_)) and type(cond) is not SymBool:
        return a if cond else b
    if type(cond) is not SymBool:
        raise Unsupported(f"ite condition {cond!r}")
    if a is b:
        return a
    if not (_isnum(a) and _isnum(b)):
        return a if _REAL_BOOL(cond) else b
    if _isboolish(a) and _isboolish(b):
        return mkbool(z3.If(cond.e, _z3bool(a), _z3bool(b)))
    if _is_int_like(a) and _is_int_like(b):
        return mkint(z3.If(cond.e, _int_expr(a), _int_expr(b)))
    a, b = to_real(a), to_real(b)
    nan = None
    if a.nan is not None or b.nan is not None:
        f = z3.BoolVal(False)
        nan = z3.If(
            cond.e,
            f if a.nan is None else a.nan,
            f if b.nan is None else b.nan,
        )
    return mkreal(z3.If(cond.e, a.e, b.e), nan)


def _is_int_like(x):
    return type(x) in (SymInt, SymBool) or (
        isinstance(x, (_REAL_INT, np.integer, np.bool_)) and not type(x) is SymReal
    )


def _int_expr(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(_REAL_INT(x))


# --------------------------------------------------------------------------
# engines


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.cut = {}
        self.queries = 0
        self.branches = 0
        self.solver_s = 0.0
        self.checks = 0
        self.discharged = 0
        self.labels = {}
        self.witnessed = {}
        self.unknown = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(self.solver_s, 3)
        return d


class Violation:
    def __init__(self, label, values, msg, kind="check"):
        self.label = label
        self.values = values
        self.msg = msg
        self.kind = kind


class SymEngine:
    symbolic = True

    def __init__(self, timeout_ms=20000, budget_s=None, max_paths=None, logic=None):
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = 4000
        self.solver.set("timeout", timeout_ms)
        self.stats = Stats()
        self.opaque_str = False
        self.zero_div = "nan"
        self.t0 = time.time()
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.violations = []
        self.inconclusive = []
        self.samples = []
        self.path_models = []
        self.max_models = 24
        self.max_violations = 6
        self._prefix = []
        self.errors = []
        self.reached_end = 0
        # nlsat is used for queries the default solver does not settle
        self.use_tactic_fallback = True
        self.no_branch = 0
        self._defs = {}
        self._defs_seen = {}
        self._named = {}
        self._zeros = {}
        # min, max of arrays: merged value (or path split)
        self.split_minmax = self.canonical_quotients = self.assume_nonzero = False
        # a / b = a * (1 / b) and comparisons of expanded polynomials
        self.inverse_quotients = False
        # square roots of numbers computed in floats
        self.float_sqrt = False
        # largest absolute value of the bounded real inputs
        self.bounds = {}
        # numbers of queries tried with concrete inputs
        self._trials = 10
        self._ranges = {}
        # for the harnesses: terms on the inputs, kept from path to path
        self.memo = {}

    # -- inputs
    def _declare(self, name, const, kind):
        if name in self._inputs:
            raise RuntimeError(f"duplicate input {name}")
        self._inputs[name] = (const, kind)
        return const

    def _range(self, name, lo, hi):
        if not any(x is None or is_sym(x) for x in (lo, hi)):
            self._ranges[name] = Fraction(lo), Fraction(hi)

    def int(self, name, lo=None, hi=None):
        v = self._declare(name, z3.Int(name), "int")
        self._range(name, lo, hi)
        if lo is not None:
            self._add(v >= lo if not is_sym(lo) else v >= _int_expr(lo))
        if hi is not None:
            self._add(v <= hi if not is_sym(hi) else v <= _int_expr(hi))
        return SymInt(v)

    def real(self, name, lo=None, hi=None, nan=False):
        v = self._declare(name, z3.Real(name), "real")
        self._range(name, lo, hi)
        n = None
        if nan:
            n = self._declare(name + "!nan", z3.Bool(name + "!nan"), "bool")
        if lo is not None:
            self._add(v >= _ratval(lo))
        if hi is not None:
            self._add(v <= _ratval(hi))
        if lo is not None and hi is not None and not is_sym(lo) and not is_sym(hi):
            self.bounds[v.get_id()] = max(abs(Fraction(lo)), abs(Fraction(hi)))
            self.memo.setdefault("bounded", []).append(v)
        return SymReal(v, n)

    def bool(self, name):
        return SymBool(self._declare(name, z3.Bool(name), "bool"))

    def numeral(self, v):
        """Decimal numeral (str) of an integer, converted back by int() and float()"""
        if type(v) is not SymInt:
            return str(v)
        sign = ""
        if bool(v < 0):
            sign, v = "-", -v
        tokens = self.memo.setdefault("numerals", {})
        token = str(_FIRST_NUMERAL + len(tokens))
        tokens[token] = v
        return sign + token

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def int_array(self, name, shape, lo=None, hi=None):
        from .arr import build

        return build(shape, lambda idx: self.int(_iname(name, idx), lo, hi))

    def real_array(self, name, shape, lo=None, hi=None, nan=False):
        from .arr import build

        return build(shape, lambda idx: self.real(_iname(name, idx), lo, hi, nan))

    def bool_array(self, name, shape):
        from .arr import build

        return build(shape, lambda idx: self.bool(_iname(name, idx)))

    def array(self, values):
        from .arr import as_symarray

        return as_symarray(values)

    # -- solver
    # definitions of square roots are given to the solver when they are needed
    def _define(self, const, definition):
        self._defs[const.get_id()] = (const, definition)

    def quotient(self, a, b):
        """a / b (b not zero): a name, defined when the solver needs it"""
        nan = _nanor(a.nan, b.nan)
        ea, eb = z3.simplify(a.e), z3.simplify(b.e)
        if ea.eq(eb):
            return mkreal(z3.RealVal(1), nan)
        if z3.is_rational_value(ea) and ea.numerator_as_long() == 0:
            return mkreal(ea, nan)
        sign = 1
        if self.inverse_quotients:
            memo = self.memo.setdefault("poly", {})
            pb = _poly(eb, memo)
            lead = pb[max(pb)]
            key = ("inverse", frozenset((m, c / lead) for m, c in pb.items()))
            q = self._named.get(key)
            if q is None:
                self._nfresh += 1
                q = z3.Real(f"inv!{self._nfresh}")
                self._named[key] = (q, ea, eb)
                eb = _poly_term({m: c / lead for m, c in pb.items()}, memo["atoms"])
                self._define(q, q * eb == 1)
            else:
                q = q[0]
            pa = {
                tuple(sorted(m + n)): c * d / lead
                for m, c in _poly(ea, memo).items()
                for n, d in _poly(q, memo).items()
            }
            r = mkreal(_poly_term(pa, memo["atoms"]), nan)
            if type(r) is SymReal and _nonneg(a) and b.nn == 2:
                r.nn = 2 if _positive(a) else True
            return r
        if self.canonical_quotients:
            memo = self.memo.setdefault("poly", {})
            pa, pb = _poly(ea, memo), _poly(eb, memo)
            if pa and pb:
                lead_a, lead_b = pa[max(pa)], pb[max(pb)]
                if pa.keys() == pb.keys() and all(
                    c * lead_b == pb[m] * lead_a for m, c in pa.items()
                ):
                    return mkreal(to_real(Fraction(lead_a) / Fraction(lead_b)).e, nan)
                if (lead_a < 0) != (lead_b < 0):
                    sign = -1
                pa = frozenset((m, c / abs(lead_b)) for m, c in pa.items())
                pb = frozenset((m, c / lead_b) for m, c in pb.items())
                if lead_a < 0:
                    pa = frozenset((m, -c) for m, c in pa)
            key = ("/", pa, pb)
        else:
            key = ("/", ea.get_id(), eb.get_id())
        q = self._named.get(key)
        if q is None:
            self._nfresh += 1
            q = z3.Real(f"quot!{self._nfresh}")
            self._named[key] = (q, ea, eb)
            self._define(q, q * eb == (ea if sign == 1 else -ea))
        else:
            q = q[0]
        if sign == -1:
            return SymReal(-q, nan)
        return SymReal(q, nan, None, bool(a.nn and b.nn))

    def _pull(self, e):
        if not self._defs:
            return
        todo = [e]
        seen = self._defs_seen
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen[i] = x
            d = self._defs.pop(i, None)
            if d is not None:
                self.solver.add(d[1])
                todo.append(d[1])
            todo.extend(x.children())

    def _needs_defs(self, e):
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in self._defs:
                return True
            todo.extend(x.children())
        return False

    def _pull_value(self, v):
        if not self._defs:
            return
        if isinstance(v, np.ndarray):
            v = v.ravel().tolist()
        if isinstance(v, (list, tuple)):
            for x in v:
                self._pull_value(x)
        elif isinstance(v, dict):
            self._pull_value(list(v.values()))
        elif type(v) is SymComplex:
            self._pull_value([v.re, v.im])
        elif is_sym(v):
            self._pull(v.e)

    def _check(self, *assumptions):
        if self._defs and assumptions:
            # first without the definitions: they are needed only if satisfiable
            if any(self._needs_defs(a) for a in assumptions):
                t = time.perf_counter()
                self.solver.set("timeout", min(2000, self.timeout_ms))
                r = self.solver.check(*assumptions)
                self.solver.set("timeout", self.timeout_ms)
                self.stats.solver_s += time.perf_counter() - t
                self.stats.queries += 1
                if r == z3.unsat:
                    self._fallback_model = None
                    return r
                for a in assumptions:
                    self._pull(a)
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        if r == z3.unknown and self.use_tactic_fallback:
            s = z3.Then("simplify", "solve-eqs", "purify-arith", "nlsat").solver() \
                if False else z3.SolverFor("QF_NRA")
            s.set("timeout", self.timeout_ms)
            s.add(self.solver.assertions())
            s.add(*assumptions)
            try:
                r2 = s.check()
            except z3.Z3Exception:
                r2 = z3.unknown
            self.stats.queries += 1
            if r2 != z3.unknown:
                r = r2
                self._fallback_model = s
        else:
            self._fallback_model = None
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        if self.budget_s is not None and time.time() - self.t0 > self.budget_s:
            raise BudgetExceeded()
        return r

    def _get_model(self):
        if getattr(self, "_fallback_model", None) is not None:
            return self._fallback_model.model()
        return self.solver.model()

    def _add(self, e):
        self._pull(e)
        self.solver.add(e)

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.no_branch:
            from .merge import MergeFail

            raise MergeFail
        i = self._pos
        self._pos += 1
        if i < len(self._prefix):
            value, pending = self._prefix[i]
            self._add(e if value else z3.Not(e))
            return value
        self.stats.branches += 1
        # sides for which the solver gives no answer are explored: sound, since a
        # counterexample needs a model and all checks on the path are still decided
        timeout = self.timeout_ms
        self.timeout_ms = min(timeout, self.branch_timeout_ms)
        self.solver.set("timeout", self.timeout_ms)
        try:
            r1 = self._check(e)
            if r1 != z3.unsat:
                r2 = self._check(z3.Not(e))
        finally:
            self.timeout_ms = timeout
            self.solver.set("timeout", timeout)
        if r1 == z3.unsat:
            self._prefix.append([False, False])
            self._add(z3.Not(e))
            return False
        if r2 == z3.unsat:
            self._prefix.append([True, False])
            self._add(e)
            return True
        self._prefix.append([True, True])
        self._add(e)
        return True

    def _unknown(self, where):
        self.inconclusive.append(where)
        raise Inconclusive(where)

    def concretize(self, e):
        """Split the path over the possible values of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self.no_branch:
            from .merge import MergeFail

            raise MergeFail
        # a value is chosen by the solver, then (== v) is branched on;
        # the chosen values are stored in the prefix to be deterministic
        while True:
            i = self._pos
            if i < len(self._prefix):
                value = self._prefix[i][0]
                self._pos += 1
                v, taken = value
                if taken:
                    self._add(e == v)
                    return v
                self._add(e != v)
                continue
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                self._unknown("concretize")
            v = self._get_model().eval(e, model_completion=True).as_long()
            self.stats.branches += 1
            r2 = self._check(e != v)
            if r2 == z3.unknown:
                self._unknown("concretize")
            self._prefix.append([(v, True), r2 == z3.sat])
            self._pos += 1
            self._add(e == v)
            return v

    def sqrt(self, x):
        if self.no_branch:
            from .merge import MergeFail

            raise MergeFail
        if x.nan is not None and self.branch(x.nan):
            return NAN
        if z3.is_mul(x.e) and x.e.num_args() == 2 and x.e.arg(0).eq(x.e.arg(1)):
            r = x.e.arg(0)
            return SymReal(z3.If(r >= 0, r, -r), None, x, True)
        v = const_value(x)
        if v is not None:
            n, d = v.numerator, v.denominator
            if v >= 0:
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return to_real(Fraction(rn, rd))
                if self.float_sqrt:
                    return to_real(Fraction(math.sqrt(v)))
        if not x.nn and self.branch(x.e < 0):
            return NAN
        xe = z3.simplify(x.e)
        key = ("sqrt", xe.get_id())
        if key in self._named:
            return SymReal(self._named[key][0], None, x, True)
        self._nfresh += 1
        r = z3.Real(f"sqrt!{self._nfresh}")
        self._named[key] = (r, xe)
        self._define(r, z3.And(r >= 0, r * r == x.e))
        return SymReal(r, None, x, True)

    def fresh_real(self, name="aux"):
        self._nfresh += 1
        return SymReal(z3.Real(f"{name}!{self._nfresh}"))

    def cut(self, why):
        self.stats.cut[why] = self.stats.cut.get(why, 0) + 1
        return PathAbort(why)

    # -- claims
    def assume(self, cond):
        if not is_sym(cond):
            if isinstance(cond, np.ndarray):
                cond = land(cond)
                if is_sym(cond):
                    return self.assume(cond)
            if not cond:
                raise PathAbort()
            return
        self._add(_z3bool(cond))
        r = self._check()
        if r == z3.unsat:
            raise PathAbort()

    def check(self, cond, label, msg=""):
        st = self.stats
        st.checks += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if isinstance(cond, np.ndarray) or isinstance(cond, (list, tuple)):
            cond = land(cond)
        if label not in st.witnessed:
            # reachability witness: assert(false) here must be refuted
            st.witnessed[label] = self._check() == z3.sat
        elif not st.witnessed[label]:
            st.witnessed[label] = self._check() == z3.sat
        if not is_sym(cond):
            if cond:
                st.discharged += 1
                return
            cond_e = z3.BoolVal(False)
        else:
            cond_e = _z3bool(cond)
        r = self._refute(z3.Not(cond_e))
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            self.inconclusive.append(f"check {label}")
            return
        if r == z3.sat:
            r = self._nice_model(z3.Not(cond_e))
        self._record_violation(label, msg, r)
        self.assume(mkbool(cond_e))

    def _refute(self, negation):
        """-> unsat, sat, unknown or a model.  A query which is not decided at once is first
        tried with concrete inputs, which only can find a counterexample."""
        if self._trials > 0 and not z3.is_false(negation):
            timeout = self.timeout_ms
            self.timeout_ms = min(2000, timeout)
            fallback, self.use_tactic_fallback = self.use_tactic_fallback, False
            try:
                r = self._check(negation)
                if r != z3.unknown:
                    return r
                self.stats.unknown -= 1
                self._trials -= 1
                for values in self._candidates():
                    r = self._check(negation, *values)
                    if r == z3.sat:
                        return self._get_model()
                    if r == z3.unknown:
                        self.stats.unknown -= 1
            finally:
                self.use_tactic_fallback = fallback
                self.timeout_ms = timeout
                self.solver.set("timeout", timeout)
        return self._check(negation)

    def _candidates(self):
        import random

        if self._check() != z3.sat:
            return
        model = self._get_model()
        rng = random.Random(self._trials)
        for free in (1, 0.3, 0.1):
            values = []
            for name, (const, kind) in self._inputs.items():
                if kind == "real" and name in self._ranges:
                    lo, hi = self._ranges[name]
                    v = lo + (hi - lo) * Fraction(rng.randint(1, 15), 16)
                    if rng.random() < free:
                        values.append(const == _ratval(v))
                        continue
                values.append(const == model.eval(const, True))
            yield values

    def check_close(self, a, b, label, tol=0, msg=""):
        """|a - b| <= tol in the reals (NaN equal to NaN)."""
        self.check(close(a, b, tol), label, msg)

    def _record_violation(self, label, msg, model):
        self.violations.append(Violation(label, self._values(model), msg))
        # soon enough
        now = time.time() - self.t0 + 20
        self.budget_s = now if self.budget_s is None else min(self.budget_s, now)
        if len(self.violations) >= self.max_violations:
            raise BudgetExceeded("violations")

    def _nice_model(self, *assumptions):
        """Prefer small round values, which survive the rounding of floats."""
        r = self._check(*assumptions)
        if r != z3.sat:
            self._unknown("model")
        model = self._get_model()
        self.solver.push()
        try:
            for a in assumptions:
                self.solver.add(a)
            self.solver.set("timeout", 2000)
            for name, (const, kind) in self._inputs.items():
                if kind == "real":
                    for scale in (1, 8):
                        c = z3.And(
                            z3.IsInt(const * scale), const <= 1000, const >= -1000
                        )
                        t = time.perf_counter()
                        ok = self.solver.check(c) == z3.sat
                        self.stats.solver_s += time.perf_counter() - t
                        self.stats.queries += 1
                        if ok:
                            model = self.solver.model()
                            self.solver.add(const == model.eval(const, True))
                            break
        except z3.Z3Exception:
            pass
        finally:
            self.solver.set("timeout", self.timeout_ms)
            self.solver.pop()
        return model

    def _values(self, model):
        values = {}
        for name, (const, kind) in self._inputs.items():
            v = model.eval(const, model_completion=True)
            if kind == "int":
                values[name] = v.as_long()
            elif kind == "bool":
                values[name] = z3.is_true(v)
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                values[name] = [v.numerator_as_long(), v.denominator_as_long()]
        return values

    def observe(self, name, value):
        self._observed.append((name, value))

    # -- exploration
    def explore(self, harness):
        global _current
        self._prefix = []
        while True:
            if self.max_paths is not None and self.stats.paths >= self.max_paths:
                self.inconclusive.append("max_paths")
                break
            if self.budget_s is not None and time.time() - self.t0 > self.budget_s:
                self.inconclusive.append("time budget")
                break
            self._pos = 0
            self._nfresh = 0
            self._defs = {}
            self._defs_seen = {}
            self._named = {}
            self._zeros = {}
            self._inputs = {}
            self._ranges = {}
            self.bounds = {}
            self._observed = []
            self.no_branch = 0
            self.solver.push()
            _current = self
            stop = False
            try:
                harness(self)
                self.reached_end += 1
                self.stats.paths += 1
                self._sample_path()
            except PathAbort:
                self.stats.aborted += 1
            except Inconclusive:
                self.stats.paths += 1
            except BudgetExceeded as err:
                if str(err) != "violations":
                    self.inconclusive.append("time budget")
                stop = True
            except CheckFailed:
                raise
            except Exception as err:
                self.stats.paths += 1
                import traceback

                tb = traceback.format_exc()
                try:
                    model = self._nice_model()
                    self.violations.append(
                        Violation(
                            f"exception:{type(err).__name__}",
                            self._values(model),
                            tb,
                            kind="exception",
                        )
                    )
                except (Inconclusive, BudgetExceeded):
                    self.errors.append(tb)
                if len(self.violations) >= self.max_violations:
                    stop = True
            finally:
                _current = None
                self.solver.pop()
            if stop:
                break
            if not self._next():
                break
        return self

    def _next(self):
        prefix = self._prefix
        while prefix:
            value, pending = prefix[-1]
            if pending:
                if isinstance(value, tuple):
                    prefix[-1] = [(value[0], False), False]
                else:
                    prefix[-1] = [not value, False]
                return True
            prefix.pop()
        return False

    def _sample_path(self):
        """Keep a model of this path, to validate the symbolic run concretely."""
        n = self.stats.paths
        if self.max_models <= 0:
            return
        # keep the first ones, then a geometric thinning
        if len(self.path_models) >= self.max_models and (n & (n - 1)) != 0:
            return
        for _, value in self._observed:
            self._pull_value(value)
        # only a validation: without a model found soon, this path is not used
        nb, nb_unknown = len(self.inconclusive), self.stats.unknown
        timeout, fallback = self.timeout_ms, self.use_tactic_fallback
        try:
            self.timeout_ms = min(timeout, 5000)
            self.use_tactic_fallback = False
            self.solver.set("timeout", self.timeout_ms)
            model = self._nice_model()
            obs = []
            for name, value in self._observed:
                obs.append((name, _eval(model, value)))
            self.path_models.append((self._values(model), obs))
        except (Inconclusive, BudgetExceeded, ValueError, z3.Z3Exception):
            del self.inconclusive[nb:]
            self.stats.unknown = nb_unknown
        finally:
            self.timeout_ms, self.use_tactic_fallback = timeout, fallback
            self.solver.set("timeout", timeout)


def _iname(name, idx):
    return name + "".join(f"_{i}" for i in idx)


def _poly(e, memo):
    """Polynomial {monomial: coefficient} of a real term; a monomial is a sorted tuple of
    atom ids (variables and terms that are not sums or products)."""
    key = e.get_id()
    r = memo.get(key)
    if r is not None:
        return r
    if z3.is_rational_value(e):
        c = Fraction(e.numerator_as_long(), e.denominator_as_long())
        r = {(): c} if c else {}
    elif z3.is_int_value(e):
        c = Fraction(e.as_long())
        r = {(): c} if c else {}
    elif z3.is_add(e) or z3.is_sub(e):
        sub = z3.is_sub(e)
        r = {}
        for i, x in enumerate(e.children()):
            for m, c in _poly(x, memo).items():
                c = r.get(m, 0) + (-c if sub and i else c)
                if c:
                    r[m] = c
                else:
                    r.pop(m, None)
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        r = {m: -c for m, c in _poly(e.arg(0), memo).items()}
    elif z3.is_mul(e):
        r = {(): Fraction(1)}
        for x in e.children():
            r = _poly_mul(r, _poly(x, memo))
    elif z3.is_div(e) and z3.is_rational_value(e.arg(1)):
        d = e.arg(1)
        d = Fraction(d.numerator_as_long(), d.denominator_as_long())
        r = {m: c / d for m, c in _poly(e.arg(0), memo).items()}
    elif (
        z3.is_app_of(e, z3.Z3_OP_POWER)
        and z3.is_rational_value(e.arg(1))
        and e.arg(1).denominator_as_long() == 1
        and 0 <= e.arg(1).numerator_as_long() <= 8
    ):
        b = _poly(e.arg(0), memo)
        r = {(): Fraction(1)}
        for _ in range(e.arg(1).numerator_as_long()):
            r = _poly_mul(r, b)
    else:
        memo.setdefault("atoms", {})[key] = e
        r = {(key,): Fraction(1)}
    memo[key] = r
    # the terms are kept alive: the ids remain theirs
    memo.setdefault("alive", []).append(e)
    return r


def _poly_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def _poly_difference(a, b):
    memo = {}
    p = dict(_poly(a, memo))
    for m, c in _poly(b, memo).items():
        c = p.get(m, 0) - c
        if c:
            p[m] = c
        else:
            p.pop(m, None)
    return p, memo.get("atoms", {})


def _poly_term(p, atoms):
    terms = []
    for m, c in p.items():
        t = _ratval(c)
        for i in m:
            t = t * atoms[i]
        terms.append(t)
    return z3.simplify(z3.Sum(terms)) if terms else z3.RealVal(0)


def normal_difference(a, b):
    """z3 term equal to a - b, expanded as a sum of monomials."""
    return _poly_term(*_poly_difference(a, b))


_FIRST_NUMERAL = 7400001


def from_numeral(text):
    """the integer given to `numeral`, or None"""
    eng = _current
    tokens = getattr(eng, "memo", {}).get("numerals")
    if not tokens:
        return None
    text = text.strip()
    sign = 1
    if text[:1] in "+-":
        sign = -1 if text[:1] == "-" else 1
        text = text[1:]
    v = tokens.get(text)
    return None if v is None else sign * v


def normal_number(x):
    """Number equal to a term whose normal form is a constant."""
    if not is_sym(x):
        return _REAL_FLOAT(x)
    v = const_value(x)
    if v is None and type(x) is not SymBool:
        x = to_real(x)
        p = _poly(x.e, {}) if x.nan is None else None
        if p is not None and set(p) <= {()}:
            v = p.get((), 0)
    if v is None:
        raise Unsupported("numbers needed")
    return _REAL_FLOAT(v)


def float_function(name, v):
    """Function of a number.  Cosines and sines: those of a close angle for which both are
    rational numbers, so that the sum of their squares is one."""
    if name in ("cos", "sin"):
        if math.cos(v / 2) == 0:
            return to_real(Fraction(-1 if name == "cos" else 0))
        t = Fraction(math.tan(v / 2)).limit_denominator(1000)
        d = 1 + t * t
        return to_real((1 - t * t) / d if name == "cos" else 2 * t / d)
    return to_real(Fraction(float(getattr(np, name)(v))))


def rational_equal(a, b, rounding=0):
    """Equality of rational functions: the quotients are replaced by their numerators and
    denominators, the difference is reduced to one denominator and its numerator, expanded,
    is given to the solver (the denominators are not zero on the path).  `rounding`: relative
    differences of coefficients considered as due to the rounding of concrete numbers."""
    if not is_sym(a) and not is_sym(b):
        scale = max(1.0, abs(_REAL_FLOAT(a)), abs(_REAL_FLOAT(b)))
        return close(a, b, 1e-6 * scale)
    a, b = to_real(a), to_real(b)
    if a.nan is not None or b.nan is not None:
        return close(a, b, 0)
    eng = cur()
    quotients = {
        v[0].get_id(): v for k, v in eng._named.items() if k and k[0] == "/"
    }
    # square roots: variable, radicand
    roots = {
        v[0].get_id(): v[1] for k, v in eng._named.items() if k and k[0] == "sqrt"
    }
    memo, done, dens = {}, {}, {}

    def mul(p, q):
        return _poly_mul(p, q)

    def reduce(p):
        """no square root to a power larger than one"""
        while True:
            for m in p:
                i = next((i for i in m if i in roots and m.count(i) > 1), None)
                if i is not None:
                    break
            else:
                return p
            n, d = fraction(roots[i])
            total = {}, {}
            for m, c in p.items():
                k = m.count(i) // 2
                m = list(m)
                for _ in range(2 * k):
                    m.remove(i)
                t = {tuple(m): c}, {}
                for _ in range(k):
                    t = mul(t[0], n), {}
                total = add(total, (t[0], {x: k * y for x, y in d.items() if k}))
            # only the numerator is needed
            p = total[0]

    def add(x, y):
        (p, d), (q, e) = x, y
        if not p:
            return y
        if not q:
            return x
        common = {k: max(d.get(k, 0), e.get(k, 0)) for k in {**d, **e}}
        for k, n in common.items():
            for _ in range(n - d.get(k, 0)):
                p = mul(p, dens[k])
            for _ in range(n - e.get(k, 0)):
                q = mul(q, dens[k])
        r = dict(p)
        for m, c in q.items():
            c = r.get(m, 0) + c
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        return r, common

    def atom(i):
        """fraction equal to an atom"""
        if i not in done:
            q = quotients.get(i)
            t = memo["atoms"][i]
            if q is None and z3.is_app_of(t, z3.Z3_OP_ITE):
                # one path for each case
                done[i] = fraction(t.arg(1 if eng.branch(t.arg(0)) else 2))
            elif q is None:
                done[i] = {(i,): Fraction(1)}, {}
            else:
                (p, d), (n, e) = fraction(q[1]), fraction(q[2])
                # (p / d) / (n / e), the common factors removed
                d, e = dict(d), dict(e)
                for k in list(e):
                    both = min(e[k], d.get(k, 0))
                    e[k] -= both
                    if both:
                        d[k] -= both
                for k, m in e.items():
                    for _ in range(m):
                        p = mul(p, dens[k])
                lead = n[max(n)]
                n = {m: c / lead for m, c in n.items()}
                p = {m: c / lead for m, c in p.items()}
                if n != {(): Fraction(1)}:
                    k = frozenset(n.items())
                    dens[k] = n
                    d[k] = d.get(k, 0) + 1
                done[i] = p, {k: m for k, m in d.items() if m}
        return done[i]

    def fraction(e):
        total = {}, {}
        for m, c in _poly(e, memo).items():
            p, d = {(): c}, {}
            for i in m:
                q, e2 = atom(i)
                p = mul(p, q)
                d = {k: d.get(k, 0) + e2.get(k, 0) for k in {**d, **e2}}
            total = add(total, (p, d))
        return total

    if rounding:
        x, y = fraction(a.e), fraction(b.e)
        left, right = add(x, ({(-1,): Fraction(1)}, y[1])), add(y, ({(-1,): Fraction(1)}, x[1]))
        left = {m: c for m, c in left[0].items() if -1 not in m}
        right = {m: c for m, c in right[0].items() if -1 not in m}
        big = max([abs(c) for c in [*left.values(), *right.values()]], default=0)
        p = {}
        for m in {**left, **right}:
            l, r = left.get(m, Fraction(0)), right.get(m, Fraction(0))
            if abs(l - r) > rounding * max(abs(l), abs(r), big / 1000):
                p[m] = l - r
    else:
        p = reduce(fraction(a.e - b.e)[0])
    if not p:
        return True
    lead = p[max(p)]
    d = _poly_term({m: c / lead for m, c in p.items()}, memo["atoms"])
    if z3.is_rational_value(d):
        return d.numerator_as_long() == 0
    return SymBool(d == 0)


def poly_close(a, b, tol=0):
    """As `close`, for polynomials: the difference is expanded before it is given to the
    solver.  The monomials which are negligible for all inputs (bounds of the inputs) are
    replaced by a bound of their sum, and the other coefficients are shortened in the same
    way (sound: the condition given to the solver implies the condition)."""
    if not is_sym(a) and not is_sym(b):
        scale = max(1.0, abs(_REAL_FLOAT(a)), abs(_REAL_FLOAT(b)))
        return close(a, b, max(tol, 1e-4 * scale))
    a, b = to_real(a), to_real(b)
    if a.nan is not None or b.nan is not None:
        return close(a, b, tol)
    p, atoms = _poly_difference(a.e, b.e)
    slack = Fraction(0)
    tol = Fraction(tol)
    if tol and p:
        bounds = cur().bounds
        small = tol / (20 * len(p))
        main = {}
        for m, c in p.items():
            size = Fraction(1)
            for i in m:
                bound = bounds.get(atoms[i].get_id())
                if bound is None:
                    size = None
                    break
                size *= max(bound, 1)
            if size is None:
                main[m] = c
                continue
            if abs(c) * size <= small:
                slack += abs(c) * size
                continue
            short = c.limit_denominator(10**12)
            err = abs(short - c) * size
            if err <= small:
                slack += err
                c = short
            main[m] = c
        p = main
    t = tol - slack
    if not p:
        return True
    d = _poly_term(p, atoms)
    if z3.is_rational_value(d):
        v = Fraction(d.numerator_as_long(), d.denominator_as_long())
        return abs(v) <= t
    t = _ratval(t)
    return mkbool(z3.And(d <= t, d >= -t))


def close(a, b, tol=0):
    """Boolean (maybe symbolic): a and b are equal up to tol, NaN == NaN."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        a, b = np.broadcast_arrays(a, b)
        return land([close(x, y, tol) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return land([close(x, y, tol) for x, y in zip(a, b)])
    if not is_sym(a) and not is_sym(b):
        if a is None or b is None:
            return a is b
        fa, fb = _REAL_FLOAT(a), _REAL_FLOAT(b)
        if math.isnan(fa) or math.isnan(fb):
            return math.isnan(fa) and math.isnan(fb)
        return abs(fa - fb) <= tol
    a, b = to_real(a), to_real(b)
    d = a.e - b.e
    t = _ratval(tol)
    eq = z3.And(d <= t, d >= -t)
    if a.nan is not None or b.nan is not None:
        f = z3.BoolVal(False)
        an = f if a.nan is None else a.nan
        bn = f if b.nan is None else b.nan
        eq = z3.Or(z3.And(an, bn), z3.And(z3.Not(an), z3.Not(bn), eq))
    return mkbool(eq)


def _eval(model, value):
    if type(value) is SymBool:
        return z3.is_true(model.eval(value.e, model_completion=True))
    if type(value) is SymInt:
        return model.eval(value.e, model_completion=True).as_long()
    if type(value) is SymReal:
        if value.nan is not None and z3.is_true(
            model.eval(value.nan, model_completion=True)
        ):
            return NAN
        v = model.eval(value.e, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        if not z3.is_rational_value(v):
            return None
        return v.numerator_as_long() / v.denominator_as_long()
    if isinstance(value, np.ndarray):
        return [_eval(model, x) for x in value.ravel().tolist()]
    if isinstance(value, (list, tuple)):
        return [_eval(model, x) for x in value]
    if isinstance(value, dict):
        return [[_eval(model, k), _eval(model, v)] for k, v in value.items()]
    return value


class ConcreteEngine:
    """Runs a harness on ordinary values (replay of a model)."""

    symbolic = False
    opaque_str = False

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.failed = []
        self.nchecks = 0
        self.tol = 1e-6
        self.zero_div = "nan"
        self.memo = {}
        self.split_minmax = self.canonical_quotients = self.assume_nonzero = False
        # a / b = a * (1 / b) and comparisons of expanded polynomials
        self.inverse_quotients = False
        # square roots of numbers computed in floats
        self.float_sqrt = False

    def _get(self, name):
        try:
            return self.values[name]
        except KeyError:
            raise ReplayInvalid(f"no value for {name}")

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def real(self, name, lo=None, hi=None, nan=False):
        if nan and self._get(name + "!nan"):
            return np.float64("nan")
        n, d = self._get(name)
        return np.float64(n / d)

    def bool(self, name):
        return self._get(name)

    def numeral(self, v):
        return str(v)

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def _array(self, shape, f, dtype):
        a = np.empty(shape, dtype=dtype)
        for idx in np.ndindex(*a.shape):
            a[idx] = f(idx)
        return a

    def int_array(self, name, shape, lo=None, hi=None):
        return self._array(shape, lambda i: self.int(_iname(name, i)), _REAL_INT)

    def real_array(self, name, shape, lo=None, hi=None, nan=False):
        return self._array(
            shape, lambda i: self.real(_iname(name, i), nan=nan), _REAL_FLOAT
        )

    def bool_array(self, name, shape):
        return self._array(shape, lambda i: self.bool(_iname(name, i)), _REAL_BOOL)

    def array(self, values):
        return np.array(values)

    def branch(self, e):
        raise RuntimeError("symbolic term in a concrete run")

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            raise ReplayInvalid("assumption")

    def cut(self, why):
        return ReplayInvalid(why)

    def check(self, cond, label, msg=""):
        self.nchecks += 1
        if isinstance(cond, (np.ndarray, list, tuple)):
            cond = all(_flat([cond]))
        if not cond:
            raise CheckFailed(label, msg)

    def check_close(self, a, b, label, tol=0, msg=""):
        self.nchecks += 1
        if not close(a, b, max(tol * (1 - 1e-3), self._scale(a, b) * self.tol)):
            raise CheckFailed(label, f"{msg} {a!r} != {b!r}")

    def _scale(self, a, b):
        m = 1.0
        for x in _flat([a, b]):
            try:
                x = abs(_REAL_FLOAT(x))
            except (TypeError, ValueError):
                continue
            if not math.isnan(x) and not math.isinf(x):
                m = max(m, x)
        return m

    def observe(self, name, value):
        self.observed.append((name, _plain(value)))

    def run(self, harness):
        global _current
        _current = self
        try:
            harness(self)
        finally:
            _current = None


def _plain(value):
    if isinstance(value, np.ndarray):
        return [_plain(x) for x in value.ravel().tolist()]
    if isinstance(value, (list, tuple)):
        return [_plain(x) for x in value]
    if isinstance(value, dict):
        return [[_plain(k), _plain(v)] for k, v in value.items()]
    if isinstance(value, np.generic):
        return value.item()
    return value


def same_observation(a, b, tol=1e-6):
    if a is None or b is None:
        # None: could not be evaluated in the model
        return True
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return all(same_observation(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (_REAL_INT, _REAL_FLOAT)) and isinstance(
        b, (_REAL_INT, _REAL_FLOAT)
    ):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b
