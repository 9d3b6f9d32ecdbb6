"""
Symbolic execution engine for the real cratermaker Python code.

The functions under check are the ones imported from /repo: they are *run*, unmodified, on proxy values (SymFloat,
SymInt, SymBool) whose operations build z3 terms.  A branch on a symbolic condition asks the solver which sides are
feasible and forks (by re-execution with a recorded decision prefix), so that the explored set of paths covers every
input inside the declared bounds.  A property is an assertion over the terms; the solver is asked for inputs on the
path that falsify it.

Real arithmetic: Python/numpy floats are modelled as mathematical reals (a float constant denotes the short rational or
decimal it was written as).  Each counterexample is replayed in IEEE arithmetic on the unpatched code before anything
is reported (see run.py).
"""

from __future__ import annotations

import math
import numbers
import time
from fractions import Fraction

import z3

z3.set_param("rewriter.pull_cheap_ite", False)


# ----------------------------------------------------------------------------------------------------- control flow
class PathControl(BaseException):
    """Base class of engine control flow: never caught by 'except Exception' in the code under check."""


class Infeasible(PathControl):
    """The path condition is unsatisfiable."""


class Unsupported(PathControl):
    """An operation the engine cannot represent was reached on this path."""


class Budget(PathControl):
    """Path / time budget used up."""


CUR: "Path | None" = None  # the path being executed


def cur() -> "Path":
    if CUR is None:
        raise Unsupported("symbolic value used outside of a symbolic path")
    return CUR


# ----------------------------------------------------------------------------------------------------- constants
_frac_cache: dict = {}


def frac(x) -> Fraction:
    """The rational a concrete number denotes (see module docstring)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    if hasattr(x, "item") and not isinstance(x, float):
        x = x.item()
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    x = float(x)
    if not math.isfinite(x):
        raise Unsupported(f"non-finite constant {x}")
    f = _frac_cache.get(x)
    if f is None:
        exact = Fraction(x)
        if exact.denominator == 1:
            f = exact
        else:
            g = exact.limit_denominator(1_000_000)
            if g != 0 and abs(g - exact) <= abs(exact) * Fraction(2, 10**16):
                f = g
            else:
                f = Fraction(repr(x))
        _frac_cache[x] = f
    return f


def rv(x) -> z3.ArithRef:
    f = frac(x)
    return z3.RatVal(f.numerator, f.denominator)


def snap_expr_coeff(f: Fraction) -> Fraction:
    g = f.limit_denominator(1_000_000)
    if g != 0 and abs(g - f) <= abs(f) * Fraction(1, 10**14):
        return g
    return f


# ----------------------------------------------------------------------------------------------------- sym values
def is_sym(x) -> bool:
    return isinstance(x, Sym)


class Sym:
    """Base class of all symbolic scalars."""

    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # numpy scalars on the left must defer to us
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import shims

        return shims.array_ufunc(ufunc, method, *inputs, **kwargs)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __repr__(self):
        p = CUR
        if p is not None and p.format_mode == "token":
            return p.token(self, "")
        return f"<{type(self).__name__} {self.e}>"

    __str__ = __repr__

    def __format__(self, spec):
        p = CUR
        if p is not None and p.format_mode == "value" and isinstance(self, SymInt):
            return format(p.concretize_int(self), spec)
        if p is not None and p.format_mode == "token":
            return p.token(self, spec)
        return repr(self)


def lift(x):
    """z3 term of a concrete or symbolic number; None when it is not representable (nan/inf/other)."""
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RatVal(x.numerator, x.denominator)
    if hasattr(x, "dtype") and hasattr(x, "item"):
        if getattr(x, "ndim", 0) != 0:
            return None
        return lift(x.item())
    if isinstance(x, float):
        if not math.isfinite(x):
            return None
        return rv(x)
    return None


def mk(e):
    """Wrap a z3 term, folding numerals to Python numbers."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return SymFloat(e)
    if z3.is_bool(e):
        return mkb(e)
    return SymInt(e) if e.sort() == z3.IntSort() else SymFloat(e)


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def num_value(e):
    """Fraction value of a numeral term, else None."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def _lincomb(e, limit=24):
    """{monomial id: coefficient} of a simplified sum, or None when it is not a short sum of scaled terms."""
    out = {}
    terms = e.children() if z3.is_add(e) else [e]
    if len(terms) > limit:
        return None
    for t in terms:
        c = Fraction(1)
        v = num_value(t)
        if v is not None:
            out[0] = out.get(0, Fraction(0)) + v
            continue
        k = [t]
        if z3.is_mul(t):
            v = num_value(t.arg(0))
            if v is not None:
                c, k = v, [t.arg(i) for i in range(1, t.num_args())]
        key = tuple(sorted(x.get_id() for x in k))
        out[key] = out.get(key, Fraction(0)) + c
    return out


def const_ratio(a, b):
    """a/b when a is a constant multiple of b (term by term), else None."""
    la, lb = _lincomb(a), _lincomb(b)
    if not la or not lb or la.keys() != lb.keys():
        return None
    r = None
    for k, cb in lb.items():
        if cb == 0:
            return None
        q = la[k] / cb
        if r is not None and q != r:
            return None
        r = q
    return r


def _is_special(x):
    """Concrete inf / nan (Python or numpy scalar)."""
    if isinstance(x, Sym):
        return False
    try:
        return isinstance(x, numbers.Real) and not math.isfinite(x)
    except (TypeError, OverflowError):
        return False


class SymNum(Sym):
    __slots__ = ()

    # ---- arithmetic
    def _bin(self, other, op, swap=False):
        if hasattr(other, "dtype") and getattr(other, "ndim", 0) > 0:
            return NotImplemented
        if _is_special(other):
            return self._special(other, op, swap)
        o = lift(other)
        if o is None:
            return NotImplemented
        a, b = (o, self.e) if swap else (self.e, o)
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        if op == "+":
            return mk(a + b)
        if op == "-":
            return mk(a - b)
        if op == "*":
            return mk(a * b)
        raise AssertionError(op)

    def _special(self, other, op, swap):
        """sym (op) inf/nan: sym is finite, so the result is known up to the sign of sym."""
        other = float(other)
        if math.isnan(other):
            return float("nan")
        if op == "+":
            return other
        if op == "-":
            return other if swap else -other
        if op == "*":
            if bool(self == 0):
                return float("nan")
            return other if bool(self > 0) else -other
        if op == "/":
            if swap:
                return other if bool(self >= 0) else -other
            return 0.0
        raise Unsupported(f"sym {op} {other}")

    def __add__(self, o):
        return self._bin(o, "+")

    def __radd__(self, o):
        return self._bin(o, "+", True)

    def __sub__(self, o):
        return self._bin(o, "-")

    def __rsub__(self, o):
        return self._bin(o, "-", True)

    def __mul__(self, o):
        return self._bin(o, "*")

    def __rmul__(self, o):
        return self._bin(o, "*", True)

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def _div(self, num, den):
        nv = num_value(den)
        if nv is not None:
            if nv == 0:
                raise ZeroDivisionError("division by zero")
            return mk(_real(num) * z3.RatVal(nv.denominator, nv.numerator))
        p = cur()
        if p.branch(den == 0):
            raise ZeroDivisionError("division by zero")
        num, den = z3.simplify(_real(num)), z3.simplify(_real(den))
        r = const_ratio(num, den)
        if r is not None:
            return mk(z3.RatVal(r.numerator, r.denominator))
        return p.div(num, den)

    def __truediv__(self, o):
        if hasattr(o, "dtype") and getattr(o, "ndim", 0) > 0:
            return NotImplemented
        if _is_special(o):
            return self._special(o, "/", False)
        oe = lift(o)
        if oe is None:
            return NotImplemented
        return self._div(self.e, oe)

    def __rtruediv__(self, o):
        if hasattr(o, "dtype") and getattr(o, "ndim", 0) > 0:
            return NotImplemented
        if _is_special(o):
            return self._special(o, "/", True)
        oe = lift(o)
        if oe is None:
            return NotImplemented
        return self._div(oe, self.e)

    def _floordivmod(self, a, b):
        """Python floor-division semantics; returns (q term Int-sorted, r term)."""
        p = cur()
        bv = num_value(b)
        if bv is None:
            if p.branch(b == 0):
                raise ZeroDivisionError("modulo by zero")
        elif bv == 0:
            raise ZeroDivisionError("modulo by zero")
        if a.sort() == z3.IntSort() and b.sort() == z3.IntSort() and bv is not None and bv > 0:
            return a / b, a % b
        q, r = p.floor_div(a, b)
        return q, r

    def _fd(self, x, y, which):
        q, r = self._floordivmod(x, y)
        if which == "q":
            both_int = x.sort() == z3.IntSort() and y.sort() == z3.IntSort()
            return mk(q if both_int else _real(q))
        return mk(r)

    def __floordiv__(self, o):
        oe = lift(o)
        return NotImplemented if oe is None else self._fd(self.e, oe, "q")

    def __rfloordiv__(self, o):
        oe = lift(o)
        return NotImplemented if oe is None else self._fd(oe, self.e, "q")

    def __mod__(self, o):
        oe = lift(o)
        return NotImplemented if oe is None else self._fd(self.e, oe, "r")

    def __rmod__(self, o):
        oe = lift(o)
        return NotImplemented if oe is None else self._fd(oe, self.e, "r")

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    # ---- comparisons
    def _cmp(self, o, op):
        if hasattr(o, "dtype") and getattr(o, "ndim", 0) > 0:
            return NotImplemented
        if _is_special(o):
            o = float(o)
            if math.isnan(o):
                return op == "!="
            pos = o > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        oe = lift(o)
        if oe is None:
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
        a, b = self.e, oe
        if a.sort() != b.sort():
            a, b = _real(a), _real(b)
        if CUR is not None and CUR.prefer_exp and a.sort() == z3.RealSort():
            CUR.link_logs(a, b)
        r = {
            "<": lambda: a < b,
            "<=": lambda: a <= b,
            ">": lambda: a > b,
            ">=": lambda: a >= b,
            "==": lambda: a == b,
            "!=": lambda: a != b,
        }[op]()
        return mkb(r)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __hash__(self):
        p = CUR
        if p is None:
            return hash(self.e.sexpr())
        return hash(p.concretize(self))

    def __float__(self):
        nv = num_value(self.e)
        if nv is not None:
            return float(nv)
        return float(cur().concretize(self))

    def __complex__(self):
        return complex(float(self))

    def __floor__(self):
        if isinstance(self, SymInt):
            return self
        return mk(z3.ToInt(self.e))

    def __ceil__(self):
        if isinstance(self, SymInt):
            return self
        return mk(-z3.ToInt(-self.e))

    def __trunc__(self):
        if isinstance(self, SymInt):
            return self
        return mk(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, nd=None):
        if isinstance(self, SymInt):
            return self
        if nd is not None and nd != 0:
            s = frac(10) ** nd
            return self.__mul__(s).__round__() / s
        # round half to even
        x = self.e
        fl = z3.ToInt(x)
        d = x - z3.ToReal(fl)
        half = z3.RatVal(1, 2)
        r = mk(z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
        return r if nd is None else r * 1.0

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # numpy scalar look-alikes
    def item(self):
        return self

    def astype(self, dtype, *a, **kw):
        import numpy

        kind = numpy.dtype(dtype).kind
        if kind in "iu":
            return self.__trunc__() if isinstance(self, SymFloat) else self
        if kind == "f":
            return self * 1.0
        if kind == "b":
            return self != 0
        raise Unsupported(f"astype {dtype}")

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    # numpy calls these methods when a ufunc meets an object array
    def sqrt(self):
        return sym_sqrt(self, np_style=True)

    def exp(self):
        return sym_exp(self)

    def log(self):
        return sym_log(self)

    def log10(self):
        return sym_log(self, base=10)

    def log2(self):
        return sym_log(self, base=2)

    def sin(self):
        return sym_sin(self)

    def cos(self):
        return sym_cos(self)

    def tan(self):
        return sym_sin(self) / sym_cos(self)

    def arcsin(self):
        return sym_asin(self)

    def arccos(self):
        return sym_acos(self)

    def arctan(self):
        return sym_atan(self)

    def radians(self):
        return self * (math.pi / 180.0)

    deg2rad = radians

    def degrees(self):
        return self * (180.0 / math.pi)

    rad2deg = degrees

    def rint(self):
        return self.__round__() * 1.0


class SymFloat(SymNum):
    __slots__ = ()

    def is_integer(self):
        return mkb(z3.ToReal(z3.ToInt(self.e)) == self.e)

    @property
    def dtype(self):
        import numpy

        return numpy.dtype("float64")

    def __int__(self):
        return cur().concretize_int(self.__trunc__())


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return cur().concretize_int(self)

    __int__ = __index__

    def is_integer(self):
        return True

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def dtype(self):
        import numpy

        return numpy.dtype("int64")


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return cur().branch(self.e)

    def _l(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool,)) or (hasattr(o, "dtype") and getattr(o, "ndim", 1) == 0):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        oe = self._l(o)
        return NotImplemented if oe is None else mkb(z3.And(self.e, oe))

    __rand__ = __and__

    def __or__(self, o):
        oe = self._l(o)
        return NotImplemented if oe is None else mkb(z3.Or(self.e, oe))

    __ror__ = __or__

    def __xor__(self, o):
        oe = self._l(o)
        return NotImplemented if oe is None else mkb(z3.Xor(self.e, oe))

    __rxor__ = __xor__

    def __invert__(self):
        return mkb(z3.Not(self.e))

    def logical_not(self):
        return mkb(z3.Not(self.e))

    def __eq__(self, o):
        oe = self._l(o)
        if oe is None:
            if isinstance(o, (int, float, SymNum)):
                return mk(lift(self)) == o
            return False
        return mkb(self.e == oe)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return mk(lift(self))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    def any(self):
        return self

    def all(self):
        return self


numbers.Real.register(SymFloat)
numbers.Integral.register(SymInt)


# ----------------------------------------------------------------------------------------------------- math functions
def sym_pow(base, ex):
    if _is_special(base) or _is_special(ex):
        raise Unsupported("power with a non-finite operand")
    b, x = lift(base), lift(ex)
    if b is None or x is None:
        return NotImplemented
    p = cur()
    xv = num_value(x)
    bv = num_value(b)
    if xv is not None and bv is not None:
        return SymFloat(rv(float(bv) ** float(xv)))
    if xv is not None:
        if xv.denominator == 1 and abs(xv.numerator) <= 12:
            n = xv.numerator
            if n == 0:
                return 1 if b.sort() == z3.IntSort() and x.sort() == z3.IntSort() else SymFloat(z3.RealVal(1))
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            if n > 0:
                return mk(r if x.sort() == z3.IntSort() else _real(r))
            if p.branch(b == 0):
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return p.div(z3.RealVal(1), _real(r))
        b = _real(b)
        positive = p._pos_struct(z3.simplify(b))
        if not positive and p.branch(b < 0):
            raise Unsupported("fractional power of a negative number")
        if not positive and p.branch(b == 0):
            if xv < 0:
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return SymFloat(z3.RealVal(0))
        if xv.denominator <= 4 and abs(xv.numerator) <= 8 and not p.prefer_exp:
            return p.root(b, xv)
        return p.exp(p.scale(xv, p.log(b)))
    # symbolic exponent
    x = _real(x)
    if bv is not None:
        if bv <= 0:
            raise Unsupported("symbolic power of a non-positive constant")
        if bv == 10:
            return p.exp(SymFloat(x), "exp10")
        return p.exp(p.scale(frac(math.log(float(bv))), SymFloat(x)))
    b = _real(b)
    if not p.entails(b > 0):
        if p.branch(b <= 0):
            raise Unsupported("symbolic power of a non-positive number")
    return p.exp(SymFloat(x) * p.log(b))


def sym_sqrt(x, np_style=False):
    e = _real(lift(x))
    p = cur()
    v = num_value(e)
    if v is not None and v >= 0:
        r = Fraction(math.isqrt(v.numerator * v.denominator), v.denominator)
        if r * r == v:
            return SymFloat(z3.RatVal(r.numerator, r.denominator))
    e = z3.simplify(e)
    if z3.is_mul(e) and e.num_args() == 2 and z3.eq(e.arg(0), e.arg(1)):  # the root of a square
        return SymFloat(e.arg(0)) if p.branch(e.arg(0) >= 0) else mk(-e.arg(0))
    if z3.is_app_of(e, z3.Z3_OP_POWER) and num_value(e.arg(1)) == 2:
        return SymFloat(e.arg(0)) if p.branch(e.arg(0) >= 0) else mk(-e.arg(0))
    if p.branch(e < 0):
        if np_style:
            return float("nan")
        raise ValueError("math domain error")
    return p.root(e, Fraction(1, 2))


def sym_exp(x):
    return cur().exp(x)


def sym_log(x, base=None, np_style=True):
    e = _real(lift(x))
    p = cur()
    if not p.entails(e > 0):
        if p.branch(e <= 0):
            if not np_style:
                raise ValueError("math domain error")
            return float("nan") if p.branch(e < 0) else float("-inf")
    if base is None:
        return p.log(e)
    if base == 10:
        return p.log(e, "log10")
    if base == 2:
        return SymFloat(p.log2(e))
    return p.scale(frac(1.0 / math.log(base)), p.log(e))


def sym_sin(x):
    return cur().trig("sin", _real(lift(x)))


def sym_cos(x):
    return cur().trig("cos", _real(lift(x)))


def sym_asin(x):
    return cur().trig("asin", _real(lift(x)))


def sym_acos(x):
    return cur().trig("acos", _real(lift(x)))


def sym_atan(x):
    return cur().trig("atan", _real(lift(x)))


def sym_atan2(y, x):
    return cur().fn2("atan2", _real(lift(y)), _real(lift(x)))


def ite(c, a, b):
    """Value-level if-then-else that does not fork where the two sides can share a sort."""
    if isinstance(c, SymBool):
        la, lb = lift(a), lift(b)
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            ea = a.e if isinstance(a, SymBool) else z3.BoolVal(bool(a))
            eb = b.e if isinstance(b, SymBool) else z3.BoolVal(bool(b))
            return mkb(z3.If(c.e, ea, eb))
        if la is not None and lb is not None:
            if la.sort() != lb.sort():
                la, lb = _real(la), _real(lb)
            return mk(z3.If(c.e, la, lb))
    return a if c else b


def smax(a, b):
    if _is_special(a) or _is_special(b):
        return a if a > b else b
    return ite(a >= b, a, b)


def smin(a, b):
    if _is_special(a) or _is_special(b):
        return a if a < b else b
    return ite(a <= b, a, b)


# ----------------------------------------------------------------------------------------------------- statistics
class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.unsupported = 0
        self.concretised = 0
        self.obligations = 0
        self.discharged = 0
        self.undecided = 0
        self.max_decisions = 0
        self.unsupported_msgs: dict = {}

    def merge(self, o):
        for k, v in vars(o).items():
            if isinstance(v, dict):
                for kk, vv in v.items():
                    self.unsupported_msgs[kk] = self.unsupported_msgs.get(kk, 0) + vv
            elif k == "max_decisions":
                self.max_decisions = max(self.max_decisions, v)
            else:
                setattr(self, k, getattr(self, k) + v)

    def as_dict(self):
        d = dict(vars(self))
        d["solver_s"] = round(self.solver_s, 3)
        return d


_vars_cache: dict = {}


def free_vars(e) -> frozenset:
    i = e.get_id()
    c = _vars_cache.get(i)
    if c is not None and c[0].eq(e):
        return c[1]
    seen, stack, out = set(), [e], set()
    while stack:
        t = stack.pop()
        j = t.get_id()
        if j in seen:
            continue
        seen.add(j)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
        else:
            stack.extend(t.children())
    r = frozenset(out)
    _vars_cache[i] = (e, r)
    if len(_vars_cache) > 200000:
        _vars_cache.clear()
    return r


class Path:
    """One execution path: decisions taken, path condition, auxiliary definitions."""

    def __init__(self, prefix, stats, feas_ms=1500, check_ms=20000, deadline=None):
        self.prefix = list(prefix)
        self.decisions: list = []
        self.alts: list = []  # alternative prefixes discovered
        self.pc: list = []  # path condition and assumptions
        self.ax: list = []  # definitions / axioms of auxiliary variables
        self.stats = stats
        self.feas_ms = feas_ms
        self.check_ms = check_ms
        self.deadline = deadline
        self.format_mode = "repr"
        self._token_names = {}
        self.prefer_exp = False
        self._linking = False
        self._bounds_done = 0
        self._idx, self._idx_fv, self._idx_done = {}, {}, [0, 0]
        self._bounds = {}
        self._linked = {}
        self.inputs: dict = {}  # name -> z3 const
        self.incomplete = False
        self._fresh = 0
        self._defs: dict = {}
        self._apps: dict = {}  # fn name -> list of (arg, res)
        self._log2s = []
        self._model = None
        self._alg: dict = {}
        self._posmemo: dict = {}
        self.tokens: dict = {}
        self.notes: list = []

    # ---- fresh symbols
    def fresh(self, sort, hint="t"):
        self._fresh += 1
        n = f"${hint}{self._fresh}"
        return z3.Int(n) if sort == "int" else (z3.Bool(n) if sort == "bool" else z3.Real(n))

    def add(self, *cs):
        self.ax.extend(cs)
        self._model_check(cs)

    def _model_check(self, cs):
        if self._model is not None:
            for c in cs:
                if not z3.is_true(self._model.eval(c, model_completion=True)):
                    self._model = None
                    return

    # ---- solver access
    def _cone(self, names):
        """The constraints connected to the given variables, in their order."""
        for lst, k in ((self.pc, 0), (self.ax, 1)):
            for i in range(self._idx_done[k], len(lst)):
                fv = free_vars(lst[i])
                self._idx_fv[(k, i)] = fv
                for v in fv:
                    self._idx.setdefault(v, []).append((k, i))
            self._idx_done[k] = len(lst)
        seen, chosen, stack = set(names), set(), list(names)
        while stack:
            for c in self._idx.get(stack.pop(), ()):
                if c not in chosen:
                    chosen.add(c)
                    for v in self._idx_fv[c]:
                        if v not in seen:
                            seen.add(v)
                            stack.append(v)
        return [(self.ax if k else self.pc)[i] for k, i in sorted(chosen)]

    def _solve(self, goals, ms, want_model=False):
        """Check pc & ax & goals; uses only the constraints connected to the goals when a model is not needed."""
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time")
        cons = self.pc + self.ax
        if not want_model and goals:
            names = set()
            for g in goals:
                names |= free_vars(g)
            cons = self._cone(names)
        t0 = time.time()
        r = None
        if not want_model and goals and ms >= 5000:
            # A goal over one variable: an 'unsat' from the constraints on that variable alone is already an answer.
            own = set()
            for g in goals:
                own |= free_vars(g)
            if 1 <= len(own) <= 2:
                sub = [c for c in cons if free_vars(c) <= own]
                s = z3.Tactic("qfnra-nlsat").solver()
                s.set("timeout", int(min(4000, ms)))
                s.add(*sub, *goals)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = None
                self.stats.queries += 1
        if r != z3.unsat:
            s = z3.Solver()
            s.set("timeout", int(ms))
            s.add(*cons, *goals)
            r = s.check()
        self.stats.queries += 1
        dt = time.time() - t0
        self.stats.solver_s += dt
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, (s.model() if r == z3.sat else None), s

    def feasible(self, cond):
        if self._model is not None and z3.is_true(self._model.eval(cond, model_completion=True)):
            return True
        r, m, _ = self._solve([cond], self.feas_ms)
        return r != z3.unsat  # unknown counts as feasible (over-approximation)

    def get_model(self):
        if self._model is None:
            r, m, _ = self._solve([], self.check_ms, want_model=True)
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                return None
            self._model = m
        return self._model

    def entails(self, cond):
        if self._model is not None and z3.is_false(self._model.eval(cond, model_completion=True)):
            return False
        r, _, _ = self._solve([z3.Not(cond)], self.feas_ms)
        return r == z3.unsat

    def assume(self, cond):
        if isinstance(cond, bool) or not isinstance(cond, (SymBool, z3.BoolRef)):
            if not cond:
                raise Infeasible()
            return
        e = cond.e if isinstance(cond, SymBool) else cond
        self.pc.append(e)
        self._model_check([e])
        if self._model is None:
            r, m, _ = self._solve([e], self.feas_ms)
            if r == z3.unsat:
                raise Infeasible()

    def branch(self, cond) -> bool:
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.Not(cond)
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d == "T!" or d == "F!":  # forced on the first visit (the other side was infeasible)
                v = d == "T!"
            else:
                v = d
            self.decisions.append(d)
        else:
            t = self.feasible(cond)
            f = self.feasible(neg) if t else True
            if t and f:
                v = True
                self.alts.append(self.decisions + [False])
                self.decisions.append(True)
            else:
                v = t
                self.decisions.append("T!" if v else "F!")
        c = cond if v else neg
        self.pc.append(c)
        self._model_check([c])
        self.stats.max_decisions = max(self.stats.max_decisions, len(self.decisions))
        if len(self.decisions) > 5000:
            raise Unsupported("more than 5000 decisions on one path")
        return v

    def concretize_int(self, x):
        """Fork over the feasible values of an integer term."""
        if isinstance(x, int):
            return x
        e = x.e
        for _ in range(4096):
            v = num_value(z3.simplify(e))
            if v is not None:
                return int(v)
            # replay of recorded choice
            i = len(self.decisions)
            if i < len(self.prefix) and isinstance(self.prefix[i], tuple):
                kind, val = self.prefix[i]
                self.decisions.append(self.prefix[i])
                if kind == "=":
                    self.pc.append(e == val)
                    self._model_check([e == val])
                    return val
                self.pc.append(e != val)
                self._model_check([e != val])
                continue
            m = self.get_model()
            if m is None:
                raise Unsupported("no model to enumerate an integer term")
            val = m.eval(e, model_completion=True)
            val = val.as_long()
            if self.feasible(e != val):
                self.alts.append(self.decisions + [("!", val)])
            self.decisions.append(("=", val))
            self.pc.append(e == val)
            self._model_check([e == val])
            return val
        raise Unsupported("integer term with more than 4096 values")

    def concretize(self, x):
        """Pin a term to one model value. Integers fork over all values; reals lose generality (recorded)."""
        if isinstance(x, (int, float)):
            return x
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymInt):
            return self.concretize_int(x)
        v = num_value(z3.simplify(x.e))
        if v is not None:
            return float(v)
        m = self.get_model()
        if m is None:
            raise Unsupported("no model to concretise a real term")
        val = model_frac(m, x.e)
        self.incomplete = True
        self.stats.concretised += 1
        c = x.e == z3.RatVal(val.numerator, val.denominator)
        self.pc.append(c)
        self._model_check([c])
        if self._model is None and not self.feasible(z3.BoolVal(True)):
            raise Infeasible()
        return float(val)

    def token(self, x, spec):
        e = z3.simplify(x.e, som=True)
        k = (e.get_id(), type(x), spec)
        n, _ = self._token_names.get(k, (None, None))
        if n is None:
            n = f"@{len(self.tokens)}@"
            self._token_names[k] = (n, e)
            self.tokens[n] = (x, spec)
        return n

    # ---- definitions
    def _memo(self, key, args):
        k = (key, tuple(a.get_id() for a in args))
        hit = self._defs.get(k)
        if hit is not None and all(a.eq(b) for a, b in zip(hit[0], args)):
            return hit[1]
        return None

    def _store(self, key, args, val):
        self._defs[(key, tuple(a.get_id() for a in args))] = (tuple(args), val)
        return val

    def div(self, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        hit = self._memo("div", (a, b))
        if hit is not None:
            return mk(hit)
        if a.eq(b):
            return SymFloat(z3.RealVal(1))
        q = self.fresh("real", "q")
        self.add(q * b == a)
        self._alg[("div", q.get_id())] = (q, (a, b))
        self._store("div", (a, b), q)
        return mk(q)

    def floor_div(self, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        ints = a.sort() == z3.IntSort() and b.sort() == z3.IntSort()
        if not ints:
            a, b = _real(a), _real(b)
        hit = self._memo("fdiv", (a, b))
        if hit is not None:
            return hit
        k = self.fresh("int", "k")
        kk = k if ints else z3.ToReal(k)
        r = a - kk * b
        bv = num_value(b)
        if bv is not None:
            self.add(*( [r >= 0, r < b] if bv > 0 else [r <= 0, r > b] ))
        else:
            self.add(z3.If(b > 0, z3.And(r >= 0, r < b), z3.And(r <= 0, r > b)))
        return self._store("fdiv", (a, b), (k, r))

    def root(self, e, ex: Fraction):
        """e ** ex for e >= 0 (e > 0 if ex < 0), ex = p/q with small q: y >= 0, y**q == e**|p|."""
        e = z3.simplify(e)
        if ex < 0:
            r = self.root(e, -ex)
            return self.div(z3.RealVal(1), r.e)
        key = f"root{ex}"
        hit = self._memo(key, (e,))
        if hit is not None:
            return SymFloat(hit)
        # (y**q)**(p/q) with a known non-negative y
        y = self.fresh("real", "y")
        p, q = ex.numerator, ex.denominator
        lhs, rhs = y, e
        for _ in range(q - 1):
            lhs = lhs * y
        for _ in range(p - 1):
            rhs = rhs * e
        self.add(y >= 0, lhs == rhs)
        self.add(z3.Implies(e > 0, y > 0), z3.Implies(e == 0, y == 0))
        for a2, y2 in self._apps.setdefault(key, []):
            self.add((e < a2) == (y < y2), (e == a2) == (y == y2))
        self._apps[key].append((e, y))
        self._alg[("root", y.get_id())] = (y, (e, ex))
        self._store(key, (e,), y)
        return SymFloat(y)

    def scale(self, c: Fraction, x):
        """c * x with the product of coefficients snapped to short rationals (log-domain bookkeeping)."""
        e = z3.simplify(_real(lift(x)) * z3.RatVal(c.numerator, c.denominator), som=True)
        return SymFloat(_snap(e))

    def log(self, e, name="log"):
        """log of a term known to be positive; products, quotients, powers and roots are decomposed."""
        e = z3.simplify(_real(e if not isinstance(e, Sym) else e.e))
        return SymFloat(_snap(z3.simplify(self._log(e, name), som=True)))

    def _has_exp_factor(self, e, depth=0):
        if depth > 6:
            return False
        for fam in ("exp", "exp10"):
            a = self._alg.get((fam, e.get_id()))
            if a is not None and a[0].eq(e):
                return True
        d = self._alg.get(("div", e.get_id()))
        if d is not None and d[0].eq(e):
            return self._has_exp_factor(d[1][0], depth + 1) or self._has_exp_factor(d[1][1], depth + 1)
        if z3.is_mul(e):
            return any(self._has_exp_factor(c, depth + 1) for c in e.children())
        return False

    def link_logs(self, a, b):
        """Order of two positive quantities, one of them a product with an exponential, is the order of their logarithms."""
        if self._linking:
            return
        a, b = z3.simplify(a), z3.simplify(b)
        if num_value(b) == 0 and z3.is_add(a) and len(a.children()) == 2:
            # p - q compared with zero
            pos, neg = [], []
            for t in a.children():
                c = num_value(t.children()[0]) if z3.is_mul(t) else None
                (neg if c is not None and c < 0 else pos).append(t)
            if len(pos) == 1 and len(neg) == 1:
                a, b = pos[0], z3.simplify(-neg[0])
        if not (self._has_exp_factor(a) or self._has_exp_factor(b)):
            return
        k = (a.get_id(), b.get_id())
        if k in self._linked:
            return
        self._linking = True
        try:
            if self._pos(a) and self._pos(b):
                la, lb = self.log(a).e, self.log(b).e
                self.add((a < b) == (la < lb), (a == b) == (la == lb))
                self._linked[k] = (a, b)
        finally:
            self._linking = False

    def _pos(self, e):
        v = num_value(e)
        if v is not None:
            return v > 0
        k = e.get_id()
        hit = self._posmemo.get(k)
        if hit is not None and hit[0].eq(e):
            return True
        r = self._pos_struct(e) or self.entails(e > 0)
        if r:
            self._posmemo[k] = (e, True)
        return r

    def _pos_struct(self, e, depth=0):
        """Positive because it is built from positive parts (no query for the composite, one for each plain variable)."""
        v = num_value(e)
        if v is not None:
            return v > 0
        k = e.get_id()
        hit = self._posmemo.get(k)
        if hit is not None and hit[0].eq(e):
            return True
        r = False
        if depth < 12:
            for fam in ("exp", "exp10"):
                a = self._alg.get((fam, k))
                if a is not None and a[0].eq(e):
                    r = True
            d = self._alg.get(("div", k))
            if d is not None and d[0].eq(e):
                r = all(self._pos_struct(c, depth + 1) for c in d[1])
            d = self._alg.get(("root", k))
            if d is not None and d[0].eq(e):
                r = self._pos_struct(d[1][0], depth + 1)
            if z3.is_mul(e) or z3.is_add(e):
                r = all(self._pos_struct(c, depth + 1) for c in e.children())
            elif z3.is_app_of(e, z3.Z3_OP_POWER):
                r = self._pos_struct(e.children()[0], depth + 1)
            elif not r and z3.is_const(e) and ("neg", k) not in self._posmemo:
                r = self.entails(e > 0)
                if not r:
                    self._posmemo[("neg", k)] = e  # not (yet) known to be positive
        if r:
            self._posmemo[k] = (e, True)
        return r

    def _log(self, e, name, depth=0):
        inv = {"log": "exp", "log10": "exp10"}[name]
        if num_value(e) is not None:
            return self.fn(name, e)
        for fam in ("exp", "exp10"):
            a = self._alg.get((fam, e.get_id()))
            if a is not None and a[0].eq(e):
                if fam == inv:
                    return a[1]
                return a[1] * (_mp_const("1/ln10") if name == "log10" else _mp_const("ln10"))
        if depth < 12:
            d = self._alg.get(("div", e.get_id()))
            if d is not None and d[0].eq(e):
                a, b = d[1]
                if self._pos(b) and self._pos(a):
                    return self._graph_point(name, e, self._log(a, name, depth + 1) - self._log(b, name, depth + 1))
            d = self._alg.get(("root", e.get_id()))
            if d is not None and d[0].eq(e):
                a, ex = d[1]
                if self._pos(a):
                    return self._log(a, name, depth + 1) * z3.RatVal(ex.numerator, ex.denominator)
            if z3.is_app_of(e, z3.Z3_OP_POWER):
                b, n = e.children()
                nv = num_value(n)
                if nv is not None and self._pos(b):
                    return self._log(b, name, depth + 1) * z3.RatVal(nv.numerator, nv.denominator)
            if z3.is_mul(e):
                cs = e.children()
                neg = sum(1 for c in cs if num_value(c) is not None and num_value(c) < 0)
                if neg == 0 and all(self._pos(c) for c in cs):
                    return z3.Sum([self._log(c, name, depth + 1) for c in cs])
            if z3.is_add(e) and len(e.children()) == 2:
                # a*x + b*x is left by the simplifier as a sum of monomials: factor a common variable out
                f = self._common_factor(e)
                if f is not None:
                    x, rest = f
                    if self._pos(x) and self._pos(rest):
                        return self._log(x, name, depth + 1) + self._log(rest, name, depth + 1)
        other = "log10" if name == "log" else "log"
        if self._memo(name, (e,)) is None:
            y = self._memo(other, (e,))
            if y is not None:
                return y * (_mp_const("1/ln10") if name == "log10" else _mp_const("ln10"))
        return self.fn(name, e)

    def link_bounds(self):
        """Relate the logarithms in use to the numbers their arguments are compared with on this path."""
        if not any(self._apps.get(n) for n in self.INV):
            return
        bounds = self._bounds
        stack = list(self.pc[self._bounds_done :])
        self._bounds_done = len(self.pc)
        seen = 0
        while stack and seen < 400:
            c = stack.pop()
            seen += 1
            if z3.is_not(c) or z3.is_and(c) or z3.is_or(c):
                stack += c.children()
            elif z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c) or z3.is_eq(c):
                a, b = c.children()
                for x, y in ((a, b), (b, a)):
                    v = num_value(y)
                    if v is None:
                        continue
                    k = Fraction(1)
                    if z3.is_mul(x) and len(x.children()) == 2 and num_value(x.children()[0]) is not None:
                        k, x = num_value(x.children()[0]), x.children()[1]
                    if z3.is_const(x) and num_value(x) is None and x.sort() == z3.RealSort() and k != 0 and v / k > 0:
                        bounds.setdefault(x.get_id(), (x, set()))[1].add(v / k)
        for name in ("log", "log10"):
            for arg, y in list(self._apps.get(name, [])):
                if num_value(arg) is not None:
                    continue
                k, x = Fraction(1), arg
                if z3.is_mul(x) and len(x.children()) == 2 and num_value(x.children()[0]) is not None:
                    k, x = num_value(x.children()[0]), x.children()[1]
                hit = bounds.get(x.get_id())
                if hit is None or not hit[0].eq(x):
                    continue
                for v in sorted(hit[1])[:12]:
                    if k * v > 0:
                        self.fn(name, z3.RatVal((k * v).numerator, (k * v).denominator))
        for name, top in (("exp", 300), ("exp10", 130)):
            for arg, y in list(self._apps.get(name, [])):
                k, x = Fraction(1), arg
                if z3.is_mul(x) and len(x.children()) == 2 and num_value(x.children()[0]) is not None:
                    k, x = num_value(x.children()[0]), x.children()[1]
                hit = bounds.get(x.get_id())
                if hit is None or not hit[0].eq(x):
                    continue
                for v in sorted(hit[1])[:12]:
                    if abs(k * v) < top:
                        self.fn(name, z3.RatVal((k * v).numerator, (k * v).denominator))

    def link_points(self, points):
        """Relate every exp(k*x) in use to exp(k*v), for the given numbers v."""
        for name, top in (("exp", 300), ("exp10", 130)):
            for k in {num_value(arg.arg(0)) if z3.is_mul(arg) and arg.num_args() == 2 else Fraction(1) for arg, y in self._apps.get(name, []) if num_value(arg) is None}:
                for v in points:
                    if k is not None and abs(k * v) < top:
                        self.fn(name, z3.RatVal((k * v).numerator, (k * v).denominator))

    def _graph_point(self, name, arg, y):
        """Record y = name(arg) for a decomposed logarithm, ordered against every other application."""
        hit = self._memo(name, (arg,))
        if hit is not None:
            return hit
        lst = self._apps.setdefault(name, [])
        self.add((arg > 1) == (y > 0), (arg == 1) == (y == 0))
        for a2, y2 in lst:
            self.add((arg < a2) == (y < y2), (arg == a2) == (y == y2))
        for a2, z in self._apps.get(self.INV[name], []):
            self.add((y < a2) == (arg < z), (y == a2) == (arg == z))
        lst.append((arg, y))
        self._store(name, (arg,), y)
        return y

    def _closed_form(self, name, arg):
        """exp(n1*log a + n2*log b + ...) with small integer coefficients: (numerator, denominator)."""
        terms = arg.children() if z3.is_add(arg) else [arg]
        num, den = z3.RealVal(1), z3.RealVal(1)
        for t in terms:
            n, x = 1, t
            if z3.is_mul(t) and len(t.children()) == 2 and num_value(t.children()[0]) is not None:
                c = num_value(t.children()[0])
                if c.denominator != 1 or abs(c) > 6:
                    return None
                n, x = int(c), t.children()[1]
            a = self._alg.get((self.INV[name], x.get_id()))
            if a is None or not a[0].eq(x):
                return None
            for _ in range(abs(n)):
                if n > 0:
                    num = num * a[1]
                else:
                    den = den * a[1]
        return num, den

    def _common_factor(self, e):
        def mono(t):
            cs = t.children() if z3.is_mul(t) else [t]
            out = []
            for c in cs:
                if z3.is_app_of(c, z3.Z3_OP_POWER) and num_value(c.children()[1]) is not None and num_value(c.children()[1]).denominator == 1:
                    b, n = c.children()
                    out += [b] * int(num_value(n))
                else:
                    out.append(c)
            return out

        ms = [mono(t) for t in e.children()]
        for x in ms[0]:
            if num_value(x) is not None:
                continue
            if all(any(y.eq(x) for y in m) for m in ms[1:]):
                terms = []
                for m in ms:
                    m = list(m)
                    i = next(k for k, y in enumerate(m) if y.eq(x))
                    m.pop(i)
                    t = z3.RealVal(1)
                    for y in m:
                        t = t * y
                    terms.append(t)
                return x, z3.simplify(z3.Sum(terms))
        return None

    def log2(self, e):
        """Base-2 logarithm: increasing, and exact at the powers of two (all that binning by it depends on)."""
        e = z3.simplify(e)
        v = num_value(e)
        if v is not None:
            return rv(math.log2(v))
        hit = self._memo("log2", (e,))
        if hit is not None:
            return hit
        y = self.fresh("real", "log2_")
        for k in range(-24, 25):
            w = z3.RatVal(2**k, 1) if k >= 0 else z3.RatVal(1, 2**-k)
            self.add((e < w) == (y < k), (e == w) == (y == k))
        for a2, y2 in self._log2s:
            self.add((e < a2) == (y < y2), (e == a2) == (y == y2))
        self._log2s.append((e, y))
        self._store("log2", (e,), y)
        return y

    def exp(self, x, name="exp"):
        e = z3.simplify(_real(lift(x)), som=True)
        e = _snap(e)
        return SymFloat(self.fn(name, e))

    INV = {"exp": "log", "log": "exp", "exp10": "log10", "log10": "exp10"}

    def fn(self, name, arg):
        """Application of a strictly increasing transcendental function, axiomatised."""
        arg = z3.simplify(arg)
        v = num_value(arg)
        import mpmath

        mpmath.mp.dps = 40
        f = {
            "exp": mpmath.exp,
            "log": mpmath.log,
            "log10": mpmath.log10,
            "exp10": lambda t: mpmath.power(10, t),
        }[name]
        if v is not None:
            hit = self._memo(name, (arg,))
            if hit is not None:
                return hit
            val = _mp_rat(f(mpmath.mpf(v.numerator) / v.denominator))
            # a known point of the graph: relate it to every symbolic application
            lst = self._apps.setdefault(name, [])
            for a2, y2 in lst:
                if num_value(a2) is None:
                    self.add((a2 < arg) == (y2 < val), (a2 == arg) == (y2 == val))
            for z, l in self._apps.get(self.INV[name], []):
                # inverse function: l = inv(z)
                if num_value(z) is None:
                    self.add((z < val) == (l < arg), (z == val) == (l == arg))
            lst.append((arg, val))
            self._store(name, (arg,), val)
            return val
        hit = self._memo(name, (arg,))
        if hit is not None:
            return hit
        inv = self._alg.get((self.INV[name], arg.get_id()))
        if inv is not None and inv[0].eq(arg):
            return inv[1]
        y = self.fresh("real", name + "_")
        lst = self._apps.setdefault(name, [])
        if name in ("exp", "exp10"):
            self.add(y > 0, (arg > 0) == (y > 1), (arg == 0) == (y == 1))
            if name == "exp":
                self.add(y >= 1 + arg)
            c = self._closed_form(name, arg)
            if c is not None:
                self.add(y * c[1] == c[0])
            # inverse applications already present:  y = exp(a)  and  l = log(z):   y < z <-> a < l
            for z, l in self._apps.get(self.INV[name], []):
                self.add((arg < l) == (y < z), (arg == l) == (y == z))
        else:
            self.add((arg > 1) == (y > 0), (arg == 1) == (y == 0))
            if name == "log":
                self.add(y <= arg - 1)
            for a2, z in self._apps.get(self.INV[name], []):
                self.add((y < a2) == (arg < z), (y == a2) == (arg == z))
        for a2, y2 in lst:
            self.add((arg < a2) == (y < y2), (arg == a2) == (y == y2))
        lst.append((arg, y))
        self._store(name, (arg,), y)
        self._alg[(name, y.get_id())] = (y, arg)
        return y

    def trig(self, name, arg):
        arg = z3.simplify(arg)
        if name in ("sin", "cos"):
            arg = _snap(arg)
        v = num_value(arg)
        pi = rv(math.pi)
        if v is not None:
            return SymFloat(rv(getattr(math, name)(float(v)) if abs(v) < 10**6 else math.nan))
        hit = self._memo(name, (arg,))
        if hit is not None:
            return SymFloat(hit)
        y = self.fresh("real", name + "_")
        lst = self._apps.setdefault(name, [])
        self._store(name, (arg,), y)
        if name in ("sin", "cos"):
            self.add(y >= -1, y <= 1)
            other = "cos" if name == "sin" else "sin"
            o = self._memo(other, (arg,))
            if o is not None:
                self.add(o * o + y * y == 1)
            if name == "sin":
                self.add(
                    z3.Implies(z3.And(arg > 0, arg < pi), y > 0),
                    z3.Implies(z3.And(arg < 0, arg > -pi), y < 0),
                    z3.Implies(arg == 0, y == 0),
                    z3.Implies(z3.And(arg >= 0, arg <= pi / 2), z3.And(y <= arg, y >= arg * 2 / pi)),
                )
                dom = lambda t: z3.And(t >= -pi / 2, t <= pi / 2)
                inc = True
            else:
                self.add(
                    z3.Implies(z3.And(arg > -pi / 2, arg < pi / 2), y > 0),
                    z3.Implies(z3.And(arg > pi / 2, arg < pi * 3 / 2), y < 0),
                    z3.Implies(arg == 0, y == 1),
                )
                dom = lambda t: z3.And(t >= 0, t <= pi)
                inc = False
            for a2, y2 in lst:
                self.add(z3.Implies(arg == a2, y == y2), z3.Implies(z3.And(dom(arg), dom(a2)), (arg < a2) == ((y < y2) if inc else (y > y2))))
            inv = "asin" if name == "sin" else "acos"
            src = self._alg.get((inv, arg.get_id()))
            if src is not None and src[0].eq(arg):
                self.add(y == src[1])
            src = self._alg.get(("acos" if name == "sin" else "asin", arg.get_id()))
            if src is not None and src[0].eq(arg):
                self.add(y >= 0, y * y + src[1] * src[1] == 1)
        else:
            lo, hi, inc = {"asin": (-pi / 2, pi / 2, True), "acos": (z3.RealVal(0), pi, False), "atan": (-pi / 2, pi / 2, True)}[name]
            if name != "atan":
                if self.branch(z3.Or(arg < -1, arg > 1)):
                    return float("nan")
            self.add(y >= lo, y <= hi)
            if name in ("asin", "atan"):
                self.add((arg > 0) == (y > 0), (arg == 0) == (y == 0))
            else:
                self.add((arg == 1) == (y == 0), (arg == -1) == (y == pi), (arg == 0) == (y == pi / 2))
            for a2, y2 in lst:
                self.add((arg < a2) == ((y < y2) if inc else (y > y2)), (arg == a2) == (y == y2))
            self._alg[(name, y.get_id())] = (y, arg)
        lst.append((arg, y))
        return SymFloat(y)

    def fn2(self, name, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        hit = self._memo(name, (a, b))
        if hit is not None:
            return SymFloat(hit)
        pi = rv(math.pi)
        y = self.fresh("real", name + "_")
        if name == "atan2":
            self.add(y >= -pi, y <= pi, (a > 0) == z3.And(y > 0, y < pi), z3.Implies(a < 0, y < 0), z3.Implies(z3.And(a == 0, b >= 0), y == 0))
            self.add(z3.Implies(z3.And(a == 0, b < 0), y == pi))
        self._store(name, (a, b), y)
        return SymFloat(y)


def _mp_const(name):
    import mpmath

    mpmath.mp.dps = 40
    return _mp_rat(mpmath.log(10) if name == "ln10" else 1 / mpmath.log(10))


def _mp_rat(val):
    """Rational within 1e-38 relative of an mpmath value."""
    import mpmath

    s = mpmath.nstr(val, 38, strip_zeros=False)
    f = Fraction(s)
    g = snap_expr_coeff(f) if f else f
    if f and abs(g - f) > abs(f) * Fraction(1, 10**30):
        g = f
    return z3.RatVal(g.numerator, g.denominator)


def _snap(e):
    """Snap the numeric coefficients of a (sum of) linear terms."""
    if z3.is_rational_value(e):
        f = snap_expr_coeff(num_value(e))
        return z3.RatVal(f.numerator, f.denominator)
    if z3.is_add(e):
        return z3.simplify(z3.Sum([_snap(c) for c in e.children()]))
    if z3.is_mul(e):
        cs = e.children()
        if z3.is_rational_value(cs[0]):
            f = snap_expr_coeff(num_value(cs[0]))
            rest = cs[1]
            for c in cs[2:]:
                rest = rest * c
            return z3.simplify(z3.RatVal(f.numerator, f.denominator) * rest)
    return e


def model_frac(m, e) -> Fraction:
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    v = z3.simplify(v)
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"cannot read model value {v}")
