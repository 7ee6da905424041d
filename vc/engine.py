"""Symbolic values, path exploration and obligation discharge.

The verified code is executed by CPython itself (compiled from /repo's current source by vc.instrument);
its inputs are the symbolic values below.  Each decision on a symbolic truth value splits the path
condition; the explorer re-executes the harness until every feasible path has been taken, so that a run
that ends without an undecided path is a case-complete proof of every obligation met on the way, for all
values of the symbolic inputs (and all lengths of the symbolic sequences)."""
from __future__ import annotations

import os
import datetime as _dt
import math
import numbers
import time
from fractions import Fraction

from vc.loadz3 import z3


class PathEnd(BaseException):
    """This path needs no further execution (e.g. the generic iteration of a loop has been checked)."""


class Infeasible(BaseException):
    """The path condition is contradictory."""


class Unsupported(BaseException):
    """The code left the subset the engine models: undecided, never a violation."""


class Restart(BaseException):
    """Candidate invariant dropped; the exploration has to be redone."""


class Budget(BaseException):
    pass


CUR: "Explorer | None" = None


def cur() -> "Explorer":
    if CUR is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CUR


# --------------------------------------------------------------------------------------------- constants
def frac(x) -> Fraction:
    if type(x) is bool:
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    # decimal reading of the constant; identical to the binary value up to 1 ulp
    return Fraction(repr(x))


def const_real(x):
    f = frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


TRUE = None
FALSE = None


def _init_consts():
    global TRUE, FALSE
    TRUE = z3.BoolVal(True)
    FALSE = z3.BoolVal(False)


_init_consts()


def is_true(e):
    return z3.is_true(e)


def b_and(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def b_or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def b_not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


class Sym:
    """Base of all symbolic values."""

    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1e9

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_num(x):
    return isinstance(x, (int, float, Fraction, numbers.Number)) and not isinstance(x, Sym) or type(x).__module__ == "numpy" and type(x).__name__ in (
        "float64", "float32", "int64", "int32", "bool_", "bool")


_INF = float("inf")


# --------------------------------------------------------------------------------------------- booleans
class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.e)

    def __and__(self, o):
        o = lift_bool(o)
        return NotImplemented if o is None else mkbool(b_and(self.e, o))

    __rand__ = __and__

    def __or__(self, o):
        o = lift_bool(o)
        return NotImplemented if o is None else mkbool(b_or(self.e, o))

    __ror__ = __or__

    def __xor__(self, o):
        o = lift_bool(o)
        return NotImplemented if o is None else mkbool(z3.Xor(self.e, o))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(b_not(self.e))

    def __eq__(self, o):
        if type(o) in (bool, SBool) or type(o).__name__ in ("bool_", "bool"):
            return mkbool(self.e == lift_bool(o))
        if is_num(o) or isinstance(o, (SReal, SInt)):
            return self._i() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if type(r) is bool else ~r

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def _i(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __repr__(self):
        return f"<SBool {self.e}>"

    def __format__(self, s):
        return "<sym>"

    def item(self):
        return self


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def lift_bool(o):
    if type(o) is SBool:
        return o.e
    if type(o) is bool or type(o).__name__ in ("bool_",):
        return TRUE if o else FALSE
    return None


def not_(x):
    if type(x) is SBool:
        return ~x
    return not x


# --------------------------------------------------------------------------------------------- integers
class SInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __repr__(self):
        return f"<SInt {self.e}>"

    def __format__(self, s):
        return "<sym>"

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def _bin(self, o, f, rev=False):
        if type(o) is SInt:
            oe = o.e
        elif type(o) is SBool:
            oe = o._i().e
        elif type(o) is bool or (isinstance(o, int) and not isinstance(o, Sym)) or type(o).__name__ in ("int64", "int32"):
            oe = z3.IntVal(int(o))
        else:
            return None
        return f(oe, self.e) if rev else f(self.e, oe)

    def _real(self):
        return SReal(z3.ToReal(self.e))

    def _arith(self, o, f, rf, rev=False):
        r = self._bin(o, f, rev)
        if r is not None:
            return mkint(r)
        return rf(self._real(), o)

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: b + a, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: b - a, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return self.__rmul__(o)
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from vc.seq import repeat_list

            return repeat_list(o, self)
        return self._arith(o, lambda a, b: a * b, lambda a, b: b * a, True)

    def __truediv__(self, o):
        return self._real() / o

    def __rtruediv__(self, o):
        return o / self._real()

    def __floordiv__(self, o):
        r = self._bin(o, lambda a, b: (a, b))
        if r is None:
            return NotImplemented
        a, b = r
        if mkbool(z3.simplify(b == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if not z3.is_int_value(z3.simplify(b)) or z3.simplify(b).as_long() < 0:
            raise Unsupported("floordiv by symbolic/negative")
        return mkint(a / b)

    def __mod__(self, o):
        r = self._bin(o, lambda a, b: (a, b))
        if r is None:
            return NotImplemented
        a, b = r
        if not z3.is_int_value(z3.simplify(b)) or z3.simplify(b).as_long() <= 0:
            raise Unsupported("mod by symbolic/negative")
        return mkint(a % b)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f, rf):
        r = self._bin(o, f)
        if r is not None:
            return mkbool(z3.simplify(r))
        if isinstance(o, SReal) or is_num(o) or isinstance(o, (SBool,)):
            return rf(self._real(), o)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if type(r) is bool else ~r

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        ex = cur()
        if ex.prove(z3.And(self.e >= 0, self.e <= 8), 1500)[0] == "proved":
            for i in range(9):  # exhaustive case split over a small range
                if ex.branch(self.e == i):
                    return i
        raise Unsupported("concretisation of a symbolic integer")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("float() of symbolic integer in native code")

    def __pow__(self, o):
        return self._real() ** o

    def item(self):
        return self


def mkint(e):
    return SInt(e)


def int_expr(x):
    if type(x) is SInt:
        return x.e
    if type(x) is SBool:
        return x._i().e
    if type(x) is bool or isinstance(x, int) or type(x).__name__ in ("int64", "int32"):
        return z3.IntVal(int(x))
    raise Unsupported(f"not an integer: {type(x)}")


# --------------------------------------------------------------------------------------------- reals
class SReal(Sym):
    """A float, read as a mathematical real; `nan` (None or a z3 Bool) says when it is NaN instead.
    `np64` marks values with numpy scalar semantics (division by zero does not raise)."""

    __slots__ = ("e", "nan", "np64")

    def __init__(self, e, nan=None, np64=False):
        self.e = e
        self.nan = nan
        self.np64 = np64

    @property
    def __class__(self):
        return float

    def __repr__(self):
        return f"<SReal {self.e}{'' if self.nan is None else ' nan:' + str(self.nan)}>"

    def __format__(self, s):
        return "<sym>"

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    @property
    def isnan(self):
        return FALSE if self.nan is None else self.nan

    def _ar(self, o, f, rev=False):
        a = o
        o = to_real(o)
        if o is None:
            if type(a).__name__ == "ndarray" and a.ndim == 1 and a.dtype.kind == "f":
                from vc.seq import SSeq

                return SSeq.conc([self._ar(float(x), f, rev) for x in a], "array")
            return NotImplemented
        if type(o) is float:  # +-inf
            return _inf_arith(self, o, f, rev)
        n = None
        if self.nan is not None or o.nan is not None:
            n = b_or(self.isnan, o.isnan)
        return SReal(f(o.e, self.e) if rev else f(self.e, o.e), n, self.np64 or o.np64)

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ar(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ar(o, _mul)

    def __rmul__(self, o):
        return self._ar(o, _mul, True)

    def __truediv__(self, o):
        o = to_real(o)
        if o is None:
            return NotImplemented
        return rdiv(self, o)

    def __rtruediv__(self, o):
        o = to_real(o)
        if o is None:
            return NotImplemented
        return rdiv(o, self)

    def __floordiv__(self, o):
        r = self / o
        return SReal(z3.ToReal(z3.ToInt(r.e)), r.nan, r.np64)

    def __neg__(self):
        return SReal(-self.e, self.nan, self.np64)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.e >= 0, self.e, -self.e), self.nan, self.np64)

    def __pow__(self, o):
        return rpow(self, o)

    def __rpow__(self, o):
        return rpow(to_real(o), self)

    def _cmp(self, o, f, op):
        r = to_real(o)
        if r is None:
            return NotImplemented
        if type(r) is float:  # +-inf on the right
            res = {"<": r > 0, "<=": r > 0, ">": r < 0, ">=": r < 0, "==": False}[op]
            return mkbool(b_and(TRUE if res else FALSE, b_not(self.isnan)))
        return mkbool(b_and(z3.simplify(f(self.e, r.e)), b_not(self.isnan), b_not(r.isnan)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "<")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, ">")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, ">=")

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, "==")
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not r if type(r) is bool else ~r

    def __bool__(self):
        return cur().branch(b_or(self.e != 0, self.isnan))

    def __float__(self):
        v = z3.simplify(self.e)
        if self.nan is None and z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        raise Unsupported("concretisation of a symbolic float in native code")

    def __int__(self):
        raise Unsupported("int() of symbolic float in native code")

    def __round__(self, nd=None):
        f = cur().ufun("round", z3.RealSort(), z3.IntSort(), z3.RealSort())
        return SReal(f(self.e, z3.IntVal(nd or 0)), self.nan)

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    # numpy scalar API
    def item(self):
        return SReal(self.e, self.nan)

    def tolist(self):
        return SReal(self.e, self.nan)

    def astype(self, *_a, **_k):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0


def _mul(a, b):
    return a * b


def _inf_arith(s, o, f, rev):
    raise Unsupported("arithmetic with infinity")


def to_real(o):
    if type(o) is SReal:
        return o
    if type(o) is SInt:
        return SReal(z3.ToReal(o.e))
    if type(o) is SBool:
        return SReal(z3.If(o.e, z3.RealVal(1), z3.RealVal(0)))
    if is_num(o):
        fo = float(o) if not isinstance(o, Fraction) else o
        np64 = type(o).__module__ == "numpy"
        if type(fo) is float and math.isnan(fo):
            return SReal(z3.RealVal(0), TRUE, np64)
        if type(fo) is float and math.isinf(fo):
            return fo
        return SReal(const_real(o), None, np64)
    if type(o).__name__ == "ndarray" and getattr(o, "ndim", 1) == 0:
        return to_real(o.item())
    return None


def rdiv(a, b, np_semantics=None):
    if type(b) is float:
        raise Unsupported("division by infinity")
    if type(a) is float:
        raise Unsupported("division of infinity")
    npsem = (a.np64 or b.np64) if np_semantics is None else np_semantics
    n = None
    if a.nan is not None or b.nan is not None:
        n = b_or(a.isnan, b.isnan)
    zero = z3.simplify(b.e == 0)
    if not z3.is_false(zero):
        cond = b_and(zero, b_not(b_or(a.isnan, b.isnan))) if n is not None else zero
        if cur().branch(cond):
            if npsem:
                if cur().branch(a.e == 0):
                    return SReal(z3.RealVal(0), TRUE, True)
                raise Unsupported("numpy division of a non-zero value by zero (infinite result)")
            raise ZeroDivisionError("float division by zero")
    if z3.is_rational_value(z3.simplify(b.e)):
        return SReal(a.e / b.e, n, npsem)
    # polynomial encoding: q is the unique real with q * b == a
    q = cur().quotient(a.e, b.e)
    return SReal(q, n, npsem)


def rpow(a, o):
    if is_num(o) and float(o) == int(o) and 0 <= int(o) <= 4 and not isinstance(o, Sym):
        r = SReal(z3.RealVal(1), a.nan, a.np64)
        for _ in range(int(o)):
            r = r * a
        return r
    b = to_real(o)
    if b is None or type(b) is float:
        return NotImplemented
    f = cur().ufun("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    e = f(a.e, b.e)
    cur().fact(z3.Implies(a.e > 0, e > 0))
    cur().fact(z3.Implies(b.e == 0, e == 1))
    cur().fact(z3.Implies(b.e == 1, e == a.e))
    n = None
    if a.nan is not None or b.nan is not None:
        n = b_or(a.isnan, b.isnan)
    return SReal(e, n, a.np64 or b.np64)


# --------------------------------------------------------------------------------------------- dates
class STimedelta(Sym):
    __slots__ = ("e",)  # seconds, Int

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return _dt.timedelta

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def total_seconds(self):
        return SReal(z3.ToReal(self.e))

    @property
    def days(self):
        return SInt(self.e / 86400)

    @property
    def seconds(self):
        return SInt(self.e % 86400)

    def _o(self, o):
        if type(o) is STimedelta:
            return o.e
        if isinstance(o, _dt.timedelta):
            return z3.IntVal(int(o.total_seconds()))
        return None

    def __truediv__(self, o):
        oe = self._o(o)
        if oe is not None:
            return SReal(z3.ToReal(self.e)) / SReal(z3.ToReal(oe))
        return NotImplemented

    def __rtruediv__(self, o):
        oe = self._o(o)
        return SReal(z3.ToReal(oe)) / SReal(z3.ToReal(self.e))

    def __add__(self, o):
        if type(o) is SDate or isinstance(o, _dt.datetime):
            return lift_date(o) + self
        return STimedelta(self.e + self._o(o))

    __radd__ = __add__

    def __sub__(self, o):
        return STimedelta(self.e - self._o(o))

    def __neg__(self):
        return STimedelta(-self.e)

    def _c(self, o, f):
        oe = self._o(o)
        return NotImplemented if oe is None else mkbool(z3.simplify(f(self.e, oe)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        oe = self._o(o)
        return False if oe is None else mkbool(z3.simplify(self.e == oe))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __repr__(self):
        return f"<STimedelta {self.e}>"


EPOCH = _dt.datetime(1, 1, 1)


def date_const(d):
    td = d - EPOCH
    return td.days * 86400 + td.seconds


class Opaque:
    """a value the code only prints"""

    def __init__(self, what):
        self.__what = what

    def __getattr__(self, name):
        raise Unsupported(f"{self.__what}: .{name}")

    def __str__(self):
        return self.__what

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def _no(self, *a):
        raise Unsupported(f"operation on {self.__what}")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __bool__ = __sub__ = __add__ = __len__ = __iter__ = _no


class SDate(Sym):
    """A datetime with whole-second resolution: seconds since 0001-01-01."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return _dt.datetime

    def date(self):
        return Opaque("a day")

    def __hash__(self):
        # constant: dictionary lookups among symbolic dates fall back to ==
        return 20071

    def _c(self, o, f):
        if type(o) is SDate:
            oe = o.e
        elif isinstance(o, _dt.datetime):
            oe = z3.IntVal(date_const(o))
        else:
            return NotImplemented
        return mkbool(z3.simplify(f(self.e, oe)))

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __sub__(self, o):
        if type(o) is SDate:
            return STimedelta(self.e - o.e)
        if type(o) is STimedelta:
            return SDate(self.e - o.e)
        if isinstance(o, _dt.datetime):
            return STimedelta(self.e - date_const(o))
        if isinstance(o, _dt.timedelta):
            return SDate(self.e - int(o.total_seconds()))
        return NotImplemented

    def __rsub__(self, o):
        return STimedelta(date_const(o) - self.e)

    def __add__(self, o):
        if type(o) is STimedelta:
            return SDate(self.e + o.e)
        if isinstance(o, _dt.timedelta):
            return SDate(self.e + int(o.total_seconds()))
        return NotImplemented

    __radd__ = __add__

    def __repr__(self):
        return f"<SDate {self.e}>"

    def __format__(self, s):
        return "<sym date>"

    def __str__(self):
        return "<sym date>"

    def strftime(self, *_a):
        return "<sym date>"

    def isoformat(self, *_a):
        return "<sym date>"


def lift_date(d):
    return d if type(d) is SDate else SDate(z3.IntVal(date_const(d)))


# --------------------------------------------------------------------------------------------- exploration
class Obligation:
    __slots__ = ("name", "status", "model", "time", "backend", "where")

    def __init__(self, name, status, model=None, t=0.0, backend="z3"):
        self.name = name
        self.status = status
        self.model = model
        self.time = t
        self.backend = backend


class Explorer:
    def __init__(self, max_paths=4000, deadline_s=120.0, branch_timeout_ms=3000, obl_timeout_ms=15000):
        self.max_paths = max_paths
        self.deadline = time.monotonic() + deadline_s
        self.branch_timeout = branch_timeout_ms
        self.obl_timeout = obl_timeout_ms
        self.obligations: list[Obligation] = []
        self.undecided: list[str] = []
        self.paths = 0
        self.completed_paths = 0
        self.covers: dict[str, int] = {}
        self.solver_time = 0.0
        self.queries = 0
        self.houdini: dict = {}
        self.notes: set[str] = set()
        self.failed_names: set[str] = set()
        self.stop_on_fail = False
        self.model_builder = None

    # ---- driver
    def explore(self, harness):
        global CUR
        prev = CUR
        CUR = self
        try:
            restarts = 0
            while True:
                try:
                    self._explore_once(harness)
                    return
                except Restart:
                    restarts += 1
                    if restarts > 400:
                        self.undecided.append("too many invariant restarts")
                        return
                    self.obligations.clear()
                    self.undecided.clear()
                    self.covers.clear()
                    self.failed_names.clear()
                    self.paths = 0
                    self.completed_paths = 0
                    self.refutations = 0
        finally:
            CUR = prev

    def _explore_once(self, harness):
        stack = [[]]
        while stack:
            if self.paths >= self.max_paths:
                self.undecided.append(f"path budget {self.max_paths} exhausted")
                return
            if time.monotonic() > self.deadline:
                self.undecided.append("time budget exhausted")
                return
            if getattr(self, "refutations", 0) >= 8:
                self.undecided.append("stopped after 8 refuted obligations")
                return
            self.prefix = stack.pop()
            self.trace = []
            self.pushed = []
            self.counter = {}
            self.ufuns = {}
            self.quots = {}
            self.index_terms = []
            self.universals = []
            self.state = {}
            self.pc = []
            self.facts_log = []
            self.cond_log = []
            self.known = {}
            self.solver = z3.Solver()
            self.solver.set("timeout", self.branch_timeout)
            self.nested = None
            self.merge_depth = 0
            self.branch_id = 0
            self.branch_next = 0
            self.asof = None
            self.writes = None
            self.watch = None
            self.outer_mark = 0
            self.decisions = 0
            self.inst_depth = 0
            self.paths += 1
            try:
                harness()
                self.completed_paths += 1
            except PathEnd:
                self.completed_paths += 1
            except Infeasible:
                pass
            except Unsupported as e:
                if self.feasible() is not False:
                    self.undecided.append(f"unsupported: {e}")
                    if os.environ.get("VC_TRACE") and str(e) not in self.undecided[:-1] and f"unsupported: {e}" not in self.undecided[:-1]:
                        import traceback

                        traceback.print_exc(limit=-12)
            except Budget as e:
                self.undecided.append(f"budget: {e}")
                return
            except RecursionError as e:
                self.undecided.append("recursion limit")
            stack.extend(self.pushed)

    # ---- names
    def fresh(self, base):
        i = self.counter.get(base, 0)
        self.counter[base] = i + 1
        return f"{base}!{i}" if i else base

    def ufun(self, name, *sorts):
        key = (name, tuple(s.name() if hasattr(s, "name") else str(s) for s in sorts))
        if key not in self.ufuns:
            self.ufuns[key] = z3.Function(name, *sorts)
        return self.ufuns[key]

    def quotient(self, a, b):
        key = (z3.simplify(a).get_id(), z3.simplify(b).get_id())
        key = (z3.simplify(a).sexpr(), z3.simplify(b).sexpr())
        if key in self.quots:
            return self.quots[key]
        q = z3.Real(self.fresh("quot"))
        self.quots[key] = q
        self.fact(z3.Implies(b != 0, q * b == a))
        return q

    # ---- path condition
    def fact(self, e):
        """A truth that holds on every path (definition of a fresh symbol, type fact of an input, axiom of an
        assumed library contract): survives the end of a nested exploration."""
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.facts_log.append(e)
        self.solver.add(e)

    def guard(self):
        """what has been assumed since the outermost merge began (TRUE outside merges)"""
        return b_and(*self.cond_log[self.outer_mark:]) if self.merge_depth else TRUE

    def fact_local(self, e):
        """A truth that holds on the current path (outlives an enclosing merge only under its conditions)."""
        g = self.guard()
        self.fact(e if z3.is_true(g) else z3.Implies(g, e))

    def cond(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.cond_log.append(e)
        self.solver.add(e)

    def _check(self, *extra):
        t = time.monotonic()
        if t > self.deadline:
            raise Budget("time budget exhausted")
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.monotonic() - t
        return r

    def feasible(self):
        r = self._check()
        return None if r == z3.unknown else r == z3.sat

    def assume(self, c):
        if type(c) is SBool:
            self.cond(c.e)
            if self._check() == z3.unsat:
                raise Infeasible()
        elif not c:
            raise Infeasible()

    def assume_fast(self, c):
        if type(c) is SBool:
            self.cond(c.e)
        elif not c:
            raise Infeasible()

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.decisions += 1
        key = e.get_id()
        if key in self.known and self.known[key][0].eq(e):
            return self.known[key][1]
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.cond(e if d else z3.Not(e))
            self.known[key] = (e, d)
            return d
        rt = self._check(e)
        rf = self._check(z3.Not(e)) if rt != z3.unsat else z3.sat
        if rt == z3.unsat:
            if rf == z3.unsat:
                raise Infeasible()
            d = False
        elif rf == z3.unsat:
            d = True
        else:
            d = True
            self.pushed.append(self.trace + [False])
        self.trace.append(d)
        self.cond(e if d else z3.Not(e))
        self.known[key] = (e, d)
        return d

    def choose(self, n, label="choice"):
        if self.merge_depth:
            raise Unsupported(f"nondeterministic choice ({label}) inside a merged evaluation")
        self.decisions += 1
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                self.pushed.append(self.trace + [alt])
        self.trace.append(d)
        return d

    # ---- obligations
    def cover(self, name):
        if self.feasible() is not False:
            self.covers[name] = self.covers.get(name, 0) + 1
        else:
            raise Infeasible()

    def prove(self, e, timeout=None):
        """-> ('proved'|'refuted'|'unknown', model)"""
        if z3.is_true(e):
            return "proved", None
        neg = b_not(e)
        t = time.monotonic()
        if t > self.deadline + 5:
            raise Budget("time budget exhausted")
        self.queries += 1
        self.solver.set("timeout", timeout or self.obl_timeout)
        r = self.solver.check(neg)
        self.solver.set("timeout", self.branch_timeout)
        m = None
        if r == z3.sat:
            m = self.solver.model()
        elif r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", timeout or self.obl_timeout)
            s.add(*self.pc)
            s.add(neg)
            r = s.check()
            if r == z3.sat:
                m = s.model()
        self.solver_time += time.monotonic() - t
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "refuted", m
        return "unknown", None

    def ensure(self, name, c, info=None):
        t = time.monotonic()
        if type(c) is SBool:
            e = c.e
        elif type(c) is bool or type(c).__name__ == "bool_":
            e = TRUE if c else FALSE
        else:
            raise Unsupported(f"obligation {name}: not a truth value: {type(c)}")
        if z3.is_false(e):
            # the path itself must be feasible
            r, m = self.prove(FALSE)
        else:
            r, m = self.prove(e)
        dt = time.monotonic() - t
        if r == "proved":
            self.obligations.append(Obligation(name, "proved", None, dt))
        elif r == "refuted":
            m = self.smaller_model(e) or m
            mv = self.model_builder(m) if self.model_builder else None
            self.refutations = getattr(self, "refutations", 0) + 1
            self.obligations.append(Obligation(name, "refuted", mv, dt))
            self.failed_names.add(name)
            raise PathEnd()
        else:
            self.obligations.append(Obligation(name, "unknown", None, dt))
            self.undecided.append(f"solver unknown on {name}")

    def smaller_model(self, e):
        """prefer a counterexample with short sequences and moderate numbers"""
        small = list(getattr(self, "small", []))
        for hints in (small, [h for h in small if z3.is_le(h)]):
            if not hints:
                continue
            self.solver.set("timeout", 2000)
            try:
                if self.solver.check(b_not(e), *hints) == z3.sat:
                    return self.solver.model()
            finally:
                self.solver.set("timeout", self.branch_timeout)
        return None

    # ---- merging nested exploration (side-effect free functions only)
    def merge(self, fn, limit=200):
        """Explore fn() on all its branches under the current path condition; return [(cond, value)].
        Exceptions raised by fn are returned as (cond, exc) with type RaisedCase."""
        outer = (self.prefix, self.trace, self.pushed, self.known)
        outer_id = self.branch_id
        if self.merge_depth == 0:
            self.outer_mark = len(self.cond_log)
        self.merge_depth += 1
        results = []
        stack = [[]]
        n = 0
        try:
            while stack:
                n += 1
                if n > limit:
                    raise Unsupported("merge limit")
                self.prefix = stack.pop()
                self.trace = []
                self.pushed = []
                self.known = dict(outer[3])
                mark, fmark, cmark = len(self.pc), len(self.facts_log), len(self.cond_log)
                self.solver.push()
                keep = True
                self.branch_next += 1
                self.branch_id = self.branch_next
                try:
                    try:
                        v = fn()
                    except Infeasible:
                        keep = False
                    except (PathEnd, Unsupported, Restart, Budget):
                        raise
                    except Exception as ex:
                        v = RaisedCase(ex)
                    if keep:
                        results.append((b_and(*self.cond_log[cmark:]), v))
                finally:
                    del self.pc[mark:]
                    del self.cond_log[cmark:]
                    self.solver.pop()
                    new_facts = self.facts_log[fmark:]
                    del self.facts_log[fmark:]
                    for f in new_facts:
                        self.fact(f)
                stack.extend(self.pushed)
        finally:
            self.prefix, self.trace, self.pushed, self.known = outer
            self.branch_id = outer_id
            self.merge_depth -= 1
            self.decisions += 1
        return results


SKIP_TYPES = (PathEnd, Infeasible, Unsupported, Restart, Budget)


class RaisedCase:
    def __init__(self, exc):
        self.exc = exc
