"""Symbolic execution core: path exploration by re-execution, z3-backed values.

The real Python code is executed by CPython on proxy values.  Every branch on a
symbolic condition asks the solver which sides are feasible and the explorer
re-executes the harness once per feasible path, so that the set of explored
paths covers *every* value of the symbolic inputs within the harness's bounds.
Integers are unbounded mathematical integers and floats exact reals (stated in
the evidence); transcendental functions are fresh variables constrained by
axioms that hold for the true functions, so an `unsat` verdict is sound and a
`sat` one is replayed on the real code before it is believed.
"""
from __future__ import annotations

import builtins
import math
import time
from fractions import Fraction

from .z3load import z3

# ---------------------------------------------------------------- signals


class PathEnd(BaseException):
    """Path infeasible or intentionally cut (never seen by `except Exception`)."""


class Unsupported(BaseException):
    """The engine cannot model an operation the code performed."""


class BudgetExceeded(BaseException):
    pass


ENGINE: "Engine | None" = None


def engine() -> "Engine":
    if ENGINE is None:
        raise RuntimeError("no active symbolic engine")
    return ENGINE


# ---------------------------------------------------------------- helpers

_rat_cache: dict = {}


def rat(x):
    """Exact z3 real value of a Python number."""
    key = (type(x), x)
    r = _rat_cache.get(key)
    if r is None:
        if isinstance(x, (bool, int)):
            r = z3.RealVal(int(x))
        else:
            f = Fraction(x)
            r = z3.RealVal(f"{f.numerator}/{f.denominator}")
        _rat_cache[key] = r
    return r


def _is_np_scalar(x):
    t = type(x)
    return t.__module__ == "numpy" and hasattr(x, "item") and not hasattr(x, "__len__")


def unnp(x):
    """numpy scalar -> python scalar."""
    if isinstance(x, (bool, int, float, SymNum, SymBool)):
        if type(x) in (bool, int, float) or isinstance(x, (SymNum, SymBool)):
            return x
    if _is_np_scalar(x):
        return x.item()
    return x


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


# ---------------------------------------------------------------- booleans


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return engine().branch(self.e)

    def __and__(self, o):
        o = unnp(o)
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.e, o.e))
        if isinstance(o, (SymNum, int)):
            return SymNum.of(self) & o
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        o = unnp(o)
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.e, o.e))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        o = unnp(o)
        if isinstance(o, bool):
            return ~self if o else self
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.e, o.e))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        # logical not (numpy bool semantics)
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        o = unnp(o)
        if isinstance(o, bool):
            return self if o else ~self
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, (int, float, SymNum)):
            return SymNum.of(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return lnot(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    # arithmetic: promote to int
    def _n(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), True)

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._n() / o

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __neg__(self):
        return -self._n()

    def item(self):
        return self

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kwargs)

    def any(self):
        return self

    def all(self):
        return self


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def lnot(b):
    if isinstance(b, SymBool):
        return ~b
    return not b


def land(*bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif isinstance(b, SymNum):
            es.append((b != 0).e if is_sym(b != 0) else z3.BoolVal(bool(b != 0)))
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es)) if len(es) > 1 else mkbool(es[0])


def lor(*bs):
    es = []
    for b in bs:
        if isinstance(b, SymBool):
            es.append(b.e)
        elif isinstance(b, SymNum):
            c = b != 0
            if is_sym(c):
                es.append(c.e)
            elif c:
                return True
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es)) if len(es) > 1 else mkbool(es[0])


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    """Symbolic if-then-else on numbers / booleans."""
    if not isinstance(c, SymBool):
        return a if c else b
    a_, b_ = unnp(a), unnp(b)
    if isinstance(a_, (bool, SymBool)) and isinstance(b_, (bool, SymBool)):
        ea = a_.e if isinstance(a_, SymBool) else z3.BoolVal(a_)
        eb = b_.e if isinstance(b_, SymBool) else z3.BoolVal(b_)
        return mkbool(z3.If(c.e, ea, eb))
    if not isinstance(a_, (bool, int, float, SymNum, SymBool)) or not isinstance(
        b_, (bool, int, float, SymNum, SymBool)
    ):
        return a if bool(c) else b
    for v in (a_, b_):
        if isinstance(v, float) and not math.isfinite(v):
            return a if bool(c) else b
    sa, sb = SymNum.of(a_), SymNum.of(b_)
    if sa.isint and sb.isint:
        return mknum(z3.If(c.e, sa.e, sb.e), True)
    return mknum(z3.If(c.e, sa.r(), sb.r()), False)


# ---------------------------------------------------------------- numbers


def mknum(e, isint, np_=False):
    e = z3.simplify(e)
    if isint:
        if z3.is_int_value(e):
            return e.as_long()
    elif z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        v = float_of_fraction(f)
        if v is not None:
            return v
    s = SymNum(e, isint)
    s.npf = np_
    return s


def float_of_fraction(f):
    """Python float equal to f exactly, else None (keep it symbolic/exact)."""
    try:
        v = f.numerator / f.denominator
    except OverflowError:
        return None
    if math.isfinite(v) and Fraction(v) == f:
        return v
    return None


def _square_of(e, depth=6):
    """The square of a term known to be a non-negative root, numeral or choice of these."""
    hit = ENGINE.sqrts.get(e.get_id())
    if hit is not None:
        return hit[1]
    if z3.is_rational_value(e):
        return None if e.numerator_as_long() < 0 else z3.simplify(e * e)
    if depth and z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        qa = _square_of(a, depth - 1)
        qb = _square_of(b, depth - 1) if qa is not None else None
        return None if qb is None else z3.If(c, qa, qb)
    return None


class SymNum:
    """Symbolic int (isint) or exact real standing for a float."""

    __slots__ = ("e", "isint", "npf")
    __array_priority__ = 1000

    def __init__(self, e, isint):
        self.e = e
        self.isint = isint
        self.npf = False

    # ---- construction
    @staticmethod
    def of(x):
        x = unnp(x)
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            return x._n()
        if isinstance(x, (bool, int)):
            return SymNum(z3.IntVal(int(x)), True)
        if isinstance(x, float):
            return SymNum(rat(x), False)
        if isinstance(x, Fraction):
            return SymNum(rat(x), False)
        raise Unsupported(f"number from {type(x)}")

    def r(self):
        return z3.ToReal(self.e) if self.isint else self.e

    @staticmethod
    def _coerce(o):
        if isinstance(o, (SymNum, SymBool)):
            return SymNum.of(o)
        o = unnp(o)
        if isinstance(o, (bool, int, float, Fraction)):
            return o
        return None

    def _special(self, o):
        return isinstance(o, float) and not math.isfinite(o)

    def _bin(self, o, fn, rev=False):
        import numpy as _np

        if isinstance(o, _np.ndarray):
            return NotImplemented
        npf = self.npf or _is_np_scalar(o)
        o = self._coerce(o)
        if o is None:
            return NotImplemented
        if self._special(o):
            return fn(None, o, rev, npf)
        b = SymNum.of(o)
        npf = npf or b.npf
        return fn(b, None, rev, npf)

    # ---- arithmetic
    def __add__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                return sp
            if self.isint and b.isint:
                return mknum(self.e + b.e, True, npf)
            return mknum(self.r() + b.r(), False, npf)

        return self._bin(o, f)

    __radd__ = __add__

    def __sub__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                return -sp
            if self.isint and b.isint:
                return mknum(self.e - b.e, True, npf)
            return mknum(self.r() - b.r(), False, npf)

        return self._bin(o, f)

    def __rsub__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                return sp
            if self.isint and b.isint:
                return mknum(b.e - self.e, True, npf)
            return mknum(b.r() - self.r(), False, npf)

        return self._bin(o, f)

    def __mul__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                if math.isnan(sp):
                    return sp
                if bool(self == 0):
                    return math.nan
                return sp if bool(self > 0) else -sp
            if self.isint and b.isint:
                return mknum(self.e * b.e, True, npf)
            if not self.isint and self.e.eq(b.e) and ENGINE is not None:
                sq = ENGINE.sqrts.get(self.e.get_id())
                if sq is not None:  # sqrt(a)*sqrt(a) = a
                    return mknum(sq[1], False, npf)
            return mknum(self.r() * b.r(), False, npf)

        return self._bin(o, f)

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b, npf):
        """a / b with Python/numpy zero semantics."""
        zero = mkbool(b.r() == 0)
        if zero is True or (isinstance(zero, SymBool) and bool(zero)):
            if not npf:
                raise ZeroDivisionError("division by zero")
            if bool(mkbool(a.r() == 0)):
                return math.nan
            # sign of zero not modelled: numpy +0.0
            return math.inf if bool(mkbool(a.r() > 0)) else -math.inf
        return mknum(a.r() / b.r(), False, npf)

    def __truediv__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                return math.nan if math.isnan(sp) else 0.0
            return SymNum._div(self, b, npf)

        return self._bin(o, f)

    def __rtruediv__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                if math.isnan(sp):
                    return sp
                if bool(self == 0):
                    if npf:
                        return sp
                    raise ZeroDivisionError("division by zero")
                return sp if bool(self > 0) else -sp
            return SymNum._div(b, self, npf)

        return self._bin(o, f)

    @staticmethod
    def _floordiv(a, b, npf):
        z = mkbool(b.r() == 0)
        if z is True or (isinstance(z, SymBool) and bool(z)):
            if npf:
                return 0 if (a.isint and b.isint) else math.nan
            raise ZeroDivisionError("integer division or modulo by zero")
        if a.isint and b.isint:
            # python floor division from z3's Euclidean division
            q = z3.If(b.e > 0, a.e / b.e, -(a.e / (-b.e)))
            # for b<0: floor(a/b) = floor((-a)/(-b))
            q = z3.If(b.e > 0, a.e / b.e, (-a.e) / (-b.e))
            return mknum(q, True, npf)
        return mknum(z3.ToReal(z3.ToInt(a.r() / b.r())), False, npf)

    def __floordiv__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                raise Unsupported("// by non-finite")
            return SymNum._floordiv(self, b, npf)

        return self._bin(o, f)

    def __rfloordiv__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                raise Unsupported("non-finite //")
            return SymNum._floordiv(b, self, npf)

        return self._bin(o, f)

    @staticmethod
    def _mod(a, b, npf):
        q = SymNum._floordiv(a, b, npf)
        if isinstance(q, float) and math.isnan(q):
            return q
        return a - b * q

    def __mod__(self, o):
        def f(b, sp, rev, npf):
            if sp is not None:
                raise Unsupported("% by non-finite")
            return SymNum._mod(self, b, npf)

        return self._bin(o, f)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented

        def f(b, sp, rev, npf):
            if sp is not None:
                return math.nan
            return SymNum._mod(b, self, npf)

        return self._bin(o, f)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None):
        o = unnp(o)
        if isinstance(o, float) and o.is_integer() and abs(o) <= 8:
            r = self ** int(o)
            if isinstance(r, SymNum) and r.isint:
                return mknum(r.r(), False, r.npf)
            return r
        if isinstance(o, int) and not isinstance(o, bool) and abs(o) <= 8:
            if o == 0:
                return 1 if self.isint else 1.0
            base = self if o > 0 else SymNum.of(1.0) / self
            res = base
            for _ in range(abs(o) - 1):
                res = res * base
            return res
        if isinstance(o, float) and o == 0.5:
            return self.sqrt()
        if isinstance(o, float) and o == -0.5:
            return 1.0 / self.sqrt()
        if isinstance(o, float) and o == 1.5:
            return self * self.sqrt()
        raise Unsupported(f"pow {o!r}")

    def __rpow__(self, o):
        o = unnp(o)
        if isinstance(o, float) and abs(o - math.e) < 1e-15:
            return self.exp()
        if self.isint:
            return o ** self.__index__()
        raise Unsupported("pow with symbolic exponent")

    def __neg__(self):
        return mknum(-self.e, self.isint, self.npf)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e >= 0, self.e, -self.e), self.isint, self.npf)

    def __and__(self, o):
        raise Unsupported("bitwise and")

    # ---- comparisons
    def _cmp(self, o, op, special):
        import numpy as _np

        if isinstance(o, _np.ndarray):
            return NotImplemented
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        if self._special(c):
            return special(c)
        b = SymNum.of(c)
        if self.isint and b.isint:
            return mkbool(op(self.e, b.e))
        ra, rb = self.r(), b.r()
        if ENGINE is not None and ENGINE.sqrts:
            # square roots are compared through their (non-negative) squares
            qa, qb = _square_of(ra), _square_of(rb)
            if qa is not None and qb is not None and (qa is not ra or qb is not rb):
                return mkbool(op(qa, qb))
        return mkbool(op(ra, rb))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda s: False)
        return False if r is NotImplemented and not hasattr(o, "__array__") else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, lambda s: True)
        return True if r is NotImplemented and not hasattr(o, "__array__") else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda s: s == math.inf)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda s: s == math.inf)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda s: s == -math.inf)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda s: s == -math.inf)

    def __bool__(self):
        return engine().branch(z3.simplify(self.e != 0))

    # ---- conversions
    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return engine().concretize_int(self.e)

    def __int__(self):
        return engine().concretize_int(trunc(self).e if is_sym(trunc(self)) else z3.IntVal(trunc(self)))

    def __hash__(self):
        if self.isint:
            return hash(engine().concretize_int(self.e))
        return hash(engine().pin(self.e))

    def __float__(self):
        # a C-level consumer demands a concrete double: under-approximate, flagged
        if self.isint:
            return float(engine().concretize_int(self.e))
        return float(engine().pin(self.e))

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if n is None:
            return rint_int(self)
        if n == 0:
            return self.rint()
        return self.round(n)

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return -floor_int(-self) if is_sym(-self) else math.ceil(float(self))

    def __trunc__(self):
        return trunc(self)

    def is_integer(self):
        if self.isint:
            return True
        return mkbool(z3.IsInt(self.e))

    def item(self):
        return self

    def tolist(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy as _np

        return _np.dtype(_np.int64 if self.isint else _np.float64)

    def astype(self, dt, **kw):
        from . import arr

        return arr.cast_scalar(self, arr.kind_of(dt))

    # ---- elementary functions
    def exp(self):
        return engine().fn_exp(self)

    def log(self):
        return engine().fn_log(self)

    def sqrt(self):
        return engine().fn_sqrt(self)

    def rint(self):
        r = rint_int(self)
        return SymNum.of(r).tofloat() if is_sym(r) else float(r)

    def floor(self):
        r = floor_int(self)
        return SymNum.of(r).tofloat() if is_sym(r) else float(r)

    def ceil(self):
        r = floor_int(-self)
        r = -r
        return SymNum.of(r).tofloat() if is_sym(r) else float(r)

    def round(self, decimals=0, out=None):
        if decimals == 0:
            return self.rint() if not self.isint else self
        if self.isint and decimals > 0:
            return self
        f = 10 ** int(decimals) if decimals > 0 else 1 / 10 ** int(-decimals)
        return (self * f).rint() / f

    def tofloat(self):
        if self.isint:
            return mknum(z3.ToReal(self.e), False, self.npf)
        return self

    def __repr__(self):
        return "<sym>"

    def __str__(self):
        """str(x) of an integer is used as a key: fork over its values (f-strings and logs do not)."""
        return str(self.__index__()) if getattr(self, "isint", False) else "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kwargs)


def floor_int(x):
    x = unnp(x)
    if not is_sym(x):
        return math.floor(x)
    if x.isint:
        return x
    return mknum(z3.ToInt(x.e), True, x.npf)


def trunc(x):
    x = unnp(x)
    if not is_sym(x):
        return int(x)
    if isinstance(x, SymBool):
        return x._n()
    if x.isint:
        return x
    return mknum(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)), True, x.npf)


def rint_int(x):
    """round half to even."""
    x = unnp(x)
    if not is_sym(x):
        return round(x)
    if x.isint:
        return x
    k = z3.ToInt(x.e + z3.RealVal("1/2"))
    tie = z3.ToReal(k) == x.e + z3.RealVal("1/2")
    odd = k % 2 == 1
    return mknum(z3.If(z3.And(tie, odd), k - 1, k), True, x.npf)


# ---------------------------------------------------------------- engine


class Decision:
    __slots__ = ("kind", "value", "expr_id")

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.queries = 0
        self.q_sat = 0
        self.q_unsat = 0
        self.q_unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.undecided = 0
        self.pins = 0
        self.unsupported = 0
        self.errors = 0
        self.notes = {}

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def merge(self, o):
        for k, v in o.__dict__.items():
            if k == "notes":
                for a, b in v.items():
                    self.notes[a] = self.notes.get(a, 0) + b
            else:
                setattr(self, k, getattr(self, k) + v)


class Engine:
    def __init__(self, query_timeout_ms=20000, max_values=64):
        self.query_timeout_ms = query_timeout_ms
        self.max_values = max_values
        self.stats = Stats()
        self.deadline = None
        self.reset([])

    # ---- per-path state
    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []  # alternative prefixes discovered on this run
        self.solver = z3.Solver()
        self.solver.set("timeout", self.query_timeout_ms)
        self.constraints = []
        self.inputs = {}  # name -> (kind, z3 var, meta)
        self.fresh = 0
        self.exps = []  # (arg z3 real, var)
        self.logs = []
        self.sqrts = {}
        self.defs_cache = {}
        self.names = {}

    def add(self, e):
        self.solver.add(e)
        self.constraints.append(e)

    # ---- solving
    stop_at = None

    def out_of_time(self):
        now = time.time()
        return (self.deadline is not None and now > self.deadline) or (self.stop_at is not None and now > self.stop_at.value)

    def check(self, *extra, timeout=None):
        """z3 verdict for path constraints + extra: 'sat'/'unsat'/'unknown'."""
        if self.out_of_time():
            raise BudgetExceeded()
        t0 = time.time()
        s = self.solver
        if timeout:
            s.set("timeout", timeout)
        s.push()
        for x in extra:
            s.add(x)
        r = s.check()
        self._model = s.model() if r == z3.sat else None
        s.pop()
        if timeout:
            s.set("timeout", self.query_timeout_ms)
        if r == z3.unknown:
            # second opinion: one-shot solver (fresh strategies, incl. nlsat)
            s2 = z3.Solver()
            s2.set("timeout", timeout or self.query_timeout_ms)
            s2.add(*self.constraints)
            s2.add(*extra)
            r = s2.check()
            self._model = s2.model() if r == z3.sat else None
            if r == z3.unknown:
                try:
                    t = z3.Then("simplify", "purify-arith", "propagate-values",
                                "solve-eqs", "qfnra-nlsat").solver()
                    t.set("timeout", timeout or self.query_timeout_ms)
                    t.add(*self.constraints)
                    t.add(*extra)
                    r = t.check()
                    self._model = t.model() if r == z3.sat else None
                except z3.Z3Exception:
                    r = z3.unknown
        dt = time.time() - t0
        st = self.stats
        st.queries += 1
        st.solver_s += dt
        if r == z3.sat:
            st.q_sat += 1
            return "sat"
        if r == z3.unsat:
            st.q_unsat += 1
            return "unsat"
        st.q_unknown += 1
        return "unknown"

    def model(self):
        return self._model

    # ---- branching
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(cond if d.value else z3.Not(cond))
            return d.value
        self.stats.branches += 1
        t = self.check(cond)
        if t == "unsat":
            # implied false: record so that replays stay aligned
            self.trace.append(Decision("b", False))
            self.add(z3.Not(cond))
            return False
        f = self.check(z3.Not(cond))
        if f == "unsat":
            self.trace.append(Decision("b", True))
            self.add(cond)
            return True
        self.pending.append(self.trace + [Decision("b", False)])
        self.trace.append(Decision("b", True))
        self.add(cond)
        return True

    def concretize_int(self, e):
        """Fork over every feasible value of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            n += 1
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                v = d.value[0]
                self.trace.append(d)
                if d.value[1]:
                    self.add(e == v)
                    return v
                self.add(e != v)
                continue
            r = self.check()
            if r == "unsat":
                raise PathEnd()
            if r == "unknown" or self._model is None:
                raise Unsupported("cannot enumerate an integer term")
            v = self._model.eval(e, model_completion=True).as_long()
            if n > self.max_values:
                self.stats.note("integer term with more than max_values values cut")
                self.stats.pins += 1
                self.add(e == v)
                return v
            other = self.check(e != v)
            if other != "unsat":
                self.pending.append(self.trace + [Decision("v", (v, False))])
            self.trace.append(Decision("v", (v, True)))
            self.add(e == v)
            return v

    def pin(self, e):
        """Under-approximate a real term by one model value (flagged)."""
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            v = d.value
        else:
            r = self.check()
            if r != "sat":
                raise PathEnd()
            v = val_to_fraction(self._model.eval(e, model_completion=True))
            v = Fraction(float(v))
            if self.check(e == rat(v)) != "sat":
                raise Unsupported("cannot pin a real term to a float")
            # is this the only possible value?
            if self.check(e != rat(v)) != "unsat":
                self.stats.pins += 1
                self.stats.note("real term pinned to one value for a C-level consumer")
            self.trace.append(Decision("p", v))
        self.add(e == rat(v))
        return v

    def assume(self, c):
        if isinstance(c, SymBool):
            self.add(c.e)
            # feasibility is checked lazily by the next branch; check now so
            # that infeasible paths do not run concrete code
            if self.check() == "unsat":
                raise PathEnd()
        elif not c:
            raise PathEnd()

    # ---- elementary functions
    def newreal(self, tag):
        self.fresh += 1
        return z3.Real(f"{tag}!{self.fresh}")

    def fn_exp(self, x):
        x = SymNum.of(x)
        a = z3.simplify(x.r(), som=True)
        if z3.is_rational_value(a):
            f = Fraction(a.numerator_as_long(), a.denominator_as_long())
            if f == 0:
                return 1.0
        key = ("exp", a.get_id())
        if key in self.defs_cache:
            return self.defs_cache[key][1]
        v = self.newreal("exp")
        self.add(v > 0)
        self.add(z3.And(z3.Implies(a == 0, v == 1), z3.Implies(a > 0, v > 1), z3.Implies(a < 0, v < 1)))
        # tangent bound e^a >= 1 + a
        self.add(v >= 1 + a)
        for b, w in self.exps:
            self.add(z3.And(z3.Implies(a == b, v == w), z3.Implies(a < b, v < w), z3.Implies(a > b, v > w)))
        for b, w in self.logs:  # w = log(b): exp(w)=b
            self.add(z3.Implies(a == w, v == b))
        self.exps.append((a, v))
        s = SymNum(v, False)
        s.npf = True
        self.defs_cache[key] = (a, s)
        return s

    def exp_products(self):
        """Instantiate exp(a)exp(b)=exp(a+b) over all terms seen so far."""
        es = list(self.exps)
        for i, (a, v) in enumerate(es):
            for j, (b, w) in enumerate(es):
                if j < i:
                    continue
                self.add(z3.Implies(a + b == 0, v * w == 1))
                for c, u in es:
                    self.add(z3.Implies(a + b == c, v * w == u))

    def fn_log(self, x):
        x = SymNum.of(x)
        a = z3.simplify(x.r(), som=True)
        zero = mkbool(a == 0)
        if zero is True or (is_sym(zero) and bool(zero)):
            return -math.inf
        neg = mkbool(a < 0)
        if neg is True or (is_sym(neg) and bool(neg)):
            return math.nan
        if z3.is_rational_value(a):
            f = Fraction(a.numerator_as_long(), a.denominator_as_long())
            if f == 1:
                return 0.0
        key = ("log", a.get_id())
        if key in self.defs_cache:
            return self.defs_cache[key][1]
        v = self.newreal("log")
        self.add(z3.And(z3.Implies(a == 1, v == 0), z3.Implies(a > 1, v > 0), z3.Implies(a < 1, v < 0)))
        self.add(v <= a - 1)
        for b, w in self.logs:
            self.add(z3.And(z3.Implies(a == b, v == w), z3.Implies(a < b, v < w), z3.Implies(a > b, v > w)))
        for b, w in self.exps:
            self.add(z3.Implies(a == w, v == b))
        self.logs.append((a, v))
        s = SymNum(v, False)
        s.npf = True
        self.defs_cache[key] = (a, s)
        return s

    def fn_sqrt(self, x):
        x = SymNum.of(x)
        a = z3.simplify(x.r(), som=True)
        if z3.is_rational_value(a):
            f = Fraction(a.numerator_as_long(), a.denominator_as_long())
            if f >= 0:
                rn, rd = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if rn * rn == f.numerator and rd * rd == f.denominator:
                    return rn / rd
        neg = mkbool(a < 0)
        if neg is True or (is_sym(neg) and bool(neg)):
            return math.nan
        key = ("sqrt", a.get_id())
        if key in self.defs_cache:
            return self.defs_cache[key][1]
        v = self.newreal("sqrt")
        self.add(z3.And(v >= 0, v * v == a))
        self.sqrts[v.get_id()] = (v, a)
        s = SymNum(v, False)
        s.npf = True
        self.defs_cache[key] = (a, s)
        return s


def val_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"model value {v}")
