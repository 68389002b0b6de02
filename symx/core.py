"""Symbolic proxy values and the path explorer."""
from __future__ import annotations

import fractions
import math
import operator
import time
import traceback
from numbers import Number

import numpy as _np

from . import z3

Fraction = fractions.Fraction

# ---------------------------------------------------------------- control-flow
# BaseException so that the code under test cannot swallow them.


class PathAbort(BaseException):
    """The current path is infeasible / was cut by an assumption."""


class BudgetExceeded(BaseException):
    pass


class PathTimeout(BaseException):
    """One path ran longer than the per-path limit (a loop that does not end, or too slow an engine)."""


def _on_alarm(sig, frame):
    raise PathTimeout("path ran longer than the limit")


class alarm:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        import signal

        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(self.seconds)

    def __exit__(self, *a):
        import signal

        signal.alarm(0)
        return False


class NonDeterminism(BaseException):
    pass


class CUR:
    ctx = None  # the active PathContext


def ctx():
    c = CUR.ctx
    if c is None:
        raise RuntimeError("symbolic value used outside a symbolic run")
    return c


# ---------------------------------------------------------------- conversions


def to_frac(v):
    if isinstance(v, bool) or isinstance(v, _np.bool_):
        return Fraction(int(v))
    if isinstance(v, (int, _np.integer)):
        return Fraction(int(v))
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (float, _np.floating)):
        return Fraction(repr(float(v)))
    raise TypeError(type(v))


_CONST = {}


def _rv(fr):
    r = _CONST.get(fr)
    if r is None:
        r = z3.RealVal(str(fr))
        if len(_CONST) < 200000:
            _CONST[fr] = r
    return r


def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(is_sym(i) for i in x.flat)
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(i) for i in x)
    if isinstance(x, dict):
        return any(has_sym(i) for i in x.values())
    return False


def _special(v):
    """inf/nan handling for concrete operands."""
    return isinstance(v, (float, _np.floating)) and not math.isfinite(v)


def real_term(v):
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, SymInt):
        return z3.ToReal(v.t)
    if isinstance(v, SymBool):
        return z3.If(v.t, _rv(Fraction(1)), _rv(Fraction(0)))
    if isinstance(v, _np.ndarray) and v.ndim == 0:
        return real_term(v.item())
    if hasattr(v, "nominal_value"):
        return real_term(v.nominal_value)
    return _rv(to_frac(v))


def bool_term(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, (bool, _np.bool_)):
        return z3.BoolVal(bool(v))
    if isinstance(v, _np.ndarray) and v.ndim == 0:
        return bool_term(v.item())
    if is_sym(v):
        return v.t != 0
    return z3.BoolVal(bool(v))


def _simp_num(t):
    return t


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(z3.And(self.t, bool_term(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, _np.ndarray) and o.ndim:
            return NotImplemented
        return mkbool(z3.Or(self.t, bool_term(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def logical_not(self):
        return mkbool(z3.Not(self.t))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, bool_term(o)))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return mkbool(self.t == bool_term(o))
        return SymReal(real_term(self)) == o

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, SymBool) else not (self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return SymReal(real_term(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymReal(real_term(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SymBool({z3.simplify(self.t)})"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def any(self, *a, **k):
        return self

    all = any


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class _Num:
    """Shared arithmetic for SymReal / SymInt."""

    __slots__ = ()
    __array_priority__ = 1000.0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __pos__(self):
        return self

    def __repr__(self):
        return f"{type(self).__name__}({z3.simplify(self.t)})"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        # injective on values: equal numbers format equally, distinct ones differ
        c = CUR.ctx
        if c is None:
            return repr(self)
        if isinstance(self, SymInt):
            return format(self.__index__(), spec)
        return f"<r{c.hash_class(self.t)}>"

    # numpy-scalar look-alikes
    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def nominal_value(self):
        return self

    @property
    def shape(self):
        return ()

    def conjugate(self):
        return self

    def sum(self, *a, **k):
        return self


def _bin(op):
    def f(self, o):
        return _arith(op, self, o)

    return f


def _rbin(op):
    def f(self, o):
        return _arith(op, o, self)

    return f


_PYOP = {
    "+": operator.add,
    "-": operator.sub,
    "*": operator.mul,
    "/": operator.truediv,
    "<": operator.lt,
    "<=": operator.le,
    ">": operator.gt,
    ">=": operator.ge,
    "==": operator.eq,
    "!=": operator.ne,
}


def _const_of(t):
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def _elementwise(op, a, b):
    fn = _PYOP[op]
    arr = a if isinstance(a, _np.ndarray) else b
    out = _np.empty(arr.shape, dtype=object)
    for i in _np.ndindex(arr.shape):
        out[i] = fn(a[i] if a is arr else a, b[i] if b is arr else b)
    if op in ("<", "<=", ">", ">=", "==", "!="):
        return out
    return out.view(type(arr)) if type(arr) is not _np.ndarray else out


def _arith(op, a, b):
    for v in (a, b):
        if isinstance(v, _np.ndarray):
            if v.ndim:
                return _elementwise(op, a, b)
        elif not (is_sym(v) or isinstance(v, (Number, _np.generic))):
            return NotImplemented
    if isinstance(a, _np.ndarray):
        a = a.item()
    if isinstance(b, _np.ndarray):
        b = b.item()
    if isinstance(a, complex) or isinstance(b, complex):
        return NotImplemented
    if hasattr(a, "std_dev") or hasattr(b, "std_dev"):
        return NotImplemented
    if _special(a) or _special(b):
        return _special_arith(op, a, b)
    ints = all(isinstance(v, (SymInt, int, _np.integer, bool)) for v in (a, b))
    if ints and op in "+-*":
        ta = a.t if isinstance(a, SymInt) else z3.IntVal(int(a))
        tb = b.t if isinstance(b, SymInt) else z3.IntVal(int(b))
        r = ta + tb if op == "+" else ta - tb if op == "-" else ta * tb
        return mkint(r)
    ta, tb = real_term(a), real_term(b)
    if op == "+":
        return SymReal(_s(ta + tb))
    if op == "-":
        return SymReal(_s(ta - tb))
    if op == "*":
        return SymReal(_s(ta * tb))
    if op == "/":
        cb = _const_of(z3.simplify(tb))
        if cb is not None:
            if cb == 0:
                raise ZeroDivisionError("division by zero")
            return SymReal(_s(ta * _rv(1 / cb)))
        if ctx().branch(tb == 0):
            raise ZeroDivisionError("symbolic division by zero")
        return SymReal(_s(ta / tb))
    raise AssertionError(op)


def _s(t):
    return z3.simplify(t)


def _special_arith(op, a, b):
    if _special(a) and not is_sym(b) or _special(b) and not is_sym(a):
        return _PYOP[op](a, b)
    if _special(b):
        if math.isnan(b):
            return float("nan")
        if op == "+":
            return b
        if op == "-":
            return -b
        if op == "/":
            return 0.0
        if op == "*":
            if a == 0:
                return float("nan")
            return b if a > 0 else -b
    else:
        if math.isnan(a):
            return float("nan")
        if op in "+-":
            return a
        if op in "*/":
            if b == 0:
                return float("nan")
            return a if b > 0 else -a
    raise AssertionError


def _cmp(op):
    def f(self, o):
        return _compare(op, self, o)

    return f


def _compare(op, a, b):
    if isinstance(b, _np.ndarray):
        if b.ndim:
            return _elementwise(op, a, b)
        b = b.item()
    if not (is_sym(b) or isinstance(b, (Number, _np.generic))):
        return NotImplemented
    if isinstance(b, complex):
        return NotImplemented
    if hasattr(b, "std_dev"):
        b = b.nominal_value
    if _special(b):
        if math.isnan(b):
            return op == "!="
        return {
            "<": b > 0,
            "<=": b > 0,
            ">": b < 0,
            ">=": b < 0,
            "==": False,
            "!=": True,
        }[op]
    if isinstance(a, SymInt) and isinstance(b, (SymInt, int, _np.integer)):
        ta = a.t
        tb = b.t if isinstance(b, SymInt) else z3.IntVal(int(b))
    else:
        ta, tb = real_term(a), real_term(b)
    if op == "<":
        return mkbool(ta < tb)
    if op == "<=":
        return mkbool(ta <= tb)
    if op == ">":
        return mkbool(ta > tb)
    if op == ">=":
        return mkbool(ta >= tb)
    if op == "==":
        return mkbool(ta == tb)
    return mkbool(ta != tb)


for _cls_ops in [_Num]:
    _cls_ops.__add__ = _bin("+")
    _cls_ops.__radd__ = _rbin("+")
    _cls_ops.__sub__ = _bin("-")
    _cls_ops.__rsub__ = _rbin("-")
    _cls_ops.__mul__ = _bin("*")
    _cls_ops.__rmul__ = _rbin("*")
    _cls_ops.__truediv__ = _bin("/")
    _cls_ops.__rtruediv__ = _rbin("/")
    _cls_ops.__lt__ = _cmp("<")
    _cls_ops.__le__ = _cmp("<=")
    _cls_ops.__gt__ = _cmp(">")
    _cls_ops.__ge__ = _cmp(">=")
    _cls_ops.__eq__ = _cmp("==")
    _cls_ops.__ne__ = _cmp("!=")


class SymReal(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __hash__(self):
        return ctx().hash_class(self.t)

    def __neg__(self):
        return SymReal(_s(-self.t))

    def __abs__(self):
        return SymReal(_s(z3.If(self.t >= 0, self.t, -self.t)))

    def __float__(self):
        return ctx().concretize_real(self.t)

    def __int__(self):
        # truncation towards zero
        if self >= 0:
            return mkint(z3.ToInt(self.t)).__index__() if not isinstance(mkint(z3.ToInt(self.t)), int) else mkint(z3.ToInt(self.t))
        v = mkint(-z3.ToInt(-self.t))
        return v if isinstance(v, int) else v.__index__()

    def __round__(self, n=None):
        if n is None:
            return mkint(z3.ToInt(self.t + _rv(Fraction(1, 2))))
        k = Fraction(10) ** n
        return SymReal(
            z3.ToReal(z3.ToInt(self.t * _rv(k) + _rv(Fraction(1, 2)))) * _rv(1 / k)
        )

    def round(self, decimals=0, out=None):
        return self.__round__(decimals)

    def rint(self):
        return self.__round__(0)

    def __floor__(self):
        return mkint(z3.ToInt(self.t))

    def floor(self):
        return SymReal(z3.ToReal(z3.ToInt(self.t)))

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.t))

    def ceil(self):
        return SymReal(z3.ToReal(-z3.ToInt(-self.t)))

    def __trunc__(self):
        return self.__int__()

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def __mod__(self, o):
        if isinstance(o, (int, float)) and o != 0:
            k = _rv(to_frac(o))
            return SymReal(self.t - k * z3.ToReal(z3.ToInt(self.t / k)))
        return NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, (int, float)) and o != 0:
            return SymReal(z3.ToReal(z3.ToInt(self.t / _rv(to_frac(o)))))
        return NotImplemented

    def __pow__(self, n):
        if isinstance(n, (int, float)) and float(n).is_integer() and abs(n) <= 6:
            n = int(n)
            if n == 0:
                return 1.0
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            return r if n > 0 else 1 / r
        if n == 0.5:
            return self.sqrt()
        return NotImplemented

    # transcendental functions as uninterpreted functions with axioms
    def sqrt(self):
        return ctx().uf_sqrt(self)

    def exp(self):
        return ctx().uf_exp(self)

    def log(self):
        return ctx().uf_log(self)

    def log10(self):
        return ctx().uf_log(self) / math.log(10)

    def log1p(self):
        return ctx().uf_log(self + 1)

    def expm1(self):
        return ctx().uf_exp(self) - 1

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def isinf(self):
        return False


class SymInt(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        return ctx().realize_int(self.t)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __neg__(self):
        return mkint(-self.t)

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __round__(self, n=None):
        return self

    round = rint = floor = ceil = __round__

    def is_integer(self):
        return True

    def __trunc__(self):
        return self

    def __floordiv__(self, o):
        if isinstance(o, (int, _np.integer)) and o > 0:
            return mkint(self.t / z3.IntVal(int(o)))
        return operator.floordiv(self.__index__(), o)

    def __rfloordiv__(self, o):
        return operator.floordiv(o, self.__index__())

    def __mod__(self, o):
        if isinstance(o, (int, _np.integer)) and o > 0:
            return mkint(self.t % z3.IntVal(int(o)))
        return operator.mod(self.__index__(), o)

    def __rmod__(self, o):
        return operator.mod(o, self.__index__())

    def __pow__(self, n):
        return self.__index__() ** n

    def __rpow__(self, n):
        return n ** self.__index__()

    def sqrt(self):
        return SymReal(z3.ToReal(self.t)).sqrt()

    def exp(self):
        return SymReal(z3.ToReal(self.t)).exp()

    def log(self):
        return SymReal(z3.ToReal(self.t)).log()

    def isfinite(self):
        return True

    def isnan(self):
        return False


for _c in (SymReal, SymInt):  # defining __eq__ on the base hides __hash__
    pass


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


Number.register(SymReal)
Number.register(SymInt)


# ---------------------------------------------------------------- term helpers
# These work for symbolic and concrete values (harness oracles use them).


def And(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    if not any(is_sym(x) for x in xs):
        return all(bool(x) for x in xs)
    return mkbool(z3.And(*[bool_term(x) for x in xs]))


def Or(*xs):
    xs = list(xs[0]) if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    if not any(is_sym(x) for x in xs):
        return any(bool(x) for x in xs)
    return mkbool(z3.Or(*[bool_term(x) for x in xs]))


def Not(x):
    return mkbool(z3.Not(x.t)) if is_sym(x) else (not x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) == bool(b)
    return mkbool(bool_term(a) == bool_term(b))


def Ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    return SymReal(_s(z3.If(c.t, real_term(a), real_term(b))))


def Min(*xs):
    xs = list(xs[0]) if len(xs) == 1 else list(xs)
    r = xs[0]
    for x in xs[1:]:
        if is_sym(r) or is_sym(x):
            r = Ite(x < r, x, r)
        else:
            r = min(r, x)
    return r


def Max(*xs):
    xs = list(xs[0]) if len(xs) == 1 else list(xs)
    r = xs[0]
    for x in xs[1:]:
        if is_sym(r) or is_sym(x):
            r = Ite(x > r, x, r)
        else:
            r = max(r, x)
    return r


def Abs(x):
    return abs(x)


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


# ---------------------------------------------------------------- exploration


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.forks = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.concretized = {}
        self.nondet = 0
        self.unfinished = 0

    def as_dict(self):
        return dict(self.__dict__)


class Decision:
    __slots__ = ("term", "value", "alt", "pushed")

    def __init__(self, term, value, alt):
        self.term = term
        self.value = value  # True/False, or an int for realize, or None for assume
        self.alt = alt  # remaining alternatives still to explore


class Explorer:
    """Depth-first exploration of one harness by re-execution."""

    def __init__(self, fn, timeout_ms=20000, max_paths=200000, deadline=None, tol=1e-6):
        self.fn = fn
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.trace: list[Decision] = []
        self.pos = 0
        self.stats = Stats()
        self.failures = []
        self.witnesses = []  # (assignment, observations) per path
        self.max_paths = max_paths
        self.deadline = deadline
        self.tol = tol
        self.vars = {}
        self.var_order = []
        self._hash_classes = []
        self._fresh = 0
        self._uf = {}
        self.observations = []
        self.labels_failed = {}
        self.reached = {}
        self.max_fail_per_label = 3
        self.want_witness = True
        self._last_model = None
        # facts that follow from the declared input ranges alone: valid on every path
        self.base = z3.SimpleSolver()
        self.base.set("timeout", 300)
        self._base_ok = True
        self._bounds = {}
        self._global = {}
        self._failed_at = set()
        self._keep = []

    def _declare(self, name, t, lo, hi, constraints):
        if name not in self.vars:
            self.vars[name] = t
            self.var_order.append(name)
            self._bounds[name] = (lo, hi)
            for c in constraints:
                self.base.add(c)
        elif self._bounds[name] != (lo, hi):
            self._base_ok = False

    def _forced(self, t):
        """True / False when t has that value on every path, None otherwise (memoised)."""
        if not self._base_ok:
            return None
        k = t.get_id()
        g = self._global.get(k)
        if g is None:
            t0 = time.time()
            self.stats.queries += 1
            v = None
            if self.base.check(z3.Not(t)) == z3.unsat:
                v = True
            else:
                self.stats.queries += 1
                if self.base.check(t) == z3.unsat:
                    v = False
            self.stats.solver_s += time.time() - t0
            g = self._global[k] = (t, v)
        return g[1]

    # --- solver access
    def _check(self, *assumptions):
        t0 = time.time()
        self.stats.queries += 1
        r = self.solver.check(*assumptions)
        self._last_from = self.solver
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", self.timeout_ms * 3)
            for a in self.solver.assertions():
                s.add(a)
            for a in assumptions:
                s.add(a)
            r = s.check()
            self._last_from = s
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _tick(self):
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded()

    # --- replaying / extending the decision trace
    def _next(self, term):
        d = self.trace[self.pos]
        same = (d.term is term) or (
            d.term is not None and term is not None and d.term.eq(term)
        )
        if not same:
            # non-deterministic re-execution: drop the stale suffix
            self.stats.nondet += 1
            self._pop_to(self.pos)
            return None
        self.pos += 1
        return d

    def _push(self, d, constraint):
        self.trace.append(d)
        self.solver.push()
        if constraint is not None:
            self.solver.add(constraint)
        self.pos += 1
        self.stats.decisions += 1

    def _pop_to(self, n):
        k = len(self.trace) - n
        if k > 0:
            self.solver.pop(k)
            del self.trace[n:]

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        f = self._forced(t)
        if f is not None:
            return f
        if self.pos < len(self.trace):
            d = self._next(t)
            if d is not None:
                return d.value
        self._tick()
        nt = z3.Not(t)
        r1 = self._check(t)
        if r1 == z3.unsat:
            self._push(Decision(t, False, []), nt)
            return False
        r2 = self._check(nt)
        if r2 == z3.unsat:
            self._push(Decision(t, True, []), t)
            return True
        self.stats.forks += 1
        self._push(Decision(t, True, [False]), t)
        return True

    def realize_int(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if self.pos < len(self.trace):
            d = self._next(t)
            if d is not None:
                return d.value
        self._tick()
        # enumerate the feasible values (bounded by the declared ranges)
        vals = []
        self.solver.push()
        while len(vals) < 4096:
            r = self._check()
            if r != z3.sat:
                if r == z3.unknown:
                    self.stats.unfinished += 1
                break
            v = self._last_from.model().eval(t, model_completion=True).as_long()
            vals.append(v)
            self.solver.add(t != v)
        self.solver.pop()
        if not vals:
            raise PathAbort()
        vals.sort()
        if len(vals) > 1:
            self.stats.forks += 1
        self._push(Decision(t, vals[0], vals[1:]), t == vals[0])
        return vals[0]

    def assume(self, cond):
        if isinstance(cond, (bool, _np.bool_)):
            if not cond:
                self.stats.aborted += 1
                raise PathAbort()
            return
        t = z3.simplify(bool_term(cond))
        if z3.is_true(t):
            return
        if self.pos < len(self.trace):
            d = self._next(t)
            if d is not None:
                return
        self._push(Decision(t, None, []), t)
        if self._check() == z3.unsat:
            self.stats.aborted += 1
            raise PathAbort()

    def axiom(self, t):
        self.assume(SymBool(t))

    # --- fresh terms / uninterpreted functions
    def fresh_real(self, hint="f"):
        self._fresh += 1
        return SymReal(z3.Real(f"!{hint}{self._fresh}"))

    def uf_exp(self, x):
        return self._uf_apply("exp", x)

    def uf_log(self, x):
        if ctx().branch(x.t <= 0):
            return float("nan")
        return self._uf_apply("log", x)

    def uf_sqrt(self, x):
        if ctx().branch(x.t < 0):
            return float("nan")
        self._fresh += 1
        r = z3.Real(f"!sqrt{self._fresh}")
        self.axiom(z3.And(r >= 0, r * r == x.t))
        return SymReal(r)

    def _uf_apply(self, name, x):
        """exp/log as strictly monotone uninterpreted functions.

        Axioms (all true of the real functions): monotonicity against every other
        application on this path, sign/fixed points, and tangent-line bounds.
        """
        apps = self._uf.setdefault(name, [])
        for t, r in apps:
            if t.eq(x.t):
                return SymReal(r)
        f = z3.Function(f"uf_{name}", z3.RealSort(), z3.RealSort())
        r = f(x.t)
        ax = []
        one, zero = _rv(Fraction(1)), _rv(Fraction(0))
        if name == "exp":
            ax += [r > 0, (x.t > 0) == (r > one), (x.t == 0) == (r == one), r >= one + x.t]
        else:
            ax += [(x.t > one) == (r > 0), (x.t == one) == (r == 0), r <= x.t - one]
        for t, r2 in apps:
            ax += [(x.t < t) == (r < r2), (x.t == t) == (r == r2)]
        inv = self._uf.get("log" if name == "exp" else "exp", [])
        for t, r2 in inv:  # exp(log t) = t, log(exp t) = t
            ax.append((x.t == r2) == (r == t))
            ax.append((x.t < r2) == (r < t))
        apps.append((x.t, r))
        for a in ax:
            self.axiom(a)
        return SymReal(r)

    def hash_class(self, t):
        """An injective-on-values hash: equal reals hash equal, distinct ones differ."""
        c = _const_of(z3.simplify(t))
        if c is not None:
            return hash(float(c))
        for i, u in enumerate(self._hash_classes):
            if u.eq(t):
                return 7919 * (i + 11)
        for i, u in enumerate(self._hash_classes):
            if self.branch(u == t):
                return 7919 * (i + 11)
        self._hash_classes.append(t)
        return 7919 * (len(self._hash_classes) - 1 + 11)

    def concretize_real(self, t):
        """Loss of generality (recorded): pin the term to one feasible value."""
        t = z3.simplify(t)
        c = _const_of(t)
        if c is not None:
            return float(c)
        if self.pos < len(self.trace):
            d = self._next(t)
            if d is not None:
                return d.value
        where = "?"
        for fr in reversed(traceback.extract_stack()[:-2]):
            if "/symx/" not in fr.filename:
                where = f"{fr.filename.split('/repo/')[-1]}:{fr.lineno}"
                break
        self.stats.concretized[where] = self.stats.concretized.get(where, 0) + 1
        if self._check() != z3.sat:
            raise PathAbort()
        v = self._last_from.model().eval(t, model_completion=True)
        fr = model_value(v)
        f = float(fr)
        self._push(Decision(t, f, []), t == _rv(fr))
        return f

    # --- inputs
    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        self._declare(name, t, lo, hi, ([t >= real_term(lo)] if lo is not None else []) + ([t <= real_term(hi)] if hi is not None else []))
        if lo is not None:
            self.assume(SymBool(t >= real_term(lo)))
        if hi is not None:
            self.assume(SymBool(t <= real_term(hi)))
        return SymReal(t)

    def int(self, name, lo, hi):
        t = z3.Int(name)
        self._declare(name, t, lo, hi, [t >= lo, t <= hi])
        self.assume(SymBool(z3.And(t >= lo, t <= hi)))
        return SymInt(t)

    # --- models
    def model_assignment(self, model):
        out = {}
        for n in self.var_order:
            v = model.eval(self.vars[n], model_completion=True)
            out[n] = str(model_value(v))
        return out

    def nice_model(self, extra=()):
        """Prefer a model on a dyadic grid (exactly representable floats)."""
        reals = [t for t in self.vars.values() if z3.is_real(t)]
        extra = list(extra)
        for g in (4, 64, 1024) if len(reals) <= 12 else (64,):
            s = z3.Solver()
            s.set("timeout", 3000)
            for a in self.solver.assertions():
                s.add(a)
            for e in extra:
                s.add(e)
            for i, t in enumerate(reals):
                s.add(t == z3.ToReal(z3.Int(f"!g{i}")) / g)
            t0 = time.time()
            r = s.check()
            self.stats.solver_s += time.time() - t0
            self.stats.queries += 1
            if r == z3.sat:
                return s.model()
        r = self._check(*extra)
        if r == z3.sat:
            return self._last_from.model()
        return None

    # --- assertions
    def check(self, cond, label, margin=None):
        """Obligation: `cond` holds on every input that reaches here."""
        self.reached[label] = self.reached.get(label, 0) + 1
        self.stats.obligations += 1
        t = z3.simplify(bool_term(cond))
        if z3.is_true(t):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return
        at = (self.pos, t.get_id())
        if self.pos < len(self.trace):
            # same prefix as an earlier path: decided there
            if at in self._failed_at:
                self.assume(cond)
            else:
                self.stats.discharged += 1
            return
        if self._forced(t):
            self.stats.discharged += 1
            return
        self._tick()
        nt = z3.simplify(z3.Not(t))
        r = self._check(nt)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.unknown:
            return
        fallback = self._last_from.model()
        n = self.labels_failed.get(label, 0)
        self.labels_failed[label] = n + 1
        if n < self.max_fail_per_label:
            extra = [nt]
            m = None
            if margin is not None:
                mt = z3.simplify(bool_term(margin))
                if self._check(mt) == z3.sat:
                    m = self.nice_model([mt])
            if m is None:
                m = self.nice_model(extra) or fallback
            self.failures.append(
                {"label": label, "assignment": self.model_assignment(m)}
            )
        # continue under the assumption that it held, to see other failures
        self._failed_at.add(at)
        self._keep.append(t)
        self.assume(cond)

    def fail_exception(self, e):
        label = f"no-exception:{type(e).__name__}"
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f"{f.filename}:{f.lineno}" for f in tb][-4:]
        self.labels_failed[label] = self.labels_failed.get(label, 0) + 1
        self.stats.obligations += 1
        if self.labels_failed[label] <= self.max_fail_per_label:
            m = self.nice_model()
            if m is not None:
                self.failures.append(
                    {
                        "label": label,
                        "assignment": self.model_assignment(m),
                        "exc": f"{type(e).__name__}: {e}",
                        "where": loc,
                    }
                )

    def backtrack(self):
        while self.trace:
            d = self.trace[-1]
            n = len(self.trace) - 1
            self._pop_to(n)
            if d.alt:
                v = d.alt.pop(0)
                nd = Decision(d.term, v, d.alt)
                self.trace.append(nd)
                self.solver.push()
                if v is False:
                    self.solver.add(z3.Not(d.term))
                elif v is True:
                    self.solver.add(d.term)
                else:
                    self.solver.add(d.term == v)
                return True
        return False

    def run(self, h):
        """Explore every path of fn(h)."""
        while True:
            self.pos = 0
            self._hash_classes = []
            self._fresh = 0
            self._uf = {}
            self.observations = []
            CUR.ctx = self
            try:
                done = False
                with alarm(self.path_timeout):
                    self.fn(h)
                done = True
            except PathAbort:
                pass
            except BudgetExceeded:
                self.stats.unfinished += 1
                CUR.ctx = None
                return
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:  # noqa
                if isinstance(e, (Exception, PathTimeout)):
                    self.stats.paths += 1
                    self.fail_exception(e)
                else:
                    raise
            if done:
                self.stats.paths += 1
                if self.want_witness:
                    try:
                        self._witness()
                    except BudgetExceeded:
                        pass
            CUR.ctx = None
            if self.stats.paths + self.stats.aborted >= self.max_paths:
                self.stats.unfinished += 1
                return
            if self.deadline and time.time() > self.deadline:
                if self.backtrack():
                    self.stats.unfinished += 1
                return
            if not self.backtrack():
                return

    witness_limit = 40
    path_timeout = 60

    def _witness(self):
        # reservoir-less: keep the first few and then every k-th path
        p = self.stats.paths
        keep = p <= self.witness_limit // 2 or (p & (p - 1)) == 0 or p % 97 == 0
        if not keep or len(self.witnesses) >= self.witness_limit:
            return
        m = self.nice_model()
        if m is None:
            return
        obs = []
        for label, v in self.observations:
            obs.append((label, eval_obs(m, v)))
        self.witnesses.append({"assignment": self.model_assignment(m), "obs": obs})


def eval_obs(m, v):
    if isinstance(v, (SymReal, SymInt)):
        x = m.eval(v.t, model_completion=True)
        try:
            return float(model_value(x))
        except Exception:
            return "?"
    if isinstance(v, SymBool):
        x = m.eval(v.t, model_completion=True)
        return bool(z3.is_true(x))
    if isinstance(v, dict):
        return {str(k): eval_obs(m, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [eval_obs(m, x) for x in v]
    if isinstance(v, _np.ndarray):
        return [eval_obs(m, x) for x in v]
    if isinstance(v, (bool, _np.bool_)):
        return bool(v)
    if isinstance(v, (int, _np.integer)):
        return int(v)
    if isinstance(v, (float, _np.floating)):
        return float(v)
    if v is None:
        return None
    return str(v)


def model_value(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError(f"no value: {v}")
