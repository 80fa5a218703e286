"""Symbolic scalars, path exploration and solver access.

A symbolic run executes the real Python code with SymReal/SymBool values in the
data positions.  Branching on a SymBool asks the solver which sides are
feasible; every feasible side is eventually executed (decision-prefix
re-execution, depth first).  Floats are modelled as mathematical reals; NaN and
infinities stay concrete floats.
"""
import math
import time
import numbers
import operator
from fractions import Fraction

import numpy as np
import z3

NAN = float('nan')


class Abort(BaseException):
    """Path-steering exceptions (never caught by `except Exception`)."""


class PathInfeasible(Abort):
    pass


class BudgetExceeded(Abort):
    pass


class FoundViolation(Abort):
    pass


# ----------------------------------------------------------------------------
# numerals
# ----------------------------------------------------------------------------
_snap_cache = {}


def snap(x):
    """float/int -> Fraction; floats that are the nearest double of a simple
    rational are read as that rational (floats-as-reals)."""
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    x = float(x)
    f = _snap_cache.get(x)
    if f is not None:
        return f
    if x == int(x) and abs(x) < 2 ** 53:
        f = Fraction(int(x))
    else:
        r = repr(x)
        digits = sum(c.isdigit() for c in r.split('e')[0].lstrip('-0.'))
        if digits <= 14:
            f = Fraction(r)
        else:
            f = None
            for lim in (10 ** 4, 10 ** 7):
                c = Fraction(x).limit_denominator(lim)
                if c and abs(float(c) - x) <= 2.3e-16 * abs(x):
                    f = c
                    break
                inv = 1 / Fraction(x)
                c = inv.limit_denominator(lim)
                if c and abs(float(1 / c) - x) <= 2.3e-16 * abs(x):
                    f = 1 / c
                    break
            if f is None:
                f = Fraction(x)
    _snap_cache[x] = f
    return f


_num_cache = {}


def numeral(f):
    t = _num_cache.get(f)
    if t is None:
        t = z3.RealVal(f'{f.numerator}/{f.denominator}' if f.denominator != 1 else f.numerator)
        _num_cache[f] = t
    return t


def as_fraction(t):
    """z3 numeral -> Fraction or None"""
    if z3.is_rational_value(t):
        return t.as_fraction()
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def is_const(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


ONE = z3.RealVal(1)
ZERO = z3.RealVal(0)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


# light-weight constant folding so that terms stay readable and comparable
def _add(a, b):
    fa, fb = as_fraction(a), as_fraction(b)
    if fa is not None and fb is not None:
        return numeral(fa + fb)
    if fa == 0:
        return b
    if fb == 0:
        return a
    return a + b


def _neg(a):
    fa = as_fraction(a)
    if fa is not None:
        return numeral(-fa)
    if a.decl().kind() == z3.Z3_OP_SUB and a.num_args() == 2:
        return _sub(a.arg(1), a.arg(0))
    return -a


def _sub(a, b):
    fa, fb = as_fraction(a), as_fraction(b)
    if fa is not None and fb is not None:
        return numeral(fa - fb)
    if fb == 0:
        return a
    if a.eq(b):
        return ZERO
    return a - b


def _mul(a, b):
    fa, fb = as_fraction(a), as_fraction(b)
    if fa is not None and fb is not None:
        return numeral(fa * fb)
    if fa == 0 or fb == 0:
        return ZERO
    if fa == 1:
        return b
    if fb == 1:
        return a
    if fa is None and fb is None and a.get_id() > b.get_id():
        a, b = b, a
    return a * b


def _ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def b_and(a, b):
    if z3.is_false(a) or z3.is_false(b):
        return FALSE
    if z3.is_true(a):
        return b
    if z3.is_true(b):
        return a
    if a.eq(b):
        return a
    return z3.And(a, b)


def b_or(a, b):
    if z3.is_true(a) or z3.is_true(b):
        return TRUE
    if z3.is_false(a):
        return b
    if z3.is_false(b):
        return a
    if a.eq(b):
        return a
    return z3.Or(a, b)


def b_not(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


# ----------------------------------------------------------------------------
# the engine
# ----------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.obligations = 0          # assertions discharged (unsat)
        self.trivial = 0              # assertions true by construction of the terms
        self.unknown_obligations = 0
        self.concretised = 0
        self.unsupported = 0
        self.forks = 0


class Engine:
    """One engine per harness instance (config)."""

    current = None

    def __init__(self, query_ms=20000, deadline=None, max_paths=20000):
        self.query_ms = query_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = Stats()
        self.worklist = [[]]
        self.reset_path([])
        self.notes = {}

    # -- path state ---------------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_ms)
        self.model = None
        self.fresh_n = 0
        self.path_concretised = []
        self.memo = {}
        self.inputs = []      # (name, z3 const, sort)
        self.used_names = set()
        self.keep_terms = []  # keeps term ids from being reused
        self.pending = {}     # id of an auxiliary constant -> (constant, its definition), not asserted yet
        self.seen_terms = set()

    def define(self, v, *cs):
        """auxiliary constant with a conservative definition (always satisfiable on the path); asserted
        only once a formula mentions the constant"""
        self.pending[v.get_id()] = (v, cs)
        self.seen_terms = set()

    def touch(self, *terms):
        """assert the definitions of the auxiliary constants mentioned in the terms"""
        if not self.pending:
            return
        todo = []
        stack = list(terms)
        seen = self.seen_terms
        while stack:
            t = stack.pop()
            k = t.get_id()
            if k in seen:
                continue
            seen.add(k)
            self.keep_terms.append(t)
            if k in self.pending:
                todo.append(self.pending.pop(k))
            stack.extend(t.children())
        for v, cs in todo:
            for c in cs:
                self.add(c)

    def mentions_pending(self, *terms):
        if not self.pending:
            return False
        stack, seen = list(terms), set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.get_id() in self.pending:
                return True
            stack.extend(t.children())
        return False

    def note(self, msg):
        self.notes[msg] = self.notes.get(msg, 0) + 1

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time budget')

    def _timed_check(self, *assumptions):
        self.check_deadline()
        self.touch(*assumptions)
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def add(self, c):
        """conjoin to the path condition"""
        c = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
        if z3.is_true(c):
            return
        self.touch(c)
        self.pc.append(c)
        self.solver.add(c)
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def assume(self, c):
        """assume on the current path; ends the path when infeasible"""
        if isinstance(c, SymBool):
            c = c.t
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathInfeasible()
            return
        self.add(c)
        if z3.is_false(c):
            raise PathInfeasible()
        if self.pos >= len(self.prefix):
            self.ensure_model()

    def ensure_model(self):
        if self.model is not None:
            return self.model
        r = self._timed_check()
        if r == z3.unsat:
            raise PathInfeasible()
        if r == z3.sat:
            self.model = self.solver.model()
            return self.model
        self.note('path feasibility unknown')
        return None

    # -- deciding -----------------------------------------------------------
    def feasible(self, c):
        """sat / unsat / unknown of pc & c"""
        r = self._timed_check(c)
        m = self.solver.model() if r == z3.sat else None
        return r, m

    def decide(self, cond):
        """Return a Python bool for z3 Bool `cond`, forking when both sides
        are feasible."""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = ('dec', cond.get_id())
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        self.check_deadline()
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            assert kind == 'b', 'nondeterministic replay of decision prefix'
            self.pos += 1
            self.trace.append((kind, v))
            self.add(s if v else z3.Not(s))
            self.memo[key] = (v, cond)
            return v
        self.touch(s)
        m = self.ensure_model()
        if m is not None:
            mv = m.eval(s, model_completion=True)
            v = z3.is_true(mv)
            if not (z3.is_true(mv) or z3.is_false(mv)):
                v = None
        else:
            v = None
        if v is None:
            r1, m1 = self.feasible(s)
            v = r1 != z3.unsat
            if v and m1 is not None:
                self.model = m1
        r, m2 = self.feasible(z3.Not(s) if v else s)
        if r != z3.unsat:
            self.worklist.append(self.trace + [('b', not v)])
            self.stats.forks += 1
        self.pos += 1
        self.prefix.append(('b', v))
        self.trace.append(('b', v))
        if r != z3.unsat:
            self.add(s if v else z3.Not(s))
        # when the other side is infeasible the condition is implied
        self.memo[key] = (v, cond)
        return v

    def choose(self, n):
        """nondeterministic integer in range(n), every value explored"""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            kind, v = self.prefix[self.pos]
            assert kind == 'c', 'nondeterministic replay of decision prefix'
            self.pos += 1
            self.trace.append((kind, v))
            return v
        for k in range(n - 1, 0, -1):
            self.worklist.append(self.trace + [('c', k)])
        self.pos += 1
        self.prefix.append(('c', 0))
        self.trace.append(('c', 0))
        return 0

    # -- fresh values ---------------------------------------------------------
    def fresh(self, base, sort='real'):
        self.fresh_n += 1
        name = f'{base}!{self.fresh_n}'
        return z3.Real(name) if sort == 'real' else (
            z3.Int(name) if sort == 'int' else z3.Bool(name))

    def concretise(self, sym, why):
        """Pick one value for a symbolic real because unmodelled code needs a
        machine number.  The rest of the path is then only an under-approximation
        and is reported as such."""
        f = as_fraction(z3.simplify(sym.num))
        g = as_fraction(z3.simplify(sym.den))
        if f is not None and g is not None:
            return f / g
        self.stats.concretised += 1
        self.path_concretised.append(why)
        self.note(f'concretised: {why}')
        self.touch(sym.num, sym.den)
        m = self.ensure_model()
        if m is None:
            raise BudgetExceeded('no model to concretise with')
        n = model_fraction(m, sym.num)
        d = model_fraction(m, sym.den)
        v = n / d
        self.add(sym.num == numeral(v) * sym.den)
        return v

    def value(self, m, sym):
        return model_fraction(m, sym.num) / model_fraction(m, sym.den)


def model_fraction(m, t):
    v = m.eval(t, model_completion=True)
    v = z3.simplify(v)
    f = as_fraction(v)
    if f is not None:
        return f
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return as_fraction(a)
    raise ValueError(f'no numeral for {v}')


def eng():
    return Engine.current


# ----------------------------------------------------------------------------
# scalars
# ----------------------------------------------------------------------------
def is_nan(x):
    return isinstance(x, (float, np.floating)) and x != x


def is_missing(x):
    if isinstance(x, (SymReal, SymBool)):
        return False
    if x is None:
        return True
    if isinstance(x, (float, np.floating)):
        return x != x
    tn = type(x).__name__
    return tn in ('NAType', 'NaTType')


def is_sym(x):
    return isinstance(x, (SymReal, SymBool))


def _isinf(x):
    return isinstance(x, (float, np.floating)) and (x == math.inf or x == -math.inf)


class SymBool:
    __slots__ = ('t', '__weakref__')
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().decide(self.t)

    def __and__(self, o):
        if isinstance(o, _ARRAYISH):
            return NotImplemented
        o = lift_bool(o)
        return mkbool(b_and(self.t, o))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, _ARRAYISH):
            return NotImplemented
        o = lift_bool(o)
        return mkbool(b_or(self.t, o))
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, _ARRAYISH):
            return NotImplemented
        o = lift_bool(o)
        return mkbool(z3.Xor(self.t, o))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(b_not(self.t))

    def logical_not(self):
        return mkbool(b_not(self.t))

    def _real(self):
        return SymReal(_ite(self.t, ONE, ZERO))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if isinstance(o, (bool, np.bool_)):
            return mkbool(self.t if o else b_not(self.t))
        return self._real() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (~r) if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(('symbool', self.t.get_id()))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return 'SymBool(...)'

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npx
        return npx.scalar_ufunc(ufunc, method, inputs, kwargs)

    def __reduce__(self):
        raise TypeError('symbolic values cannot be pickled')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _fwd(name):
    op = getattr(operator, name.strip('_').replace('truediv', 'truediv'))

    def f(self, o):
        return op(self._real(), o)
    return f


def _rfwd(opname):
    op = getattr(operator, opname)

    def f(self, o):
        return op(o, self._real())
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'lt', 'le', 'gt', 'ge', 'pow', 'floordiv', 'mod'):
    setattr(SymBool, f'__{_n}__', _fwd(_n))
for _n in ('add', 'sub', 'mul', 'truediv', 'pow', 'floordiv', 'mod'):
    setattr(SymBool, f'__r{_n}__', _rfwd(_n))
SymBool.__neg__ = lambda self: -self._real()
SymBool.__pos__ = lambda self: self._real()
SymBool.__abs__ = lambda self: self._real()


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def lift_bool(o):
    """anything bool-like -> z3 Bool"""
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, (bool, np.bool_)):
        return TRUE if o else FALSE
    if isinstance(o, SymReal):
        return (o != 0).t if isinstance(o != 0, SymBool) else lift_bool(o != 0)
    if isinstance(o, (int, np.integer)):
        return TRUE if o else FALSE
    if is_missing(o):
        return FALSE
    if isinstance(o, (float, np.floating)):
        return TRUE if o else FALSE
    raise TypeError(f'not a boolean: {type(o)}')


def lift(x):
    """number -> SymReal (finite) ; nan/inf stay floats"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return x._real()
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return x
        return SymReal(numeral(snap(x)))
    if isinstance(x, (bool, np.bool_, int, np.integer, Fraction)):
        return SymReal(numeral(snap(x)))
    if x is None:
        return NAN
    if type(x).__name__ in ('NAType', 'NaTType'):
        return NAN
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


def _sign_of_positive(t):
    """decide sign of a z3 real term: returns 1, 0 or -1 (forking)"""
    f = as_fraction(t)
    if f is None:
        f = as_fraction(z3.simplify(t))
    if f is not None:
        return (f > 0) - (f < 0)
    e = eng()
    if e.decide(t > 0):
        return 1
    if e.decide(t == 0):
        return 0
    return -1


LIMITS = {}         # declared limits (closed) of the inputs of the current path


def _by_limits(a, b, fa, fb, op):
    """comparison of an input with a constant outside its declared limits"""
    if fb is not None and z3.is_const(a):
        lim = LIMITS.get(a.get_id())
        if lim is not None:
            if lim[1] is not None and lim[1] < fb:
                return op(0, 1)
            if lim[0] is not None and lim[0] > fb:
                return op(1, 0)
    if fa is not None and z3.is_const(b):
        lim = LIMITS.get(b.get_id())
        if lim is not None:
            if lim[1] is not None and lim[1] < fa:
                return op(1, 0)
            if lim[0] is not None and lim[0] > fa:
                return op(0, 1)
    return None


class SymReal:
    """num/den with den > 0 on the current path"""
    __slots__ = ('num', 'den', '__weakref__')
    __array_priority__ = 1000

    def __init__(self, num, den=None):
        self.num = num
        self.den = ONE if den is None else den

    # numpy-scalar look-alikes
    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def real(self):
        return self

    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    @property
    def term(self):
        if is_const(self.den) and as_fraction(self.den) == 1:
            return self.num
        return self.num / self.den

    def const(self):
        """Fraction when the term is a numeral"""
        n = as_fraction(self.num)
        if n is None:
            return None
        d = as_fraction(self.den)
        if d is None:
            return None
        return n / d

    # arithmetic ------------------------------------------------------------
    def _bin(self, o):
        if isinstance(o, _ARRAYISH):
            return None
        o = lift(o)
        if o is NotImplemented:
            return None
        return o

    def __add__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        if self.den.eq(o.den):
            return SymReal(_add(self.num, o.num), self.den)
        return SymReal(_add(_mul(self.num, o.den), _mul(o.num, self.den)), _mul(self.den, o.den))
    __radd__ = __add__

    def __neg__(self):
        return SymReal(_neg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return -o
        if self.den.eq(o.den):
            return SymReal(_sub(self.num, o.num), self.den)
        return SymReal(_sub(_mul(self.num, o.den), _mul(o.num, self.den)), _mul(self.den, o.den))

    def __rsub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        return o.__sub__(self)

    def __mul__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return o
            s = _sign_of_positive(self.num)
            return NAN if s == 0 else o * s
        # cheap cancellation
        if self.den.eq(o.num) and not is_const(o.num):
            return SymReal(self.num, o.den)
        if o.den.eq(self.num) and not is_const(self.num):
            return SymReal(o.num, self.den)
        return SymReal(_mul(self.num, o.num), _mul(self.den, o.den))
    __rmul__ = __mul__

    def _inv(self):
        """1/self; 0 handled by caller"""
        c = as_fraction(self.num)
        if c is not None:
            return SymReal(_mul(self.den, numeral(1 / c)))
        s = _sign_of_positive(self.num)
        if s > 0:
            return SymReal(self.den, self.num)
        return SymReal(_neg(self.den), _neg(self.num))

    def __truediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o if o != o else SymReal(ZERO)
        s = _sign_of_positive(o.num)
        if s == 0:
            t = _sign_of_positive(self.num)
            if t == 0:
                return NAN
            return math.inf * t      # +0.0 divisor assumed
        if self.num.eq(o.num) and self.den.eq(o.den):
            return SymReal(ONE)
        if self.den.eq(o.den):
            r = SymReal(self.num) * SymReal(o.num)._inv()
            return r
        return self * o._inv()

    def __rtruediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return o
            s = _sign_of_positive(self.num)
            return o * (s if s else 1)
        return o.__truediv__(self)

    def __floordiv__(self, o):
        q = self / o
        return q.floor() if isinstance(q, SymReal) else q

    def __rfloordiv__(self, o):
        q = o / self
        return q.floor() if isinstance(q, SymReal) else q

    def __mod__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return NAN
        q = self / o
        if not isinstance(q, SymReal):
            return NAN
        return self - o * q.floor()

    def __rmod__(self, o):
        o = lift(o)
        return o % self

    def __pow__(self, p, mod=None):
        if isinstance(p, _ARRAYISH):
            return NotImplemented
        p = lift(p)
        if p is NotImplemented:
            return p
        if isinstance(p, float):
            if p != p:
                return p
            raise Unsupported('pow inf')
        c = p.const()
        if c is None:
            raise Unsupported('symbolic exponent')
        if c.denominator == 1:
            n = int(c)
            if n == 0:
                return SymReal(ONE)
            r = self
            for _ in range(abs(n) - 1):
                r = r * self
            return r if n > 0 else (1.0 / r)
        if c == Fraction(1, 2):
            return self.sqrt()
        raise Unsupported('fractional power')

    def __rpow__(self, b):
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        c = as_fraction(self.num)
        if c is not None:
            return SymReal(numeral(abs(c)), self.den)
        x = self.num
        if x.decl().kind() == z3.Z3_OP_SUB and x.num_args() == 2 and x.arg(0).get_id() > x.arg(1).get_id():
            x = _neg(x)                 # |a - b| and |b - a| are the same term
        return SymReal(_ite(x >= 0, x, _neg(x)), self.den)

    # comparisons -------------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, _ARRAYISH):
            return NotImplemented
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return op is operator.ne
            return op(0.0, o)
        if self.den.eq(o.den):
            a, b = self.num, o.num
        else:
            a, b = _mul(self.num, o.den), _mul(o.num, self.den)
        fa, fb = as_fraction(a), as_fraction(b)
        if fa is not None and fb is not None:
            return op(fa, fb)
        if a.eq(b):
            return op(0, 0)
        if LIMITS:
            r = _by_limits(a, b, fa, fb, op)
            if r is not None:
                return r
        return mkbool(op(a, b))

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        r = self._cmp(o, operator.eq)
        return False if r is NotImplemented and not isinstance(o, _ARRAYISH) else r

    def __ne__(self, o):
        r = self._cmp(o, operator.ne)
        return True if r is NotImplemented and not isinstance(o, _ARRAYISH) else r

    def __hash__(self):
        return hash(('symreal', self.num.get_id(), self.den.get_id()))

    def __bool__(self):
        r = self != 0
        return bool(r)

    # conversions ---------------------------------------------------------------
    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        return float(eng().concretise(self, _caller()))

    def __int__(self):
        return int(eng().concretise(self, _caller() + ' (int)'))

    def __trunc__(self):
        return self.trunc()

    def __index__(self):
        return fork_int(self)

    def __complex__(self):
        return complex(float(self))

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import npx
        return npx.scalar_ufunc(ufunc, method, inputs, kwargs)

    def __reduce__(self):
        raise TypeError('symbolic values cannot be pickled')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # math -----------------------------------------------------------------------
    def sqrt(self):
        c = self.const()
        if c is not None and c >= 0:
            r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r * r == c:
                return SymReal(numeral(r))
            if eng().const_sqrt:
                return SymReal(numeral(Fraction(math.sqrt(c))))
        e = eng()
        s = _sign_of_positive(self.num)
        if s == 0:
            return SymReal(ZERO)
        if s < 0:
            return NAN
        key = ('sqrt', self.num.get_id(), self.den.get_id())
        hit = e.memo.get(key)
        if hit is None:
            v = e.fresh('sqrt')
            e.define(v, v > 0, _mul(v * v, self.den) == self.num)
            hit = (SymReal(v), self)
            e.memo[key] = hit
        return hit[0]

    def floor(self):
        return SymReal(z3.ToReal(self._ifloor()))

    def _ifloor(self):
        """floor as an Int term: k <= x < k+1"""
        c = self.const()
        if c is not None:
            return z3.IntVal(math.floor(c))
        e = eng()
        key = ('floor', self.num.get_id(), self.den.get_id())
        hit = e.memo.get(key)
        if hit is None:
            k = e.fresh('floor', 'int')
            e.add(z3.ToReal(k) * self.den <= self.num)
            e.add(self.num < (z3.ToReal(k) + 1) * self.den)
            hit = (k, self)
            e.memo[key] = hit
        return hit[0]

    def ceil(self):
        return -((-self).floor())

    __floor__ = floor
    __ceil__ = ceil

    def trunc(self):
        s = _sign_of_positive(self.num)
        return self.floor() if s >= 0 else self.ceil()

    def rint(self):
        """round half to even"""
        c = self.const()
        if c is not None:
            return SymReal(numeral(Fraction(round(c))))
        k = SymReal(z3.ToReal(self._ifloor()))
        d = self - k
        half = Fraction(1, 2)
        e = eng()
        lt, gt = d < half, d > half
        if bool(lt):
            return k
        if bool(gt):
            return k + 1
        even = SymReal(z3.ToReal(self._ifloor() % 2)) == 0
        return k if bool(even) else k + 1

    def __round__(self, n=None):
        if n is None or n == 0:
            return self.rint()
        p = Fraction(10) ** int(n)
        return (self * p).rint() / p

    def sign(self):
        return SymReal(_ite(self.num > 0, ONE, _ite(self.num < 0, numeral(Fraction(-1)), ZERO)))

    def exp(self):
        return ufun('exp', self)

    def log(self):
        return ufun('log', self)

    def cos(self):
        return ufun('cos', self)

    def sin(self):
        return ufun('sin', self)

    def is_integer(self):
        return self == self.floor()


class Unsupported(Abort):
    """an operation the symbolic layer does not model"""


_UF = {}


def ufun(name, x):
    """uninterpreted transcendental function with its basic contract"""
    e = eng()
    f = _UF.get(name)
    if f is None:
        f = _UF[name] = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
    v = f(z3.simplify(x.term))
    if name in ('cos', 'sin'):
        e.add(z3.And(v <= 1, v >= -1))
    if name == 'exp':
        e.add(v > 0)
    e.note(f'uninterpreted {name}')
    return SymReal(v)


def inverse_ufun(name, x):
    """argument of an uninterpreted function application, or None"""
    x = lift(x)
    if not isinstance(x, SymReal):
        return None
    t = z3.simplify(x.term)
    if z3.is_app(t) and t.decl().name() == 'uf_' + name:
        return SymReal(t.arg(0))
    return None


def ite(c, a, b):
    """symbolic if-then-else over scalars; NaN alternatives fork"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    t = lift_bool(c)
    if z3.is_true(t):
        return a
    if z3.is_false(t):
        return b
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(z3.If(t, lift_bool(a), lift_bool(b)))
    la, lb = lift(a), lift(b)
    if isinstance(la, SymReal) and isinstance(lb, SymReal):
        return SymReal(_ite(t, la.num, lb.num), _ite(t, la.den, lb.den))
    return a if bool(SymBool(t)) else b


def smin(a, b):
    return ite(lift(a) <= lift(b), a, b)


def smax(a, b):
    return ite(lift(a) >= lift(b), a, b)


def sym_sorted(vals):
    """ascending order statistics of finite scalars (memoised)"""
    vals = [lift(v) for v in vals]
    infs = [v for v in vals if isinstance(v, float)]
    if infs:
        if any(v != v for v in infs):
            raise Unsupported('sorting missing values')
        fin = [v for v in vals if not isinstance(v, float)]
        return [v for v in infs if v < 0] + (sym_sorted(fin) if fin else []) + [v for v in infs if v > 0]
    e = eng()
    consts = [v.const() for v in vals]
    if all(c is not None for c in consts):
        return [SymReal(numeral(c)) for c in sorted(consts)]
    key = ('sort',) + tuple(sorted((v.num.get_id(), v.den.get_id()) for v in vals))
    hit = e.memo.get(key)
    if hit is not None:
        return list(hit[0])
    out = sorted(vals, key=lambda v: (v.num.get_id(), v.den.get_id()))
    orig = list(vals)
    n = len(out)
    if n <= e.sort_fork_max:
        # selection by forking: concrete order on each path
        known = sorted((v for v in out if v.const() is not None), key=lambda v: v.const())
        res = list(known)
        for v in out:
            if v.const() is not None:
                continue
            lo, hi = 0, len(res)
            while lo < hi:
                mid = (lo + hi) // 2
                if bool(res[mid] > v):
                    hi = mid
                else:
                    lo = mid + 1
            res.insert(lo, v)
        out = res
    else:
        # odd-even network of min/max terms
        for r in range(n):
            for i in range(r % 2, n - 1, 2):
                a, b = out[i], out[i + 1]
                c = a <= b
                out[i], out[i + 1] = ite(c, a, b), ite(c, b, a)
    e.memo[key] = (list(out), orig)
    return list(out)


Engine.sort_fork_max = 0
Engine.const_sqrt = False


def sym_quantile(vals, q, method='linear'):
    """linear-interpolated quantile of finite scalars, q in [0,1] concrete or symbolic"""
    vals = list(vals)
    n = len(vals)
    if n == 0:
        return NAN
    if n == 1:
        return vals[0]
    s = sym_sorted(vals)
    if isinstance(q, SymReal):
        raise Unsupported('symbolic quantile level')
    pos = snap(float(q)) * (n - 1)
    lo = math.floor(pos)
    hi = min(lo + 1, n - 1)
    g = pos - lo
    if g == 0:
        return s[lo]
    if method == 'lower':
        return s[lo]
    if method == 'higher':
        return s[hi]
    return s[lo] + (s[hi] - s[lo]) * g


def sym_median(vals):
    vals = list(vals)
    n = len(vals)
    if n == 0:
        return NAN
    if n == 1:
        return vals[0]
    s = sym_sorted(vals)
    if n % 2:
        return s[n // 2]
    return (s[n // 2 - 1] + s[n // 2]) / 2


def fork_int(x, limit=64):
    """the integer value of a symbolic number that is used as an index: one path per value"""
    if not isinstance(x, SymReal):
        return int(x)
    c = x.const()
    if c is not None:
        if Fraction(c).denominator != 1:
            raise TypeError('non-integer used as an index')
        return int(c)
    for k in range(limit):
        for v in ((k,) if k == 0 else (k, -k)):
            if bool(x == v):
                return v
    raise Unsupported('symbolic index out of reach')


def sym_sum(vals):
    """balanced order-independent sum: same-denominator groups first"""
    tot = 0
    groups = {}
    infs = []
    for v in vals:
        v = lift(v)
        if isinstance(v, float):
            infs.append(v)
            continue
        groups.setdefault(v.den.get_id(), []).append(v)
    if infs:
        t = infs[0]
        for v in infs[1:]:
            t = t + v
        return t
    tot = SymReal(ZERO)
    for g in groups.values():
        t = g[0]
        for v in g[1:]:
            t = t + v
        tot = tot + t
    return tot


_ARRAYISH = (np.ndarray,)


def register_arrayish(*classes):
    global _ARRAYISH
    _ARRAYISH = _ARRAYISH + classes


def _caller():
    import sys
    f = sys._getframe(2)
    names = []
    while f is not None and len(names) < 12:
        fn = f.f_code.co_filename
        if '/rdtools/' in fn:
            return f'{fn.rsplit("/", 1)[-1]}:{f.f_code.co_name}'
        f = f.f_back
    return 'library'


numbers.Real.register(SymReal)
