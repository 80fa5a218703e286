"""Harness contexts.  The same harness function runs in two modes:

* SymCtx     - inputs are symbolic, `check`/`eq`/... become solver obligations;
* ReplayCtx  - inputs are the recorded concrete values, the plain (unpatched)
               rdtools runs on them and the same checks are evaluated on floats.
"""
import math
from fractions import Fraction

import numpy as np
import pandas as pd

RTOL = 1e-7
NEAR = Fraction(1, 10**10)      # rounding of concrete sub-results


class _Common:
    symbolic = False

    # structured inputs ------------------------------------------------------
    def series(self, name, index, lo=None, hi=None, nan=False, lo_open=False, series_name=None,
               values=None):
        """Series with one fresh real per index entry.  nan: False | True (every
        entry may be missing) | iterable of positions that may be missing."""
        vals = []
        for i in range(len(index)):
            may = nan if isinstance(nan, bool) else (i in nan)
            if values is not None and values[i] is not None:
                vals.append(values[i])
            else:
                vals.append(self.real(f'{name}{i}', lo, hi, nan=may, lo_open=lo_open))
        return self.mk_series(vals, index, series_name if series_name is not None else name)

    def eq_series(self, got, want_vals, label, index=None):
        """elementwise equality of a Series with expected scalars (NaN == NaN)"""
        vals = list(got)
        if not self.check(len(vals) == len(want_vals), f'{label}: length {len(vals)} != {len(want_vals)}'):
            return
        if index is not None:
            self.check(list(got.index) == list(index), f'{label}: index')
        for i, (a, b) in enumerate(zip(vals, want_vals)):
            self.eq(a, b, f'{label}[{i}]')

    def eq_mask(self, got, want, label, index=None):
        vals = list(got)
        if not self.check(len(vals) == len(want), f'{label}: length {len(vals)} != {len(want)}'):
            return
        if index is not None:
            self.check(list(got.index) == list(index), f'{label}: index')
        for i, (a, b) in enumerate(zip(vals, want)):
            self.iff(a, b, f'{label}[{i}]')

    def isnan(self, x):
        return self.missing(x)

    def raises(self, exc, fn, *a, **k):
        """(True, exception) when fn raises exc, (False, result) otherwise"""
        try:
            return False, fn(*a, **k)
        except exc as e:
            self.raised = True      # the model of this path is replayed on the plain code
            return True, e

    def expect_raises(self, exc, fn, label, *a, **k):
        r, _ = self.raises(exc, fn, *a, **k)
        self.check(r, f'{label}: expected {exc.__name__ if isinstance(exc, type) else exc}')

    def unchanged(self, before, after, label):
        """frozen copy of an input equals the input after the call"""
        self.check(type(before) is type(after), f'{label}: type')
        if isinstance(before, pd.DataFrame):
            self.check(list(before.columns) == list(after.columns), f'{label}: columns')
            for c in before.columns:
                self.unchanged(before[c], after[c], f'{label}.{c}')
            return
        self.check(before.name == after.name, f'{label}: name changed')
        self.check(str(before.dtype) == str(after.dtype), f'{label}: dtype changed')
        self.check(len(before) == len(after) and list(before.index) == list(after.index)
                   and before.index.name == after.index.name
                   and getattr(before.index, 'freq', None) == getattr(after.index, 'freq', None),
                   f'{label}: index changed')
        for i, (a, b) in enumerate(zip(before, after)):
            if isinstance(a, (bool, np.bool_)) or type(a).__name__ == 'SymBool':
                self.iff(a, b, f'{label}: value {i} changed')
            else:
                self.eq(a, b, f'{label}: value {i} changed')


class ReplayViolation(Exception):
    pass


class ReplayCtx(_Common):
    symbolic = False

    def __init__(self, cfg, values, tier='quick'):
        self.cfg = cfg
        self.tier = tier
        self.values = values
        self.violations = []
        self.observed = []
        self.assumption_failed = None
        self.nch = 0

    def real(self, name, lo=None, hi=None, nan=False, lo_open=False, hi_open=False):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0.0)
            if lo_open and lo is not None:
                v = (lo + hi) / 2 if hi is not None else lo + 1.0
        if isinstance(v, str):
            v = float('nan')
        v = float(v)
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def integer(self, name, lo, hi):
        v = self.values.get(name, lo)
        return int(v)

    def boolean(self, name):
        return bool(self.values.get(name, False))

    def choice(self, name, options):
        options = list(options)
        k = int(self.values.get('choice:' + name, 0))
        return options[k if k < len(options) else 0]

    def mk_series(self, vals, index, name=None):
        return pd.Series([float(v) for v in vals], index=index, name=name, dtype=float)

    def mk_mask(self, vals, index, name=None):
        return pd.Series([bool(v) for v in vals], index=index, name=name, dtype=bool)

    def assume(self, cond):
        if not bool(cond):
            self.assumption_failed = True
            raise AssumptionFailed()

    def missing(self, x):
        return x is None or (isinstance(x, (float, np.floating)) and x != x) or x is pd.NaT or x is pd.NA

    def observe(self, label, v):
        try:
            f = float(v)
        except (TypeError, ValueError):
            return
        self.observed.append((label, f))

    def check(self, cond, label):
        c = bool(cond)
        self.observed.append((label, c))
        if not c:
            self.violations.append(label)
        return c

    def _close(self, a, b):
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= RTOL * max(1e-3, abs(a), abs(b))

    def eq(self, a, b, label):
        ma, mb = self.missing(a), self.missing(b)
        if ma or mb:
            ok = ma and mb
        else:
            a, b = float(a), float(b)
            ok = self._close(a, b)
        self.observed.append((label, float('nan') if ma else float(a)))
        if not ok:
            self.violations.append(f'{label}: got {a!r}, expected {b!r}')
        return ok

    def iff(self, a, b, label):
        return self.check(bool(a) == bool(b) if not self.missing(a) else False, label)

    def le(self, a, b, label):
        if self.missing(a) or self.missing(b):
            ok = False
        else:
            a, b = float(a), float(b)
            ok = a <= b or self._close(a, b)
        if not ok:
            self.violations.append(f'{label}: {a!r} <= {b!r} fails')
        return ok

    def lt(self, a, b, label):
        return self.check((not self.missing(a)) and (not self.missing(b)) and float(a) < float(b), label)

    # logical connectives usable in both modes
    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not bool(x)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def median(self, vals):
        return float(np.median(np.asarray(vals, dtype=float))) if len(vals) else float('nan')

    def quantile(self, vals, q):
        return float(np.quantile(np.asarray(vals, dtype=float), q)) if len(vals) else float('nan')

    def sort(self, vals):
        return sorted(float(v) for v in vals)

    def sqrt(self, x):
        x = float(x)
        return math.sqrt(x) if x >= 0 else float('nan')

    def unlog(self, x):
        return math.exp(x)

    def maxi(self, vals):
        return max(float(v) for v in vals)

    def mini(self, vals):
        return min(float(v) for v in vals)

    def div(self, a, b):
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))

    def sum(self, vals):
        return float(math.fsum(float(v) for v in vals))

    def frac(self, p, q=1):
        return p / q

    def fresh(self, name, lo=None, hi=None, **k):
        """stubbed library result"""
        return self.real('stub:' + name, lo, hi, **k)


class AssumptionFailed(Exception):
    pass


def make_symctx():
    """deferred: only imported in symbolic processes"""
    import z3
    from . import core, arrays
    from .core import SymReal, SymBool, is_missing, is_sym, lift, lift_bool, mkbool

    class SymCtx(_Common):
        symbolic = True

        def __init__(self, engine, cfg, tier, sink):
            self.e = engine
            self.cfg = cfg
            self.tier = tier
            self.sink = sink           # runner callbacks
            self.choices = {}
            self.nans = {}
            self.vars = {}             # name -> z3 const
            self.observed = []
            self.nchecks = 0
            core.LIMITS.clear()

        # inputs ---------------------------------------------------------------
        def real(self, name, lo=None, hi=None, nan=False, lo_open=False, hi_open=False):
            if name in self.vars or name in self.nans:
                raise RuntimeError(f'duplicate input {name}')
            if nan:
                if self.e.choose(2) == 1:
                    self.nans[name] = True
                    return float('nan')
            v = z3.Real(name)
            self.vars[name] = v
            if lo is not None:
                lo_t = lift(lo)
                self.e.add(core.lift_bool(SymReal(v) > lo_t if lo_open else SymReal(v) >= lo_t))
            if hi is not None:
                hi_t = lift(hi)
                self.e.add(core.lift_bool(SymReal(v) < hi_t if hi_open else SymReal(v) <= hi_t))
            if (lo is None or isinstance(lo, (int, float, Fraction))) and (hi is None or isinstance(hi, (int, float, Fraction))):
                core.LIMITS[v.get_id()] = (None if lo is None else lift(lo).const(), None if hi is None else lift(hi).const())
            return SymReal(v)

        def integer(self, name, lo, hi):
            k = self.e.choose(hi - lo + 1) + lo
            self.choices[name] = k
            return k

        def boolean(self, name):
            v = z3.Bool(name)
            self.vars[name] = v
            return SymBool(v)

        def choice(self, name, options):
            options = list(options)
            k = self.e.choose(len(options))
            self.choices['choice:' + name] = k
            return options[k]

        def mk_series(self, vals, index, name=None):
            if any(is_sym(v) for v in vals):
                return pd.Series(arrays.SymArray(arrays.obj1d(arrays.scalar(v) for v in vals)),
                                 index=index, name=name)
            return pd.Series([float(v) for v in vals], index=index, name=name, dtype=float)

        def mk_mask(self, vals, index, name=None):
            return pd.Series(arrays.box_bool(list(vals)), index=index, name=name)

        def fresh(self, name, lo=None, hi=None, **k):
            return self.real('stub:' + name, lo, hi, **k)

        def assume(self, cond):
            self.e.assume(cond if not isinstance(cond, SymBool) else cond.t)

        def missing(self, x):
            return is_missing(x)

        def observe(self, label, v):
            if isinstance(v, SymReal) or isinstance(v, (float, int, np.floating, np.integer)):
                self.observed.append((label, v))

        # obligations --------------------------------------------------------------
        def check(self, cond, label):
            self.nchecks += 1
            self.observed.append((label, cond))
            t = lift_bool(cond)
            return self.sink.obligation(self, t, None, label)

        def _pair(self, a, b):
            a, b = lift(a), lift(b)
            return a, b

        def eq(self, a, b, label):
            self.nchecks += 1
            ma, mb = is_missing(a), is_missing(b)
            self.observed.append((label, a))
            if ma or mb:
                return self.sink.obligation(self, core.TRUE if ma and mb else core.FALSE, None, label)
            la, lb = self._pair(a, b)
            if isinstance(la, float) or isinstance(lb, float):
                ok = isinstance(la, float) and isinstance(lb, float) and la == lb
                return self.sink.obligation(self, core.TRUE if ok else core.FALSE, None, label)
            d = la - lb
            if core.is_const(la.num) and core.is_const(lb.num) and core.is_const(la.den) and core.is_const(lb.den):
                t = core.TRUE if la.const() == lb.const() else core.FALSE
                if core.z3.is_false(t) and abs(la.const() - lb.const()) <= Fraction(1, 10**9) * (
                        abs(la.const()) + abs(lb.const())):
                    t = core.TRUE          # both sides concrete floats: rounding only
            else:
                t = la.num * lb.den == lb.num * la.den
            mag = abs(la) + abs(lb)
            far = lift_bool(abs(d) > mag * Fraction(1, 1000) + Fraction(1, 1000))
            return self.sink.obligation(self, t, far, label,
                                        lambda: lift_bool(abs(d) <= mag * NEAR + NEAR))

        def iff(self, a, b, label):
            if is_missing(a):
                return self.check(False, label + ' (missing)')
            ta, tb = lift_bool(a), lift_bool(b)
            if ta.eq(tb):
                return self.check(True, label)
            return self.check(mkbool(z3.simplify(ta == tb)), label)

        def le(self, a, b, label):
            self.nchecks += 1
            if is_missing(a) or is_missing(b):
                return self.sink.obligation(self, core.FALSE, None, label)
            la, lb = self._pair(a, b)
            if isinstance(la, float) or isinstance(lb, float):
                fa = la if isinstance(la, float) else 0.0
                fb = lb if isinstance(lb, float) else 0.0
                return self.sink.obligation(self, core.TRUE if fa <= fb else core.FALSE, None, label)
            mag = abs(la) + abs(lb)
            far = lift_bool(la > lb + mag * Fraction(1, 1000) + Fraction(1, 1000))
            return self.sink.obligation(self, lift_bool(la <= lb), far, label,
                                        lambda: lift_bool(la <= lb + mag * NEAR + NEAR))

        def lt(self, a, b, label):
            if is_missing(a) or is_missing(b):
                return self.check(False, label)
            return self.check(mkbool(lift_bool(lift(a) < b)) if is_sym(a) or is_sym(b) else a < b, label)

        def And(self, *xs):
            t = core.TRUE
            for x in xs:
                t = core.b_and(t, lift_bool(x))
            return mkbool(t)

        def Or(self, *xs):
            t = core.FALSE
            for x in xs:
                t = core.b_or(t, lift_bool(x))
            return mkbool(t)

        def Not(self, x):
            return mkbool(core.b_not(lift_bool(x)))

        def Implies(self, a, b):
            return self.Or(self.Not(a), b)

        def ite(self, c, a, b):
            return core.ite(c, a, b)

        def median(self, vals):
            return core.sym_median(list(vals))

        def quantile(self, vals, q):
            return core.sym_quantile(list(vals), q)

        def sort(self, vals):
            return core.sym_sorted(list(vals))

        def sqrt(self, x):
            x = lift(x)
            return x.sqrt()

        def unlog(self, x):
            """the number whose logarithm x is"""
            c = core.lift(x)
            r = core.inverse_ufun('log', x)
            if r is not None:
                return r
            k = c.const() if hasattr(c, 'const') else None
            return math.exp(float(k)) if k is not None else core.ufun('exp', c)

        def maxi(self, vals):
            vals = list(vals)
            r = vals[0]
            for v in vals[1:]:
                r = core.smax(r, v)
            return r

        def mini(self, vals):
            vals = list(vals)
            r = vals[0]
            for v in vals[1:]:
                r = core.smin(r, v)
            return r

        def div(self, a, b):
            return arrays.sop(lambda x, y: x / y, a, b)

        def sum(self, vals):
            return core.sym_sum(list(vals))

        def frac(self, p, q=1):
            return SymReal(core.numeral(Fraction(p) / Fraction(q)))

        # -- assignment of a model ---------------------------------------------
        def assignment(self, model):
            out = {}
            for n, v in self.vars.items():
                if z3.is_bool(v):
                    out[n] = bool(z3.is_true(model.eval(v, model_completion=True)))
                else:
                    out[n] = float(core.model_fraction(model, v))
            for n in self.nans:
                out[n] = 'nan'
            out.update(self.choices)
            return out

    return SymCtx
