"""Reference models and input builders shared by the harnesses.  Everything here
is written against the documented behaviour, in plain Python over lists; it never
calls the code under test."""
from fractions import Fraction
import numpy as np
import pandas as pd

H = 3600 * 10 ** 9
NAN = float('nan')


def stamps(start, gaps, unit='1h', tz=None):
    """DatetimeIndex from a start and a list of gaps (multiples of unit)"""
    t = pd.Timestamp(start, tz=tz)
    u = pd.Timedelta(unit)
    out = [t]
    for g in gaps:
        t = t + g * u
        out.append(t)
    return pd.DatetimeIndex(out)


def ns(index):
    return [int(t.value) for t in index]


def median_int(xs):
    xs = sorted(xs)
    n = len(xs)
    if n == 0:
        return None
    if n % 2:
        return Fraction(xs[n // 2])
    return Fraction(xs[n // 2 - 1] + xs[n // 2], 2)


def missing(x):
    return isinstance(x, (float, np.floating)) and x != x


def ref_interp(ctx, t, v, targets, max_ns=None):
    """linear interpolation at `targets`, NaN inside gaps longer than max_ns and
    outside the range of valid points; valid points themselves are returned exactly"""
    good = [(a, b) for a, b in zip(t, v) if not missing(b)]
    if max_ns is None:
        gaps = [good[i + 1][0] - good[i][0] for i in range(len(good) - 1)]
        m = median_int(gaps)
        max_ns = None if m is None else 2 * m
    out = []
    for x in targets:
        r = NAN
        if max_ns is not None:
            for i, (a, va) in enumerate(good):
                if a == x:
                    r = va
                    break
                if i + 1 < len(good) and a < x < good[i + 1][0]:
                    b, vb = good[i + 1]
                    if b - a <= max_ns:
                        w = ctx.frac(x - a, b - a)
                        r = va + (vb - va) * w
                    break
        out.append(r)
    return out


def ref_energy(ctx, t, v, step_ns, max_ns, power_type, edges=None):
    """energy (Wh) on the right-labelled grid t[0]+k*step_ns.

    Documented semantics: rectangular (right-labelled) or trapezoidal
    (instantaneous) sum; pieces lying in a gap between valid measurements longer
    than max_ns are left out; intervals with nothing left, or ending in a gap of
    the original time stamps longer than max_ns, are NaN."""
    tsteps = [t[i + 1] - t[i] for i in range(len(t) - 1)]
    med = median_int(tsteps)
    if max_ns is None:
        max_ns = med
    if step_ns is None:
        step_ns = int(med)
    t_orig = list(t)
    if step_ns <= med:
        k = (t[-1] - t[0]) // step_ns
        grid = [t[0] + i * step_ns for i in range(k + 1)]
        v = ref_interp(ctx, t, v, grid, max_ns)
        t = grid
    if edges is None:
        edges = [t[0]]
        while edges[-1] < t[-1]:
            edges.append(edges[-1] + step_ns)
    good = [(a, b) for a, b in zip(t, v) if not missing(b)]
    cuts = sorted(set(t) | set(edges))
    out_t, out_v = [], []

    def nxt(x):
        for i, (a, _) in enumerate(good):
            if a >= x:
                return i
        return None

    lead = bool(good) and good[0][0] != t[0]     # leading measurements missing
    def val_right(x):
        i = nxt(x)
        return None if i is None else good[i][1]

    def val_inst(x):
        """trapezoid node value at cut x"""
        i = nxt(x)
        if i is None:
            return good[-1][1] if good else NAN   # trailing cut points hold the last value
        if good[i][0] == x or i == 0:
            return good[i][1]
        (a, va), (b, vb) = good[i - 1], good[i]
        return va + (vb - va) * ctx.frac(x - a, b - a)

    for k in range(1, len(edges)):
        lo, hi = edges[k - 1], edges[k]
        inside = [c for c in cuts if lo <= c <= hi]
        parts = []
        for a, b in zip(inside[:-1], inside[1:]):
            dt = ctx.frac(b - a, H)
            if power_type == 'right_labeled':
                # measurements end at the last stamp: later cut points carry nothing
                if in_gap(good, b, max_ns, lead, True):
                    continue
                parts.append(val_right(b) * dt)
            else:
                if in_gap(good, b, max_ns, lead, True):
                    continue
                parts.append((val_inst(a) + val_inst(b)) * dt * ctx.frac(1, 2))
        e = NAN if not parts else ctx.sum(parts)
        # time stamps of the original record around this label
        j = [i for i in range(len(t_orig)) if t_orig[i] >= hi]
        if j and j[0] >= 1 and t_orig[j[0]] - t_orig[j[0] - 1] > max_ns:
            e = NAN
        out_t.append(hi)
        out_v.append(e)
    return out_t, out_v


def in_gap(good, x, max_ns, lead, tail):
    """is time x at or inside a too-long gap (the stamp that ends the gap included)?"""
    idx = [i for i, (a, _) in enumerate(good) if a >= x]
    if not good:
        return True              # nothing measured at all
    if not idx:
        return tail              # nothing measured at or after x
    i = idx[0]
    if i == 0:
        return lead
    return good[i][0] - good[i - 1][0] > max_ns


def freeze(x):
    return x.copy(deep=True)


class patched:
    """replace library functions (given as 'module.attr') by stand-ins, wherever rdtools bound them"""

    def __init__(self, **repl):
        self.repl = {k.replace('__', '.'): v for k, v in repl.items()}

    def __enter__(self):
        import importlib
        import sys
        self.undo = []
        for name, new in self.repl.items():
            mod, attr = name.rsplit('.', 1)
            m = importlib.import_module(mod)
            if not hasattr(m, attr):
                continue
            old = getattr(m, attr)
            for k, x in list(sys.modules.items()):
                if (k == mod or k == 'rdtools' or k.startswith('rdtools.')) and x is not None:
                    for a, v in list(vars(x).items()):
                        if v is old:
                            setattr(x, a, new)
                            self.undo.append((x, a, old))
        return self

    def __exit__(self, *a):
        for x, n, old in self.undo:
            setattr(x, n, old)
        return False
