"""Reference for the stochastic rate and recovery soiling estimate, from its documentation"""
from .lib import *

DAY = pd.Timedelta('1D')


def P(ctx):
    return (lambda v: Fraction(str(v)) / 100) if ctx.symbolic else (lambda v: v / 100.0)


def exact(ctx, v):
    return ctx.frac(Fraction(str(v))) if ctx.symbolic else float(v)


class Theil:
    """stands for scipy's theilslopes: an arbitrary symbolic line per interval (low <= slope <= high),
    identified by the first day number it is fitted to; remembers what it was given"""

    def __init__(self, ctx, cfg=None, concrete=None):
        self.ctx, self.calls, self.fits, self.concrete = ctx, {}, {}, concrete or {}

    def line(self, key):
        ctx = self.ctx
        if key not in self.fits:
            if key in self.concrete:
                self.fits[key] = tuple(exact(ctx, v) for v in self.concrete[key])
            else:
                lo = ctx.fresh(f'lo{key}', -0.02, 0.01)
                s = ctx.fresh(f'sl{key}', -0.02, 0.01)
                hi = ctx.fresh(f'hi{key}', -0.02, 0.02)
                b = ctx.fresh(f'b{key}', 0.5, 1.2)
                ctx.assume(ctx.And(lo <= s, s <= hi))
                self.fits[key] = (s, b, lo, hi)
        return self.fits[key]

    def __call__(self, y, x=None, alpha=0.95, **k):
        x = [int(v) for v in x]
        self.calls[x[0]] = (list(y), x, alpha)
        return self.line(x[0])


def monte_ref(ctx, iv, method, t, z):
    """one realisation. iv: list of dicts low, high, length, valid, recovery (None at the last valid interval).
    t: position of every uniform draw inside its limits, z: every normal draw in units of its deviation"""
    u = lambda a, b: a + (b - a) * t
    slope = [u(v['low'], v['high']) for v in iv]
    n = len(iv)
    start = [None] * n
    end = [None] * n
    if method == 'perfect_clean':
        return [1] * n, slope
    cur = 1
    for k in range(n):
        if not iv[k]['valid']:
            continue
        start[k] = cur
        end[k] = cur + slope[k] * iv[k]['length']
        if method == 'half_norm_clean':
            rec = 1 if iv[k]['recovery'] is None else iv[k]['recovery']
            x = ctx.mini([ctx.maxi([end[k] + rec, 0]), 1])
            cur = 1 - (1 - x) * abs(z) * ctx.frac(1, 3)
        else:
            cur = u(end[k], 1)
    k = 0
    while k < n:
        if iv[k]['valid']:
            k += 1
            continue
        j = k
        while j < n and not iv[j]['valid']:
            j += 1
        low = end[k - 1] if k > 0 else 1
        high = start[j] if j < n else 1
        for q in range(k, j):
            start[q] = u(low, high)
        k = j
    return start, slope
