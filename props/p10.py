"""P10 quantile-based selections (robust statistics, quantile clipping, insolation)"""
from .lib import *

COVERAGE = ('robust_quantile/robust_median/robust_mean, quantile_clip_filter (directly and through clip_filter) and '
            'insolation_filter executed symbolically; solver proves statistics and masks equal to their definition, '
            'invariant under unit changes and under replacing missing values by zero')
BOUNDS = 'up to 5 points (thorough 6), all non-negative real values, all missing patterns, several quantile levels'
ASSUMPTIONS = ['values non-negative (documented domain of the robust statistics)']


def q_(ctx, q):
    return Fraction(str(q)) if ctx.symbolic else q


def robust(ctx, vals, q, kind, q2=None):
    filled = [0 if missing(v) else v for v in vals]
    small = ctx.quantile(filled, q_(ctx, q)) / 1000
    keep = [v for v in vals if not missing(v) and bool(v > small)]
    if not keep:
        return NAN
    if kind == 'quantile':
        return ctx.quantile(keep, q_(ctx, q))
    if kind == 'median':
        return ctx.median(keep)
    return ctx.sum(keep) / len(keep)


def h_robust(ctx):
    from rdtools import utilities as u
    c = ctx.cfg
    idx = pd.date_range('2020', periods=c['n'], freq='D')
    x = ctx.series('x', idx, lo=0, nan=c.get('nan', False))
    x0 = freeze(x)
    f = {'quantile': u.robust_quantile, 'median': u.robust_median, 'mean': u.robust_mean}[c['kind']]
    got = f(x, c['q']) if c.get('pass', True) else f(x)
    ctx.eq(got, robust(ctx, list(x0), c['q'], c['kind']), c['kind'])
    zeros = ctx.mk_series([0.0 if missing(v) else v for v in x0], idx)
    g2 = f(zeros, c['q'])
    ctx.eq(got, g2, 'missing values and zeros give the same result')
    ctx.unchanged(x0, x, 'input')


def h_clip(ctx):
    import rdtools
    c = ctx.cfg
    idx = pd.date_range('2020', periods=c['n'], freq='D')
    x = ctx.series('x', idx, lo=0, nan=c.get('nan', False))
    kw = {} if c.get('q') is None else {'quantile': c['q']}
    q = c.get('q') or 0.98
    m = rdtools.clip_filter(x, model='quantile', **kw) if c.get('wrapper') else rdtools.quantile_clip_filter(x, **kw)
    v = robust(ctx, list(x), q, 'quantile')
    want = [False if missing(a) or missing(v) else a < v * (Fraction(99, 100) if ctx.symbolic else 0.99) for a in x]
    ctx.eq_mask(m, want, 'clip', idx)
    if c.get('scale'):
        k = ctx.real('k', 0, 1000, lo_open=True)
        m2 = rdtools.quantile_clip_filter(x * k, **kw)
        ctx.eq_mask(m2, list(m), 'unit change')


def h_insol(ctx):
    import rdtools
    c = ctx.cfg
    idx = pd.date_range('2020', periods=c['n'], freq='D')
    x = ctx.series('x', idx, nan=c.get('nan', False))
    kw = {} if c.get('q') is None else {'quantile': c['q']}
    q = 0.1 if c.get('q') is None else c['q']
    m = rdtools.filtering.insolation_filter(x, **kw)
    good = [a for a in x if not missing(a)]
    lim = ctx.quantile(good, q_(ctx, q)) if good else NAN
    ctx.eq_mask(m, [False if missing(a) or missing(lim) else a >= lim for a in x], 'insolation', idx)


def jobs(tier):
    th = tier == 'thorough'
    n = 5 if th else 4
    J = []
    for kind in ['quantile', 'median', 'mean']:
        for q in [0.99, 0.5, 0.9]:
            J.append((f'robust-{kind}-{q}', h_robust, dict(n=n, kind=kind, q=q)))
            J.append((f'robust-{kind}-{q}-nan', h_robust, dict(n=n - 1, kind=kind, q=q, nan=True)))
        if kind != 'quantile':
            J.append((f'robust-{kind}-default', h_robust, dict(n=n, kind=kind, q=0.99, nan=[0], **{'pass': False})))
    for q in [None, 0.5, 0.75, 1.0]:
        for w in [False, True]:
            J.append((f'clip-{q}-{w}', h_clip, dict(n=n, q=q, wrapper=w, nan=[1])))
    J.append(('clip-scale', h_clip, dict(n=3, scale=True)))
    J.append(('clip-scale-q', h_clip, dict(n=3, q=0.6, scale=True)))
    for q in [None, 0, 0.25, 0.5, 1]:
        J.append((f'insol-{q}', h_insol, dict(n=n + 1, q=q)))
        J.append((f'insol-{q}-nan', h_insol, dict(n=n, q=q, nan=True)))
    return J
