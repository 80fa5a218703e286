"""P14 uncertainty of the year-on-year rate, and rejection of unusable records"""
from .lib import *
from .yoy import *

COVERAGE = ('degradation_year_on_year executed symbolically with the random resampling replaced by an arbitrary resample of the '
            'year-on-year rates; solver proves interval and exceedance level equal to the percentiles of the resampled medians, '
            'ordered, nested and inside the range of the rates; the circular-block path runs with the block bootstrap replaced by '
            'arbitrary symbolic samples')
BOUNDS = '3-4 year-on-year rates, 3 resamples of each; confidence/exceedance levels enumerated'
ASSUMPTIONS = ['random number generation (which rates are drawn) is replaced by enumerated draws']

PICKS = [[[0, 1, 2], [2, 2, 2], [0, 0, 1]], [[0, 0, 0], [1, 1, 1], [2, 2, 2]], [[1, 0, 2], [0, 2, 0], [1, 2, 1]]]


def h_simple(ctx):
    import rdtools
    c = ctx.cfg
    idx = times(half_years(5))
    s = ctx.series('e', idx, lo=0.1, hi=2)
    cl = ctx.choice('conf', c['conf'])
    ep = ctx.choice('exc', c['exc'])
    picks = ctx.choice('picks', PICKS[:c['np']])
    seen = {}

    def choice(a, size=None, replace=True, p=None):
        a = list(a)
        seen['args'] = (len(a), size, replace, p)
        seen['a'] = a
        out = np.empty((3, 3), dtype=object if ctx.symbolic else float)
        for j in range(3):
            for i in range(3):
                out[i, j] = a[picks[j][i]]
        return out
    kw = {}
    if cl is not None:
        kw['confidence_level'] = cl
    if ep is not None:
        kw['exceedance_prob'] = ep
    with patched(numpy__random__choice=choice):
        rd, ci, info = rdtools.degradation_year_on_year(s, **kw)
    want, ren, use = ref_yoy(ctx, idx, list(s))
    rates = [r for _, r in want]
    n, size, rep, p = seen.get('args', (None, None, None, None))
    ctx.check(n == 3 and size is not None and size[0] == 3 and size[1] >= 1000 and rep is True and p is None,
              'each resample draws as many rates as there are, with replacement')
    meds = [ctx.median([rates[k] for k in col]) for col in picks]
    cl = 68.2 if cl is None else cl
    ep = 95 if ep is None else ep
    P = (lambda v: Fraction(str(v)) / 100) if ctx.symbolic else (lambda v: v / 100.0)
    lo, hi = ctx.quantile(meds, P(50) - P(cl) / 2), ctx.quantile(meds, P(50) + P(cl) / 2)
    ctx.eq(ci[0], lo, 'lower bound')
    ctx.eq(ci[1], hi, 'upper bound')
    ctx.check(len(ci) == 2, 'two bounds')
    ctx.eq(info['exceedance_level'], ctx.quantile(meds, P(100 - ep)), 'exceedance level')
    ctx.le(ci[0], ci[1], 'bounds ordered')
    ctx.le(ci[1], ctx.maxi(rates), 'inside the range of the rates')
    ctx.le(ctx.mini(rates), ci[0], 'inside the range of the rates')
    ctx.eq(rd, ctx.median(rates), 'rate does not depend on the resampling')


class FakeBoot:
    """stands for arch's CircularBlockBootstrap: yields residuals in a given order"""


def h_block(ctx):
    import rdtools
    c = ctx.cfg
    idx = times(c['idx'])
    n = len(idx)
    base = ([1, 0.98, 0.99, 0.97, 0.95, 0.96, 0.94, 0.93, 0.95] if not c.get('dyadic') else [k / 128 for k in (128, 124, 127, 125, 121, 123, 120, 119)])[:n]
    vals = [ctx.real(f'e{i}', 0.9, 1.1) if i in c['sym'] else (ctx.frac(Fraction(str(b))) if ctx.symbolic else b) for i, b in enumerate(base)]
    s = ctx.mk_series(vals, idx, 'e')
    perms = [[(i + k) % n for i in range(n)] for k in c['shift']]
    seen = {'frames': []}

    class Boot:
        def __init__(self, block, *a, seed=None, **k):
            seen['block'] = block
            seen['res'] = a[0]
            seen['seed'] = seed

        def bootstrap(self, k, **kw):
            seen['reps'] = k
            r = seen['res']
            for p in perms:
                yield ((ctx.mk_series([r.iloc[i] for i in p], r.index),), {})
    kw = {}
    if 'conf' in c:
        kw['confidence_level'] = c['conf']
    if 'exc' in c:
        kw['exceedance_prob'] = c['exc']
    if 'block' in c:
        kw['block_length'] = c['block']
    real_range = range
    with patched(arch__bootstrap__CircularBlockBootstrap=Boot):
        # keep the number of columns equal to the samples delivered
        import rdtools.bootstrap as B
        import rdtools.degradation as D
        orig = B._make_time_series_bootstrap_samples

        def fewer(*a, **k):
            seen['sample_nr'] = k.get('sample_nr')
            k['sample_nr'] = len(perms)
            return orig(*a, **k)
        with patched(rdtools__bootstrap___make_time_series_bootstrap_samples=fewer):
            rd, ci, info = rdtools.degradation_year_on_year(s, uncertainty_method='circular_block', **kw)
    want, ren, use = ref_yoy(ctx, idx, list(s))
    rates = [r for _, r in want]
    med = ctx.median(rates)
    ctx.eq(rd, med, 'rate')
    ctx.eq(info['renormalizing_factor'], ren, 'renormalising factor')
    ctx.check(seen.get('block') == c.get('block', 30), 'block length passed on')
    ctx.check(seen.get('sample_nr') is None or seen['sample_nr'] >= 100, 'enough repetitions')
    # model: linear trend over the record; residuals multiplicative; samples re-evaluated
    dpi = ctx.frac((idx[-1] - idx[0]).days, n)
    trend = [1 + ctx.div(med * i * dpi, 36500) for i in range(n)]
    norm = [ctx.div(x, ren) for x in s]
    res = [ctx.div(a, b) for a, b in zip(norm, trend)]
    ms = []
    for p in perms:
        sample = [trend[i] * res[p[i]] for i in range(n)]
        w, _, _ = ref_yoy(ctx, idx, sample, False)
        ms.append(ctx.median([r for _, r in w]))
    b = list(info['bootstrap_rates'])
    for i, (x, y) in enumerate(zip(b, ms)):
        ctx.eq(x, y, f'bootstrap rate {i}')
    P = (lambda v: Fraction(str(v)) / 100) if ctx.symbolic else (lambda v: v / 100.0)
    cl, ep = c.get('conf', 68.2), c.get('exc', 95)
    ctx.eq(ci[0], ctx.quantile(b, P(50) - P(cl) / 2), 'lower bound')
    ctx.eq(ci[1], ctx.quantile(b, P(50) + P(cl) / 2), 'upper bound')
    ctx.eq(info['exceedance_level'], ctx.quantile(b, P(100 - ep)), 'exceedance level')
    ctx.le(ci[0], ci[1], 'ordered')


def h_guard(ctx):
    """fewer than two years of data, irregular or too short for the blocks: rejected"""
    import rdtools
    c = ctx.cfg
    idx = pd.date_range(c['start'], periods=c['n'], freq=c['freq'])
    vals = [ctx.frac(1) if ctx.symbolic else 1.0] * len(idx)
    for i in (0, 1):
        vals[i] = ctx.real(f'e{i}', 0.5, 2)
    s = ctx.mk_series(vals, idx)
    for m in c['methods']:
        f = lambda: rdtools.degradation_year_on_year(s, uncertainty_method=m, recenter=False)
        if c['ok']:
            raised, _ = ctx.raises(ValueError, f)
            ctx.check(not raised, f'{m}: two years accepted')
        else:
            ctx.expect_raises(ValueError, f, f'{m}: less than two years')


def h_block_guard(ctx):
    import rdtools
    s = ctx.series('e', times(half_years(6)), lo=0.1, hi=2)
    f = lambda x, b: (lambda: rdtools.degradation_year_on_year(x, uncertainty_method='circular_block', block_length=b))
    ctx.expect_raises(ValueError, f(s, 3), 'block longer than a third')
    ctx.expect_raises(ValueError, lambda: rdtools.degradation_year_on_year(s, uncertainty_method='circular_block'), 'default block too long')
    irr = ctx.mk_series(list(s), pd.DatetimeIndex(['2012-01-01', '2012-02-11', '2013-01-01', '2013-02-13', '2014-01-01', '2014-06-01']))
    ctx.expect_raises(ValueError, f(irr, 1), 'irregular record')


def jobs(tier):
    th = tier == 'thorough'
    J = [('simple-levels', h_simple, dict(conf=[68.2, 95, 50], exc=[95, 50, 90], np=1)),
         ('simple-default', h_simple, dict(conf=[None], exc=[None], np=3)),
         ('simple-extreme', h_simple, dict(conf=[0, 100], exc=[0, 100], np=3)),
         ('block', h_block, dict(idx=half_years(6), shift=[0, 2], block=1, sym=[0], sort_fork_max=9)),
         ('block-2', h_block, dict(idx=lambda: pd.date_range('2012-01-01', periods=8, freq='183D'), shift=[1], block=2, conf=90, exc=80, sym=[3], dyadic=True, sort_fork_max=9)),
         ('block-quarter', h_block, dict(idx=lambda: pd.date_range('2012-01-01', periods=9, freq='QS'), shift=[0, 4], block=3, conf=50, sym=[8], sort_fork_max=9)),
         ('block-guard', h_block_guard, {})]
    for nm, st, n, fr, ok in [('month-24', '2012-01-01', 24, 'MS', True), ('month-23', '2012-01-01', 23, 'MS', False),
                              ('day-731', '2012-01-01', 731, 'D', True), ('day-730', '2012-01-01', 730, 'D', False),
                              ('day-730-noleap', '2013-01-01', 730, 'D', True), ('day-729-noleap', '2013-01-01', 729, 'D', False),
                              ('week-104', '2013-01-01', 104, '7D', False), ('week-105', '2013-01-01', 105, '7D', True),
                              ('half-3', '2012-01-01', 3, '6MS', False), ('half-4', '2012-01-01', 4, '6MS', True)]:
        J.append((f'guard-{nm}', h_guard, dict(start=st, n=n, freq=fr, ok=ok, methods=[None] if n > 100 else [None, 'none'])))
    return J
