"""P17 Monte Carlo soiling profiles, soiling ratio and its uncertainty"""
from .srr import *

COVERAGE = ('soiling_srr (SRRAnalysis) executed symbolically from the interval fits on: every interval gets an arbitrary symbolic line '
            '(slope, intercept, slope limits), insolation is symbolic, random draws are replaced by fixed positions inside their (symbolic) '
            'limits; solver proves every realised profile, the insolation-weighted ratio, percentiles and exceedance level equal to the '
            'documented method, for every cleaning assumption')
BOUNDS = '2-4 soiling intervals of 3-5 days, all slopes in [-2,1] % per day, 1-3 realisations'
ASSUMPTIONS = ['Theil-Sen fit (scipy) returns any line with low <= slope <= high',
               'random draws stand at enumerated positions inside their limits']


def h(ctx):
    from rdtools import soiling
    c = ctx.cfg
    runs = c['runs']                       # lengths in days of the intervals, split by rain
    n = sum(runs)
    idx = pd.date_range('2020-02-26', periods=n, freq='D', tz=c.get('tz'))
    first = [sum(runs[:k]) for k in range(len(runs))]
    pm = ctx.mk_series([1.0] * n, idx, 'pm')
    rain = pd.Series([1.0 if i in first[1:] else 0.0 for i in range(n)], idx)
    if c.get('insol') == 'sym':
        insol = ctx.series('w', idx, lo=1, hi=3, nan=c.get('inan', False))
    else:
        insol = ctx.mk_series([ctx.frac(2 + i % 3) if ctx.symbolic else 2.0 + i % 3 for i in range(n)], idx)
    keep = freeze(pm), freeze(insol)
    th = Theil(ctx, concrete=c.get('lines'))
    T, z, reps, method = c['t'], c['z'], c['reps'], c['method']
    st = dict(rep=-1)

    def uniform(low=0.0, high=1.0, size=None):
        if hasattr(low, '__len__'):
            st['rep'] += 1
        return low + (high - low) * exact(ctx, T[min(max(st['rep'], 0), len(T) - 1)])

    def normal(loc=0.0, scale=1.0, size=None):
        return loc + scale * exact(ctx, z)
    kw = dict(clean_criterion='precip', reps=reps, method=method, min_interval_length=c.get('minlen', 2), trim=c.get('trim', False),
              precipitation_daily=rain, day_scale=3, clean_threshold=0.1)
    for k in ('confidence_level', 'exceedance_prob', 'max_relative_slope_error'):
        if k in c:
            kw[k] = c[k]
    with patched(scipy__stats__mstats__theilslopes=th, numpy__random__uniform=uniform, numpy__random__normal=normal):
        try:
            sr, ci, info = soiling.soiling_srr(pm, insol, **kw)
        except soiling.NoValidIntervalError:
            sr = None
    # intervals
    iv = []
    minlen, maxerr = c.get('minlen', 2), c.get('max_relative_slope_error', 500.0)
    order = list(range(len(runs)))[1:-1] if c.get('trim') else list(range(len(runs)))
    for k in order:
        d = dict(first=first[k], days=runs[k], length=runs[k] - 1, valid=runs[k] > minlen, low=0, high=0, slope=0)
        if d['valid']:
            s, b, lo, hi = th.line(first[k])
            hi = ctx.mini([hi, 0])
            d['s0'], d['e0'] = s * first[k] + b, s * (first[k] + runs[k] - 1) + b
            bad = ctx.Or(s > 0, ctx.And(s < 0, (hi - lo) * 100 >= -s * maxerr), ctx.And(s == 0, hi - lo > 0))
            if bool(bad):
                d['valid'] = False
            else:
                d.update(low=lo, high=hi, slope=s)
        iv.append(d)
    val = [k for k in range(len(iv)) if iv[k]['valid']]
    if not val:
        ctx.check(sr is None, 'no valid interval is an error')
        return
    ctx.check(sr is not None, 'result returned')
    if sr is None:
        return
    clip = lambda x: ctx.mini([ctx.maxi([x, 0]), 1])
    for a, b in zip(val, val[1:] + [None]):
        iv[a]['recovery'] = None if b is None else clip(clip(iv[b]['s0']) - iv[a]['e0'])
    prof = info['stochastic_soiling_profiles']
    ctx.check(len(prof) == reps, 'one profile per realisation')
    days = [d for v in iv for d in range(v['first'], v['first'] + v['days'])]
    ratios = []
    for r, p in enumerate(prof):
        ctx.check(list(p.index) == [idx[d] for d in days], 'profile covers the analysed days')
        tr = exact(ctx, T[min(r, len(T) - 1)] if st['rep'] == reps - 1 else T[0])
        if st['rep'] not in (reps - 1, -1):
            tr = None
        if tr is not None:
            start, slope = monte_ref(ctx, iv, method, tr, exact(ctx, z))
            want = [start[k] + slope[k] * q for k, v in enumerate(iv) for q in range(v['days'])]
            for d, a, b in zip(days, list(p), want):
                ctx.eq(a, b, f'profile {r} day {d}')
        w = [insol.iloc[d] for d in days]
        ks = [k for k in range(len(days))]
        wk = [0 if missing(x) else x for x in w]
        ratios.append(ctx.div(ctx.sum([p.iloc[k] * wk[k] for k in ks]), ctx.sum(wk)))
        if method != 'half_norm_clean' or abs(z) <= 3:
            for k, v in enumerate(iv):
                ctx.le(p.iloc[days.index(v['first'])], 1, 'never above clean')
    q = P(ctx)
    cl, ep = c.get('confidence_level', 68.2), c.get('exceedance_prob', 95.0)
    ctx.eq(sr, ctx.median(ratios), 'soiling ratio is the median of the insolation-weighted ratios')
    ctx.check(len(ci) == 2, 'two bounds')
    ctx.eq(ci[0], ctx.quantile(ratios, q(50) - q(cl) / 2), 'lower bound')
    ctx.eq(ci[1], ctx.quantile(ratios, q(50) + q(cl) / 2), 'upper bound')
    ctx.eq(info['exceedance_level'], ctx.quantile(ratios, q(100 - ep)), 'exceedance level')
    # soiling ratio assuming perfect cleaning, valid intervals only
    perf = info['soiling_ratio_perfect_clean']
    vd = [(v['first'] + k, 1 + v['slope'] * k) for v in iv if v['valid'] for k in range(v['days'])]
    ctx.eq_series(perf, [x for _, x in vd], 'perfect-clean ratio', idx[[d for d, _ in vd]])
    ctx.unchanged(keep[0], pm, 'performance')
    ctx.unchanged(keep[1], insol, 'insolation')


def h_bad(ctx):
    from rdtools import soiling
    idx = pd.date_range('2020-02-26', periods=9, freq='D')
    pm = ctx.mk_series([1.0] * 9, idx)
    w = ctx.series('w', idx, lo=1, hi=2)
    th = Theil(ctx, concrete={0: (-0.01, 1.0, -0.011, -0.009)})
    with patched(scipy__stats__mstats__theilslopes=th):
        for bad in (dict(method='clean'), dict(clean_criterion='rain')):
            ctx.expect_raises(ValueError, lambda: soiling.soiling_srr(pm, w, reps=1, day_scale=3, clean_threshold=0.1, min_interval_length=2, **bad), str(bad))
        for a, b, p in ((pm.drop(idx[4]), w, None), (pm, w.drop(idx[4]), None), (pm, w, pd.Series(0.0, idx[::2]))):
            ctx.expect_raises(ValueError, lambda: soiling.soiling_srr(a, b, reps=1, precipitation_daily=p), 'not daily')


def jobs(tier):
    th = tier == 'thorough'
    L = {0: (-0.01, 1.0, -0.012, -0.008), 4: (-0.005, 0.97, -0.006, -0.004), 8: (-0.01, 1.05, -0.015, -0.005),
         3: (-0.01, 1.02, -0.015, -0.005)}
    only = lambda *ks: {k: v for k, v in L.items() if k not in ks}
    J = []
    for m in ('perfect_clean', 'random_clean', 'half_norm_clean'):
        J.append((f'{m}-1', h, dict(runs=[4, 4], method=m, t=[0.25], z=-1.5, reps=1)))
        J.append((f'{m}-gap', h, dict(runs=[4, 2, 2, 4], method=m, t=[0.75], z=1.5, reps=1, lines=only(8))))
        J.append((f'{m}-edge', h, dict(runs=[2, 4, 1], method=m, t=[0.25], z=0.75, reps=1)))
        J.append((f'{m}-reps', h, dict(runs=[4, 4], method=m, t=[0.0, 0.5, 1.0], z=3, reps=3, lines=only(0), confidence_level=90, exceedance_prob=80)))
        J.append((f'{m}-trim', h, dict(runs=[3, 4, 3], method=m, t=[0.5], z=6, reps=1, trim=True, tz='America/Denver')))
        J.append((f'{m}-insol', h, dict(runs=[4, 3], method=m, t=[0.25, 1.0], z=3, reps=2, lines=only(4), insol='sym')))
        J.append((f'{m}-insol-nan', h, dict(runs=[4, 3], method=m, t=[0.25], z=-3, reps=1, lines=L, insol='sym', inan=[2, 5])))
        J.append((f'{m}-3', h, dict(runs=[4, 4, 4], method=m, t=[0.25], z=1.5, reps=1, lines=only(4, 8), max_relative_slope_error=120)))
    J.append(('invalid-first', h, dict(runs=[4, 4, 4], method='random_clean', t=[0.25], z=1.5, reps=1, lines={**L, 0: (0.01, 1, 0.005, 0.02)})))
    J.append(('invalid-mid', h, dict(runs=[4, 4, 4], method='half_norm_clean', t=[0.75], z=1.5, reps=1, lines={**only(0, 8), 4: (0.01, 1, 0.005, 0.02)})))
    J.append(('bad', h_bad, {}))
    if th:
        for m in ('perfect_clean', 'random_clean', 'half_norm_clean'):
            J.append((f'{m}-all3', h, dict(runs=[4, 4, 4], method=m, t=[0.25, 0.75], z=1.5, reps=2)))
            J.append((f'{m}-gap-all', h, dict(runs=[4, 2, 2, 4], method=m, t=[0.75], z=1.5, reps=1)))
    return J
