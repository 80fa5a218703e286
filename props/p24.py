"""P24 learned (gradient-boosted) clipping filter around an arbitrary model"""
from .lib import *

COVERAGE = ('xgboost_clip_filter (directly and through clip_filter) executed symbolically with the learned model replaced by one that returns arbitrary '
            'verdicts; symbolic readings; solver proves every feature handed to the model equal to its definition and the mask equal to the documented '
            'daily band around the readings the model flagged')
BOUNDS = '11-16 readings on 1-3 days at 1, 5, 15, 30 and 60 minutes, 1-3 of them symbolic, 3-4 arbitrary model verdicts (the others: not clipping)'
ASSUMPTIONS = ['the trained model is arbitrary: its accuracy is not judged']

FEAT = ['first_order_derivative_backward', 'first_order_derivative_forward', 'first_order_derivative_backward_rolling_avg',
        'first_order_derivative_forward_rolling_avg', 'sampling_frequency', 'mounting_config_bool', 'scaled_value', 'rolling_average', 'daily_max',
        'percent_daily_max', 'deriv_max', 'deriv_backward_rolling_stdev', 'deriv_backward_rolling_mean', 'deriv_backward_rolling_median',
        'deriv_backward_rolling_min', 'deriv_backward_rolling_max']


def ex(ctx, v):
    return ctx.frac(Fraction(str(v))) if ctx.symbolic else float(v)


def scaled(ctx, v):
    good = [x for x in v if not missing(x)]
    lo, hi = ctx.mini(good), ctx.maxi(good)
    return [NAN if missing(x) else ctx.div(x - lo, hi - lo) for x in v]


def roll(v, k, f):
    """centred window of k values (even k: one more on the left); all must be known"""
    out = []
    left = k // 2 if k % 2 else k // 2
    right = k - 1 - left
    for i in range(len(v)):
        a, b = i - left, i + right
        w = v[max(a, 0):b + 1]
        out.append(NAN if a < 0 or b >= len(v) or any(missing(x) for x in w) else f(w))
    return out


def dif(v):
    return [NAN] + [NAN if missing(v[i]) or missing(v[i - 1]) else v[i] - v[i - 1] for i in range(1, len(v))]


def fwd(v):
    """difference to the next value (unknown for the first and last reading)"""
    d = dif(v)
    return [NAN] + d[2:] + [NAN]


def features(ctx, idx, v, freq, mount):
    s = scaled(ctx, v)
    k = 5 if freq < 10 else 3 if freq < 60 else 2
    avg = roll(s, k, lambda w: ctx.div(ctx.sum(w), k))
    back = dif(s)
    days = [t.normalize() for t in idx]
    top = {}
    for d in set(days):
        g = [x for x, q in zip(s, days) if q == d and not missing(x)]
        top[d] = ctx.maxi(g) if g else NAN
    F = {}
    F['first_order_derivative_backward'] = back
    F['first_order_derivative_forward'] = fwd(s)
    F['first_order_derivative_backward_rolling_avg'] = dif(avg)
    F['first_order_derivative_forward_rolling_avg'] = fwd(avg)
    F['sampling_frequency'] = [freq] * len(s)
    F['mounting_config_bool'] = [1 if mount == 'single_axis_tracking' else 0] * len(s)
    F['scaled_value'] = s
    F['rolling_average'] = avg
    F['daily_max'] = [top[d] for d in days]
    F['percent_daily_max'] = [NAN if missing(x) else ctx.div(x, top[d] + ex(ctx, '0.00001')) for x, d in zip(s, days)]
    rng = []
    for i in range(len(s)):
        w = s[i:i + k]
        if len(w) < k or any(missing(x) for x in w):
            rng.append(NAN)
        else:
            a, b = ctx.maxi(w), ctx.mini(w)
            rng.append(NAN if bool(a + b == 0) else ctx.div((a - b) * 200, a + b))
    F['deriv_max'] = rng
    F['deriv_backward_rolling_mean'] = roll(back, k, lambda w: ctx.div(ctx.sum(w), k))
    F['deriv_backward_rolling_median'] = roll(back, k, lambda w: ctx.median(w))
    F['deriv_backward_rolling_min'] = roll(back, k, lambda w: ctx.mini(w))
    F['deriv_backward_rolling_max'] = roll(back, k, lambda w: ctx.maxi(w))

    def var(w):
        m = ctx.div(ctx.sum(w), k)
        return ctx.div(ctx.sum([(x - m) * (x - m) for x in w]), k - 1)
    F['var'] = roll(back, k, var)
    return F


def h(ctx):
    import rdtools
    from rdtools import filtering
    c = ctx.cfg
    idx = c['idx']()
    if c.get('tz'):
        idx = idx.tz_localize(c['tz'])
    n, freq = len(idx), c['freq']
    vals = [ctx.real(f'p{i}', *c.get('range', (0, 100)), nan=i in c.get('nan', ())) if i in c['sym'] else
            (NAN if c['base'][i] is None else ex(ctx, c['base'][i])) for i in range(n)]
    p = ctx.mk_series(vals, idx, c.get('name', 'p'))
    p0 = freeze(p)
    verdict = {idx[i]: f'v{i}' for i in c['verdict']}
    got = []

    class Model:
        def __init__(self, *a, **k):
            pass

        def load_model(self, *a, **k):
            pass

        def predict(self, X, *a, **k):
            got.append(X)
            return np.array([int(ctx.boolean(verdict[t])) if t in verdict else 0 for t in X.index])
    if hasattr(filtering, 'xgboost_clipping_model'):
        filtering.xgboost_clipping_model = None
    kw = {'mounting_type': c['mount']} if 'mount' in c else {}
    try:
        with patched(xgboost__XGBClassifier=Model):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if c.get('wrapper'):
                    m = rdtools.clip_filter(p, model='xgboost', **kw)
                else:
                    m = rdtools.xgboost_clip_filter(p, **kw)
    finally:
        if hasattr(filtering, 'xgboost_clipping_model'):
            filtering.xgboost_clipping_model = None
    mount = c.get('mount', 'fixed')
    # ---- the regular record the model sees
    if freq >= 5:
        grid = pd.date_range(idx[0], idx[-1], freq=f'{freq}min')
        g = ref_interp(ctx, ns(idx), list(p0), ns(grid))
        f = freq
    else:
        grid1 = pd.date_range(idx[0], idx[-1], freq=f'{freq}min')
        g1 = ref_interp(ctx, ns(idx), list(p0), ns(grid1))
        bins = {}
        for t, x in zip(grid1, g1):
            bins.setdefault(t.floor('5min'), []).append(x)
        grid = list(bins)
        g = []
        for t in grid:
            w = [x for x in bins[t] if not missing(x)]
            g.append(ctx.div(ctx.sum(w), len(w)) if w else NAN)
        f = 5
    F = features(ctx, grid, g, freq, mount)
    F['sampling_frequency'] = [f] * len(g)
    if not ctx.check(len(got) == 1 and list(got[0].columns) == FEAT, 'model gets its features in order'):
        return
    X = got[0]
    rows = [i for i in range(len(grid)) if not any(missing(F[k][i]) for k in FEAT if k != 'deriv_backward_rolling_stdev')
            and not missing(F['var'][i])]
    if not ctx.check(list(X.index) == [grid[i] for i in rows], 'model sees the rows with complete features'):
        return
    if c.get('features', True):
        for r, i in enumerate(rows):
            for k in FEAT:
                v = X[k].iloc[r]
                if k == 'deriv_backward_rolling_stdev':
                    if i in c.get('std', ()):
                        ctx.eq(v * v, F['var'][i], f'{k}[{i}]')
                else:
                    ctx.eq(v, F[k][i], f'{k}[{i}]')
    # ---- verdict carried to every reading, then the daily band
    seen = [grid[i] for i in rows]
    flag = []
    for t in idx:
        last = [u for u in seen if u <= t]
        flag.append(bool(last) and last[-1] in verdict and ctx.boolean(verdict[last[-1]]))
    s = scaled(ctx, list(p0))
    days = [t.normalize() for t in idx]
    top = {d: ctx.maxi([x for x, q in zip(s, days) if q == d and not missing(x)] or [0]) for d in set(days)}
    want = []
    for i in range(n):
        band = [s[j] for j in range(n) if days[j] == days[i] and flag[j] and not missing(s[j])]
        if missing(s[i]) or not band:
            want.append(True)
            continue
        lo, hi = ctx.mini(band), ctx.maxi(band)
        if freq < 5:
            lo = ctx.maxi([lo, hi * ex(ctx, '0.96')])
        share = ex(ctx, '0.9') if freq < 5 else ex(ctx, '0.95')
        clip = ctx.And(s[i] >= lo, s[i] >= share * (top[days[i]] + ex(ctx, '0.00001')), s[i] <= hi * ex(ctx, '1.0025'), s[i] * 10 >= 1)
        want.append(ctx.Not(clip))
    ctx.eq_mask(m, want, 'mask', idx)
    ctx.unchanged(p0, p, 'readings')


def h_bad(ctx):
    import rdtools
    idx = pd.date_range('2020-06-01', periods=12, freq='h')
    p = ctx.series('p', idx)
    ctx.expect_raises(ValueError, lambda: rdtools.xgboost_clip_filter(p, mounting_type='roof'), 'mounting type')
    ctx.expect_raises(IndexError, lambda: rdtools.xgboost_clip_filter(p.iloc[::-1]), 'unsorted')
    ctx.expect_raises(Exception, lambda: rdtools.xgboost_clip_filter(p.iloc[:10]), 'too short')
    ctx.expect_raises(TypeError, lambda: rdtools.xgboost_clip_filter(ctx.mk_series(list(p), range(12))), 'no time index')


def day(freq, n, start='2020-06-01 08:00', days=1):
    def f():
        i = pd.date_range(start, periods=n, freq=freq)
        for k in range(1, days):
            i = i.append(pd.date_range(pd.Timestamp(start) + pd.Timedelta(days=k), periods=n, freq=freq))
        return i
    return f


B = [0, 20, 50, 80, 98, 99, 100, 99, 97, 60, 30, 10]


def jobs(tier):
    th = tier == 'thorough'
    J = [('15', h, dict(idx=day('15min', 12), freq=15, base=B, sym=[5, 9], verdict=[5, 6, 7], std=[5])),
         ('15-three', h, dict(idx=day('15min', 12), freq=15, base=B, sym=[4, 5, 7], range=(90, 99), verdict=[5, 6], features=False)),
         ('15-track', h, dict(idx=day('15min', 12), freq=15, base=B, sym=[8], verdict=[5, 8, 10], mount='single_axis_tracking', wrapper=True)),
         ('60', h, dict(idx=day('h', 12), freq=60, base=B, sym=[8], verdict=[4, 6, 8], std=[8])),
         ('60-mask', h, dict(idx=day('h', 12), freq=60, base=B, sym=[4, 8], range=(90, 100), verdict=[4, 6, 8], features=False)),
         ('30', h, dict(idx=day('30min', 12), freq=30, base=B, sym=[3], verdict=[2, 3, 6])),
         ('5', h, dict(idx=day('5min', 14), freq=5, base=B + [5, 2], sym=[7], verdict=[5, 7, 11])),
         ('edge', h, dict(idx=day('15min', 12), freq=15, base=B[::-1][:6] + [100, 99, 98, 97, 100, 99], sym=[10, 11], range=(90, 99), verdict=[9, 10], features=False)),
         ('tz', h, dict(idx=day('15min', 12, '2020-06-01 22:30'), freq=15, base=B, sym=[6, 7], verdict=[4, 6, 7], tz='US/Eastern', features=False)),
         ('days', h, dict(idx=day('h', 6, days=2), freq=60, base=[0, 50, 98, 100, 97, 40, 0, 50, 96, 98, 97, 40], sym=[4, 8], range=(60, 100), verdict=[2, 3, 9], features=False)),
         ('days3', h, dict(idx=day('h', 5, days=3), freq=60, base=[0, 97, 98, 100, 40, 0, 97, 98, 97, 40, 0, 96, 98, 99, 40], sym=[8], range=(60, 100), verdict=[2, 3, 12], features=False)),
         ('nan', h, dict(idx=day('15min', 12), freq=15, base=B, sym=[5, 7], nan=[5, 7], verdict=[4, 5, 6], features=False)),
         ('gap', h, dict(idx=lambda: day('15min', 16)().delete([8, 9, 10]), freq=15, base=B + [3], sym=[6], verdict=[5, 6, 8])),
         ('1min', h, dict(idx=day('1min', 40), freq=1, base=[0, 10, 20, 30, 40, 50, 60, 70, 80, 90] + [95, 96, 97, 98, 99, 100] * 3 + [99, 98] + [90 - 8 * k for k in range(10)], sym=[17], range=(60, 100), verdict=[10, 15, 20], features=True)),
         ('bad', h_bad, {})]
    if th:
        J += [('15-4', h, dict(idx=day('15min', 12), freq=15, base=B, sym=[4, 5, 7, 8], range=(90, 99), verdict=[4, 5, 6, 8], features=False)),
              ('days-3', h, dict(idx=day('h', 6, days=2), freq=60, base=[0, 50, 98, 100, 97, 40, 0, 50, 96, 98, 97, 40], sym=[2, 4, 8], range=(60, 100), verdict=[2, 3, 8, 9], features=False))]
    return J
