"""P04 interpolation is exact at samples, linear between them, NaN in long gaps and outside"""
from .lib import *

COVERAGE = ('interpolate executed symbolically (Series and DataFrame) on symbolic values over enumerated time axes, '
            'missing-value patterns, targets and zones; the solver compares every returned value with an independent reference')
BOUNDS = 'up to 5 samples per column (thorough 6), gaps 1-4 steps, up to 9 target stamps, default/explicit max_timedelta, naive/UTC/DST zones'
ASSUMPTIONS = ['at least two valid samples per column when max_timedelta is omitted']


def _targets(idx, kind, tz, unit='1h'):
    t0, t1 = idx[0], idx[-1]
    u = pd.Timedelta(unit)
    h = u / 2
    if kind == 'same':
        return idx
    if kind == 'half':
        return pd.date_range(t0 - h, t1 + 2 * h, freq=u * 1.5)
    if kind == 'shift':
        return pd.DatetimeIndex([t + u / 3 for t in idx])
    if kind == 'fine':
        return pd.date_range(t0, t1, freq=u * 0.75)
    if kind == 'othertz':
        return pd.date_range(t0, t1, freq=u * 0.75).tz_convert('Asia/Tokyo')
    if kind == 'mixed':
        return idx[:2].append(pd.DatetimeIndex([t0 + 3 * h, t1 - h, t1, t1 + h])).sort_values().unique()


def h_series(ctx):
    import rdtools
    from rdtools.normalization import interpolate
    c = ctx.cfg
    gaps = [ctx.choice(f'gap{i}', c['gaps']) for i in range(c['n'] - 1)]
    idx = stamps(c.get('start', '2020-03-08 00:00'), gaps, c.get('unit', '1h'), c.get('tz'))
    s = ctx.series('s', idx, nan=c.get('nan', False), series_name='power')
    valid = [x for x in s if not missing(x)]
    if len(valid) < (2 if c.get('max') is None else 1):
        return
    s0 = freeze(s)
    kw = {} if c.get('max') is None else {'max_timedelta': pd.Timedelta(c['max'])}
    if c['target'] == 'freq':
        f = c['freq']
        out = interpolate(s, f, **kw)
        tidx = pd.date_range(idx[0], idx[-1], freq=f)
    else:
        tidx = _targets(idx, c['target'], c.get('tz'), c.get('unit', '1h'))
        out = interpolate(s, tidx, **kw)
    want = ref_interp(ctx, ns(idx), list(s0), ns(tidx), None if c.get('max') is None else int(pd.Timedelta(c['max']).value))
    ctx.check(list(out.index) == list(tidx) and str(out.index.tz) == str(tidx.tz), 'index is the target')
    ctx.check(out.name == 'power', 'name preserved')
    ctx.eq_series(out, want, 'interpolated')
    if valid:
        lo, hi = ctx.mini(valid), ctx.maxi(valid)
        for k, x in enumerate(out):
            if not missing(x):
                ctx.le(x, hi, f'[{k}] within data range')
                ctx.le(lo, x, f'[{k}] within data range')
    ctx.unchanged(s0, s, 'input')


def h_frame(ctx):
    from rdtools.normalization import interpolate
    c = ctx.cfg
    idx = stamps('2020-05-01', c['gap'], '1h', c.get('tz'))
    a = ctx.series('a', idx, nan=c['nana'])
    b = ctx.series('b', idx, nan=c['nanb'])
    cols = [('a', a), ('b', b)]
    if c.get('ncol', 2) >= 3:
        cols.append(('c', ctx.series('c', idx, nan=[2])))
    if c.get('ncol', 2) >= 4:
        cols.append(('d', ctx.series('d', idx)))
    for _, s in cols:
        if sum(1 for x in s if not missing(x)) < 2:
            return
    df = pd.DataFrame(dict(cols))
    kw = {} if c.get('max') is None else {'max_timedelta': pd.Timedelta(c['max'])}
    tidx = _targets(idx, c['target'], c.get('tz'), c.get('unit', '1h'))
    out = interpolate(df, tidx, **kw)
    mx = None if c.get('max') is None else int(pd.Timedelta(c['max']).value)
    ctx.check(list(out.columns) == [k for k, _ in cols], 'columns')
    for col, s in cols:
        ctx.eq_series(out[col], ref_interp(ctx, ns(idx), list(s), ns(tidx), mx), f'column {col}', tidx)


def h_tz(ctx):
    from rdtools.normalization import interpolate
    idx = pd.date_range('2020-01-01', periods=4, freq='h')
    s = ctx.series('s', idx)
    ctx.expect_raises(ValueError, lambda: interpolate(s, idx.tz_localize('UTC')), 'naive vs aware')
    z = ctx.mk_series(list(s), idx.tz_localize('UTC'), 's')
    ctx.expect_raises(ValueError, lambda: interpolate(z, idx), 'aware vs naive')
    ctx.expect_raises(ValueError, lambda: interpolate(list(s), idx) if False else interpolate(pd.Index([1]), idx)
                      if False else interpolate(s, idx.tz_localize('UTC')), 'tz')


def jobs(tier):
    th = tier == 'thorough'
    J = []
    for target in ['same', 'half', 'shift', 'fine', 'mixed']:
        for mx in [None, '1h', '2h', '4h']:
            J.append((f'series-{target}-{mx}', h_series,
                      dict(n=5 if th else 4, gaps=[1, 2, 4], target=target, max=mx)))
            J.append((f'nan-{target}-{mx}', h_series,
                      dict(n=5 if not th else 6, gaps=[1] if not th else [1, 3], target=target, max=mx, nan=True)))
    for tz in ['US/Eastern', 'UTC']:
        J.append((f'tz-{tz}', h_series, dict(n=4, gaps=[1, 3], target='fine', tz=tz)))
        J.append((f'tz-other-{tz}', h_series, dict(n=4, gaps=[1, 3], target='othertz', tz=tz, max='2h')))
    for f in ['30min', '2h', '40min']:
        for mx in [None, '2h']:
            J.append((f'freq-{f}-{mx}', h_series, dict(n=5, gaps=[1, 2, 3] if th else [1, 2], target='freq', freq=f, max=mx, nan=[1, 3])))
    for mx in [None, '2h', '3h']:
        for t in ['half', 'fine', 'mixed']:
            J.append((f'frame-{mx}-{t}', h_frame, dict(gap=[1, 1, 2, 1], nana=[0, 2, 3], nanb=[1, 4], target=t, max=mx)))
    for k, g in [(3, [1, 1, 2, 1]), (4, [1, 2, 1, 1])]:
        J.append((f'frame-{k}col', h_frame, dict(gap=g, nana=[1, 2], nanb=[3], target='fine', max='2h', ncol=k)))
    for u, mx in [('1D', None), ('1D', '1D'), ('1D', '2D'), ('1D', '26h'), ('1s', '2s'), ('1min', '90s'), ('7D', '10D')]:
        for t in ['half', 'fine']:
            J.append((f'unit-{u}-{mx}-{t}', h_series, dict(n=4, gaps=[1, 2, 3], target=t, max=mx, unit=u, nan=[1])))
    J.append(('tzmismatch', h_tz, {}))
    return J
