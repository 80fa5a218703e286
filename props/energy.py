"""Harnesses for energy_from_power (P01, P02, P03)"""
from .lib import *


def h_regular(ctx):
    import rdtools
    c = ctx.cfg
    n = c['n']
    idx = pd.date_range(c['start'], periods=n, freq=c['step'], tz=c.get('tz'))
    if not c.get('keepfreq', True):
        idx = pd.DatetimeIndex(idx.values if c.get('tz') is None else list(idx))
    p = ctx.series('p', idx, nan=c.get('nan', False))
    p0 = freeze(p)
    kw = {}
    if c.get('target') is not None:
        kw['target_frequency'] = c['target'] if not c.get('offset') else pd.tseries.frequencies.to_offset(c['target'])
    if c.get('max') is not None:
        kw['max_timedelta'] = pd.Timedelta(c['max'])
    ptype = c.get('type', 'right_labeled')
    if c.get('explicit') or ptype != 'right_labeled':
        kw['power_type'] = ptype
    e = rdtools.energy_from_power(p, **kw)
    step = int(pd.Timedelta(c['target']).value) if c.get('target') else None
    mx = int(pd.Timedelta(c['max']).value) if c.get('max') else None
    t, want = ref_energy(ctx, ns(idx), list(p0), step, mx, ptype)
    ctx.check(ns(e.index) == t, f'interval labels')
    ctx.check(e.index.tz is None if c.get('tz') is None else str(e.index.tz) == c['tz'], 'time zone kept')
    ctx.check(e.name == 'energy_Wh', 'name')
    ctx.eq_series(e, want, 'energy')
    ctx.unchanged(p0, p, 'power input')


def h_linear(ctx):
    """energy is additive and homogeneous in power"""
    import rdtools
    c = ctx.cfg
    idx = pd.date_range(c['start'], periods=c['n'], freq=c['step'])
    p = ctx.series('p', idx)
    q = ctx.series('q', idx)
    k = ctx.real('k')
    kw = dict(target_frequency=c['target'], power_type=c.get('type', 'right_labeled'))
    e1 = rdtools.energy_from_power(p, **kw)
    e2 = rdtools.energy_from_power(q, **kw)
    e3 = rdtools.energy_from_power(p * k + q, **kw)
    ctx.eq_series(e3, [a * k + b for a, b in zip(e1, e2)], 'linearity')


def h_conserve(ctx):
    """total energy over whole coarse intervals equals the integral of the fine record"""
    import rdtools
    c = ctx.cfg
    idx = pd.date_range(c['start'], periods=c['n'], freq=c['step'], tz=c.get('tz'))
    p = ctx.series('p', idx, lo=0)
    e = rdtools.energy_from_power(p, target_frequency=c['target'])
    m = pd.Timedelta(c['target']) / pd.Timedelta(c['step'])
    hours = ctx.frac(int(pd.Timedelta(c['step']).value), H)
    ctx.eq(ctx.sum(list(e)), ctx.sum([x * hours for x in list(p)[1:]]), 'total energy conserved')
    for k, x in enumerate(e):
        ctx.check(x >= 0, f'non-negative {k}')


def h_irregular(ctx):
    import rdtools
    c = ctx.cfg
    gaps = [ctx.choice(f'gap{i}', c['gaps']) for i in range(c['n'] - 1)]
    idx = stamps(c['start'], gaps, c['unit'], c.get('tz'))
    p = ctx.series('p', idx, nan=c.get('nan', False))
    kw = {}
    if c.get('max'):
        kw['max_timedelta'] = pd.Timedelta(c['max'])
    ptype = c.get('type', 'right_labeled')
    e = rdtools.energy_from_power(p, target_frequency=c['target'], power_type=ptype, **kw)
    mx = int(pd.Timedelta(c['max']).value) if c.get('max') else None
    t, want = ref_energy(ctx, ns(idx), list(p), int(pd.Timedelta(c['target']).value), mx, ptype)
    ctx.check(ns(e.index) == t, 'interval labels')
    ctx.eq_series(e, want, 'energy')
    # no interval ever carries more (or less) energy than the valid measurements support
    good = [x for x in p if not missing(x)]
    for k, x in enumerate(e):
        if not missing(x):
            span = ctx.frac(int(pd.Timedelta(c['target']).value), H)
            hi = ctx.maxi([0] + good)
            lo = ctx.mini([0] + good)
            ctx.le(x, hi * span, f'energy[{k}] <= max power x interval')
            ctx.le(lo * span, x, f'energy[{k}] >= min power x interval')


def h_single(ctx):
    import rdtools
    f = ctx.choice('freq', ['15min', 'h', '30min', 'D'])
    tgt = ctx.choice('target', [None, '5min', '2h'])
    has = ctx.choice('has', [True, False])
    idx = pd.date_range('2021-06-01 12:00', periods=1, freq=f)
    if not has:
        idx = pd.DatetimeIndex(list(idx))
    p = ctx.series('p', idx)
    if tgt is None and not has:
        ctx.expect_raises(ValueError, lambda: rdtools.energy_from_power(p), 'period unknown')
    else:
        e = rdtools.energy_from_power(p, target_frequency=tgt)
        use = pd.Timedelta(tgt) if tgt is not None else pd.Timedelta(1, 'D') if f == 'D' else pd.Timedelta(f if f != 'h' else '1h')
        ctx.eq_series(e, [p.iloc[0] * ctx.frac(int(use.value), H)], 'single energy', idx)
        ctx.check(e.name == 'energy_Wh', 'name')
    ctx.expect_raises(ValueError, lambda: rdtools.energy_from_power(p, power_type='instantaneous', target_frequency='1h'),
                      'single instantaneous')


def h_bad(ctx):
    import rdtools
    p = ctx.series('p', pd.date_range('2021', periods=4, freq='h'))
    ctx.expect_raises(ValueError, lambda: rdtools.energy_from_power(p, power_type='left_labeled'), 'bad power_type')
    q = ctx.mk_series(list(p), pd.RangeIndex(4))
    ctx.expect_raises(ValueError, lambda: rdtools.energy_from_power(q), 'non-datetime index')



def h_month(ctx):
    """calendar (non-fixed) output intervals"""
    import rdtools
    c = ctx.cfg
    idx = pd.date_range(c['start'], periods=c['n'], freq=c['step'], tz=c.get('tz'))
    p = ctx.series('p', idx, nan=c.get('nan', False))
    ptype = c.get('type', 'right_labeled')
    kw = {} if c.get('max') is None else {'max_timedelta': pd.Timedelta(c['max'])}
    e = rdtools.energy_from_power(p, target_frequency=c['target'], power_type=ptype, **kw)
    edges = [idx[0]]
    while edges[-1] < idx[-1]:
        y, m = edges[-1].year, edges[-1].month + c['months']
        edges.append(pd.Timestamp(y + (m - 1) // 12, (m - 1) % 12 + 1, 1, tz=c.get('tz')))
    mx = int(pd.Timedelta(c['max']).value) if c.get('max') else None
    t, want = ref_energy(ctx, ns(idx), list(p), 10 ** 18, mx, ptype, edges=[int(x.value) for x in edges])
    ctx.check(ns(e.index)[:len(t)] == t, 'calendar interval labels')
    ctx.eq_series(e.iloc[:len(t)], want, 'energy')
    for k, x in enumerate(e.iloc[len(t):]):       # empty months after the record, if listed, are missing
        ctx.check(ctx.missing(x), f'trailing month {k} is missing')
