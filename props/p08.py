"""P08 insolation-weighted aggregation"""
from .lib import *

COVERAGE = ('aggregation_insol executed symbolically on symbolic energies and insolations; the solver proves each bin equal '
            'to the insolation-weighted mean of the points with a known energy and within their range')
BOUNDS = 'up to 6 points in up to 4 bins, missing values in either input, daily/weekly/monthly/hourly bins, naive and DST zones'
ASSUMPTIONS = ['insolation values are non-negative']


def h(ctx):
    import rdtools
    c = ctx.cfg
    idx = stamps(c['start'], c['gaps'], c['unit'], c.get('tz'))
    n = len(idx)
    e = ctx.series('e', idx, nan=c.get('enan', False))
    w = ctx.series('w', idx, lo=0, nan=c.get('wnan', False))
    e0, w0 = freeze(e), freeze(w)
    kw = {} if c['freq'] is None else {'frequency': c['freq']}
    out = rdtools.aggregation_insol(e, w, **kw)
    # bins from the calendar, independently
    per = {}
    for i, t in enumerate(idx):
        per.setdefault(c['key'](t), []).append(i)
    order = list(per)
    got = {c['key'](t): x for t, x in zip(out.index, out)}
    for k in got:
        if k not in per:
            ctx.check(ctx.missing(got[k]), f'empty bin {k} has a value')
    for k in order:
        if not ctx.check(k in got, f'bin {k} present'):
            return
        pts = [i for i in per[k] if not missing(e0.iloc[i]) and not missing(w0.iloc[i])]
        if not pts:
            ctx.check(ctx.missing(got[k]), f'bin {k} without data')
            continue
        W = ctx.sum([w0.iloc[i] for i in pts])
        S = ctx.sum([w0.iloc[i] * e0.iloc[i] for i in pts])
        r = ctx.div(S, W)
        ctx.eq(got[k], r, f'weighted mean of bin {k}')
        if not missing(r) and abs_finite(r):
            ctx.le(got[k], ctx.maxi([e0.iloc[i] for i in pts]), f'bin {k} below max')
            ctx.le(ctx.mini([e0.iloc[i] for i in pts]), got[k], f'bin {k} above min')
    ctx.unchanged(e0, e, 'energy input')
    ctx.unchanged(w0, w, 'insolation input')


def abs_finite(r):
    return not (isinstance(r, float) and r in (float('inf'), float('-inf')))


def day(t):
    return (t.year, t.month, t.day)


def month(t):
    return (t.year, t.month)


def hour2(t):
    return (t.year, t.month, t.day, t.hour // 2)


def week(t):
    # 'W': weeks ending on Sunday, labelled by that Sunday
    d = t.normalize()
    s = d + pd.Timedelta(days=(6 - d.dayofweek))
    return (s.year, s.month, s.day)


def jobs(tier):
    th = tier == 'thorough'
    J = []
    base = [('day', dict(start='2020-01-31 06:00', gaps=[6, 6, 7, 24], unit='1h', freq=None, key=day)),
            ('day-explicit', dict(start='2020-01-31 06:00', gaps=[12, 12, 24, 24], unit='1h', freq='D', key=day)),
            ('day-dst', dict(start='2020-03-07 10:00', gaps=[10, 10, 10, 10], unit='1h', freq='D', key=day, tz='US/Eastern')),
            ('day-dst-fall', dict(start='2020-10-31 10:00', gaps=[10, 10, 10, 10], unit='1h', freq='D', key=day, tz='US/Eastern')),
            ('day-tz', dict(start='2020-06-07 20:00', gaps=[3, 3, 3, 20], unit='1h', freq='D', key=day, tz='Asia/Tokyo')),
            ('week', dict(start='2020-01-01', gaps=[2, 3, 4, 5], unit='1D', freq='W', key=week)),
            ('month', dict(start='2020-01-20', gaps=[10, 10, 30, 5], unit='1D', freq='MS', key=month)),
            ('2h', dict(start='2020-01-20 01:00', gaps=[1, 1, 2, 4], unit='30min', freq='2h', key=hour2))]
    for nm, c in base:
        J.append((nm, h, c))
        J.append((nm + '-enan', h, dict(c, enan=True)))
        J.append((nm + '-wnan', h, dict(c, wnan=True if th else [0, 1, 3])))
        J.append((nm + '-bothnan', h, dict(c, enan=[0, 2, 4], wnan=[0, 1, 4])))
    return J
