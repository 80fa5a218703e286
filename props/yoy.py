"""Reference for the year-on-year estimate, from its documentation"""
from .lib import *
from .p10 import robust

DAY = pd.Timedelta('1D')
YEAR = 365 * 24 * H


def plus_year(t):
    try:
        return t.replace(year=t.year + 1)
    except ValueError:                       # 29 February
        return t.replace(year=t.year + 1, day=28)


def pairs(idx):
    """for each end point the index of its start point one year earlier (8 day tolerance), or None"""
    sh = [plus_year(t) for t in idx]
    out = []
    for t in idx:
        best = None
        for j, s in enumerate(sh):
            if s <= t and t - s <= 8 * DAY and (best is None or sh[best] <= s):
                best = j
        out.append(best)
    return out


def ref_yoy(ctx, idx, vals, recenter=True):
    """(list of (end index, rate)), renorm, usage"""
    first = [v for t, v in zip(idx, vals) if t <= idx[0] + 364 * DAY]
    ren = robust(ctx, first, 0.99, 'median') if recenter else 1
    pr = pairs(idx)
    out, use = [], [0] * len(idx)
    starts = set()
    for i, j in enumerate(pr):
        if j is None or missing(vals[i]) or missing(vals[j]) or missing(ren):
            continue
        a, b = ctx.div(vals[i], ren), ctx.div(vals[j], ren)
        yrs = ctx.frac(int((idx[i] - idx[j]).value), YEAR)
        out.append((i, ctx.div((a - b) * 100, yrs)))
        use[i] += 1
        starts.add(j)
    for j in starts:
        use[j] += 1
    return out, ren, use


def times(spec):
    if callable(spec):
        return spec()
    return pd.DatetimeIndex(spec)


def half_years(n, start='2012-01-01', tz=None):
    return lambda: pd.date_range(start, periods=n, freq='6MS', tz=tz)
