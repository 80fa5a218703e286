"""P16 soiling intervals: where they start and end, their fits, which of them are valid"""
from .srr import *

COVERAGE = ('soiling_srr (SRRAnalysis) executed symbolically on symbolic daily performance, precipitation and thresholds, up to the interval '
            'summary; the Theil-Sen fit is replaced by a chosen or arbitrary line, its arguments are checked; solver proves interval edges, '
            'lengths, rates, inferred losses, validity and the renormalising factor equal to an independent statement of the method')
BOUNDS = '8-13 days, 3-8 of them symbolic or missing, rolling medians over 3 days, all four cleaning criteria, symbolic thresholds'
ASSUMPTIONS = ['Theil-Sen fit (scipy) returns any line with low <= slope <= high']


def num(ctx, v):
    return exact(ctx, v)


def h(ctx):
    from rdtools import soiling
    c = ctx.cfg
    n = c['n']
    idx = pd.date_range(c.get('start', '2020-02-26'), periods=n, freq='D', tz=c.get('tz'))
    base = c.get('base', [1.0] * n)
    nan = c.get('nan', ())
    pm = ctx.mk_series([ctx.real(f'p{i}', c.get('lo', 0.5), 1.5, nan=i in nan) if i in c['sym'] else
                        (NAN if base[i] is None else num(ctx, base[i])) for i in range(n)], idx, 'pm')
    insol = ctx.mk_series([num(ctx, 1 + i % 2) for i in range(n)], idx)
    crit = c.get('crit', 'shift')
    ds, minlen = c.get('ds', 3), c.get('minlen', 2)
    rain = None
    if 'rain' in c:
        rain = ctx.mk_series([ctx.real(f'r{i}', 0, 1) if v == 's' else num(ctx, v) for i, v in enumerate(c['rain'])], idx)
    thr = c.get('thr', 0.05)
    if thr == 'sym':
        thr = ctx.real('thr', 0, 0.5)
    kw = dict(day_scale=ds, clean_threshold=thr, min_interval_length=minlen, clean_criterion=crit, reps=1, method='perfect_clean',
              precipitation_daily=rain)
    for k in ('recenter', 'trim', 'max_negative_step', 'precip_threshold', 'outlier_factor'):
        if k in c:
            kw[k] = c[k]
    keep = freeze(pm), freeze(insol)
    th = Theil(ctx)
    if c.get('line'):
        class Fixed(dict):
            def __contains__(self, k):
                return True

            def __getitem__(self, k):
                return c['line']
        th.concrete = Fixed()
    with patched(scipy__stats__mstats__theilslopes=th, numpy__random__uniform=lambda low=0, high=1, size=None: low):
        try:
            sr, ci, info = soiling.soiling_srr(pm, insol, **kw)
        except soiling.NoValidIntervalError:
            info = None
    # --- independent statement -------------------------------------------------
    v = list(keep[0])
    good = [i for i in range(n) if not missing(v[i])]
    first, last = good[0], good[-1]
    v = v[first:last + 1]
    t = idx[first:last + 1]
    m = len(v)
    known = [i for i in range(m) if not missing(v[i])]
    ren = 1
    if c.get('recenter', True):
        ren = ctx.median([v[i] for i in known if t[i] <= t[0] + 364 * DAY])
    x = [NAN if missing(a) else ctx.div(a, ren) for a in v]
    if info is not None:
        ctx.eq(info['renormalizing_factor'], ren, 'renormalising factor')
    fill = []
    for i in range(m):
        prev = [j for j in known if j <= i]
        fill.append(x[prev[-1]] if i - prev[-1] <= ds else NAN)
    h2 = ds // 2
    med = []
    for i in range(m):
        w = fill[i - h2:i + h2 + 1] if i >= h2 and i + h2 < m else [NAN]
        med.append(NAN if any(missing(a) for a in w) else ctx.median(w))
    delta = [NAN] + [NAN if missing(a) or missing(b) else b - a for a, b in zip(med, med[1:])]
    if isinstance(thr, str):
        ab = [ctx.maxi([d, -d]) for d in delta if not missing(d)]
        q1, q3 = ctx.quantile(ab, ctx.frac(1, 4) if not ctx.symbolic else Fraction(1, 4)), ctx.quantile(ab, Fraction(3, 4) if ctx.symbolic else 0.75)
        thr = q3 + (q3 - q1) * num(ctx, c.get('outlier_factor', 1.5))
    shift = [(not missing(d)) and bool(d > thr) for d in delta]
    rl = [0] * m if rain is None else list(rain)[first:last + 1]
    pt = num(ctx, c.get('precip_threshold', 0.01))
    wet = [bool(a > pt) for a in rl]
    near = [any(wet[max(0, i - 1):i + 2]) for i in range(m)]
    ev = {'shift': shift, 'precip': wet, 'precip_or_shift': [a or b for a, b in zip(shift, wet)],
          'precip_and_shift': [a and b for a, b in zip(shift, near)]}[crit]
    for a, b in zip(known, known[1:]):
        if b - a - 1 > ds:                     # long outage: both edges separate intervals
            ev[a] = ev[b] = True
    runs, cur = [], []
    for i in range(m):
        if ev[i] and cur:
            runs.append(cur)
            cur = []
        cur.append(i)
    runs.append(cur)
    if c.get('trim'):
        runs = runs[1:-1]
    rows = []
    mns = num(ctx, c.get('max_negative_step', 0.05))
    for r in runs:
        pos = [i for i in r if not missing(x[i]) and bool(x[i] > 0)]
        use = pos or r
        step = ctx.mini([0 if missing(delta[i]) else delta[i] for i in use])
        mean = ctx.sum([0 if missing(x[i]) else x[i] for i in use]) / len(use)
        row = dict(start=t[r[0]], end=t[r[-1]], length=r[-1] - r[0], rate=0, low=0, high=0, s0=mean, e0=mean, valid=False)
        if len(pos) > minlen:
            s, b, lo, hi = th.line(pos[0])
            got = th.calls.get(pos[0])
            ctx.check(got is not None and got[1] == pos, 'line fitted to the positive readings of the interval against day number')
            if got is not None and got[1] == pos and not c.get('skipfit'):
                for i, y in zip(pos, got[0]):
                    ctx.eq(y, x[i], 'line fitted to normalised performance')
                ctx.check(got[2] == 0.95, 'confidence of the slope limits')
            row['s0'], row['e0'] = s * r[0] + b, s * r[-1] + b
            hi = ctx.mini([hi, 0])
            bad = ctx.Or(s > 0, step <= -mns, ctx.And(s < 0, hi - lo >= -s * 5), ctx.And(s == 0, hi - lo > 0))
            if not bool(bad):
                row.update(valid=True, rate=s, low=lo, high=hi)
        rows.append(row)
    if not any(r['valid'] for r in rows):
        ctx.check(info is None, 'no valid interval is an error')
        return
    ctx.check(info is not None, 'summary returned')
    if info is None:
        return
    out = info['soiling_interval_summary']
    ctx.check(list(out['start']) == [r['start'] for r in rows], 'interval starts')
    ctx.check(list(out['end']) == [r['end'] for r in rows], 'interval ends')
    if len(out) != len(rows):
        return
    ctx.check([int(a) for a in out['length']] == [r['length'] for r in rows], 'interval lengths')
    ctx.check([bool(a) for a in out['valid']] == [r['valid'] for r in rows], 'valid intervals')
    for k, r in enumerate(rows):
        g = out.iloc[k]
        ctx.eq(g['soiling_rate'], r['rate'], f'rate {k}')
        ctx.eq(g['soiling_rate_low'], r['low'], f'low {k}')
        ctx.eq(g['soiling_rate_high'], r['high'], f'high {k}')
        ctx.eq(g['inferred_start_loss'], r['s0'], f'start loss {k}')
        ctx.eq(g['inferred_end_loss'], r['e0'], f'end loss {k}')
    ctx.unchanged(keep[0], pm, 'performance')
    ctx.unchanged(keep[1], insol, 'insolation')


DY = [1.0, 0.984375, 0.96875, 0.953125, 0.9375, 1.03125, 1.015625, 1.0, 0.96875]
OK = (-0.01, 1.0, -0.011, -0.009)


def jobs(tier):
    th = tier == 'thorough'
    step = [1.0, 0.9, 0.9, 0.9, 0.9, 1.1, 1.1, 1.1, 1.1, 1.1]
    J = [('shift-8', h, dict(n=8, sym=[2, 3, 4, 5, 6], recenter=False, line=OK)),
         ('shift-recenter', h, dict(n=8, sym=[2, 4, 5], base=step[:8], line=OK, minlen=1, max_negative_step=0.5)),
         ('shift-thr', h, dict(n=8, sym=[3, 4, 5], base=step[:8], thr='sym', recenter=False, line=OK)),
         ('infer', h, dict(n=9, sym=[3, 5], base=DY, thr='infer', recenter=False, line=OK)),
         ('infer-f', h, dict(n=9, sym=[4, 6], base=DY, thr='infer', outlier_factor=0.5, recenter=False, line=OK)),
         ('precip', h, dict(n=9, sym=[2], crit='precip', rain=[0, 0, 0, 's', 0, 's', 0, 's', 0], line=OK, recenter=False)),
         ('precip-thr', h, dict(n=9, sym=[2], crit='precip', rain=['s', 0, 0, 's', 0.3, 0.2, 0, 0, 's'], precip_threshold=0.25, line=OK, recenter=False)),
         ('or', h, dict(n=8, sym=[4, 5], base=step[:8], crit='precip_or_shift', rain=[0, 0, 's', 0, 0, 0, 's', 0], recenter=False, line=OK, minlen=1)),
         ('and', h, dict(n=9, sym=[4, 5], base=step[:9], crit='precip_and_shift', rain=[0, 0, 0, 's', 0, 's', 's', 's', 0], recenter=False, line=OK)),
         ('nan', h, dict(n=8, sym=[0, 3, 4, 7], nan=[0, 3, 4, 7], base=step[:8], recenter=False, line=OK)),
         ('outage-4', h, dict(n=12, sym=[2, 7], nan=[7], base=[1, 1, 1, None, None, None, None, 1, 1, 1, 1, 1], recenter=False, line=OK)),
         ('outage-3', h, dict(n=11, sym=[2, 6], nan=[2, 6], base=[1, 1, 1, None, None, None, 1, 1, 1, 1, 1], recenter=False, line=OK)),
         ('outage-4-rain', h, dict(n=12, sym=[2], base=[1, 1, 1, None, None, None, None, 1, 1, 1, 1, 1], crit='precip', rain=[0, 0, 0, 0, 's', 0, 0, 0, 's', 0, 0, 0], recenter=False, line=OK, minlen=1)),
         ('zero', h, dict(n=8, sym=[2, 5], lo=-0.2, base=[1, 0.9, 0.9, 0, 0.9, 0.9, -0.1, 0.8], recenter=False, line=OK, max_negative_step=2)),
         ('trim', h, dict(n=12, sym=[6], crit='precip', rain=[0, 0, 0, 's', 0, 0, 0, 0, 1, 0, 's', 0], trim=True, line=OK, tz='Asia/Tokyo')),
         ('line', h, dict(n=8, sym=[3], crit='precip', rain=[0, 0, 0, 0, 1, 0, 0, 0], recenter=False)),
         ('line-minlen', h, dict(n=9, sym=[3], crit='precip', rain=[0, 0, 0, 0, 's', 0, 0, 0, 0], recenter=False, minlen=4)),
         ('negstep', h, dict(n=8, sym=[3, 4], base=[1, 1, 1, 1, 0.9, 0.9, 0.9, 0.9], max_negative_step=0.125, line=OK, thr=0.5, recenter=False)),
         ('lead-trail', h, dict(n=9, sym=[0, 4, 8], nan=[0, 8], base=[1, None, 1, 1, 1, 1, 1, None, 1], line=OK, crit='precip', rain=[0, 1, 0, 0, 's', 0, 0, 1, 0]))]
    yr = 368
    J.append(('first-year', h, dict(n=yr, start='2019-01-01', sym=[0, 366], base=[1.0] * 180 + [0.875] * (yr - 180), crit='precip',
                                    rain=[0.0] * yr, line=OK, max_negative_step=1, skipfit=True, sort_fork_max=400)))
    if th:
        J += [('shift-10', h, dict(n=10, sym=list(range(1, 9)), recenter=False, line=OK)),
              ('shift-5', h, dict(n=11, ds=5, sym=[3, 4, 5, 6, 7], recenter=False, line=OK, base=step + [1.1])),
              ('nan-thr', h, dict(n=9, sym=[1, 3, 4, 7], nan=[1, 3, 4, 7], base=step[:9], thr='sym', recenter=False, line=OK)),
              ('infer-4', h, dict(n=9, sym=[3, 4, 5], base=DY, thr='infer', recenter=False, line=OK))]
    return J
