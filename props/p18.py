"""P18 annual soiling ratios and monthly soiling rates"""
from .lib import *

COVERAGE = ('annual_soiling_ratios and monthly_soiling_rates executed symbolically on symbolic soiling profiles, insolation and soiling '
            'rates; uniform draws are replaced by a fixed position between the (symbolic) limits; solver proves every reported quantile, '
            'count and selection equal to its definition')
BOUNDS = '2-4 realisations of up to 6 days in up to 3 calendar years; 2-4 soiling intervals, a handful of draws per month'
ASSUMPTIONS = ['uniform draws are replaced by evenly spaced positions inside the limits',
               'non-negative insolation with a positive total in each year']


def P(ctx):
    return (lambda v: Fraction(str(v)) / 100) if ctx.symbolic else (lambda v: v / 100.0)


def h_annual(ctx):
    from rdtools.soiling import annual_soiling_ratios
    c = ctx.cfg
    days = pd.DatetimeIndex(c['days'], tz=c.get('tz'))
    idays = pd.DatetimeIndex(c.get('idays', c['days']), tz=c.get('tz'))
    if c.get('syminsol', True):
        insol = ctx.series('w', idays, lo=0.5, hi=4, nan=c.get('inan', False))
    else:
        insol = ctx.mk_series([ctx.frac(k + 1) if ctx.symbolic else float(k + 1) for k in range(len(idays))], idays)
    prof = []
    for r in range(c['reps']):
        if r in c.get('sym', range(c['reps'])):
            prof.append(ctx.series(f'p{r}_', days, lo=0.3, hi=1.2, nan=[c['pnan']] if r == 0 and 'pnan' in c else False))
        else:
            prof.append(ctx.mk_series([0.9 - 0.0625 * r] * len(days), days))
    keep = [freeze(x) for x in prof] + [freeze(insol)]
    kw = {} if 'conf' not in c else dict(confidence_level=c['conf'])
    out = annual_soiling_ratios(prof, insol, **kw)
    wi = {t: insol.iloc[k] for k, t in enumerate(idays)}
    use = [k for k in range(len(days)) if not any(missing(x.iloc[k]) for x in prof)]
    years = sorted({days[k].year for k in use})
    ctx.check(list(out['year']) == years, 'one row per calendar year')
    p = P(ctx)
    cl = c.get('conf', 68.2)
    for n, y in enumerate(years):
        ks = [k for k in use if days[k].year == y and not missing(wi.get(days[k], NAN))]
        if not ks:
            continue
        tot = ctx.sum([wi[days[k]] for k in ks])
        ratios = [ctx.div(ctx.sum([x.iloc[k] * wi[days[k]] for k in ks]), tot) for x in prof]
        row = out.iloc[n]
        ctx.eq(row['soiling_ratio_median'], ctx.median(ratios), f'{y} median')
        ctx.eq(row['soiling_ratio_low'], ctx.quantile(ratios, p(50) - p(cl) / 2), f'{y} low')
        ctx.eq(row['soiling_ratio_high'], ctx.quantile(ratios, p(50) + p(cl) / 2), f'{y} high')
        if c.get('bounds', True):
            ctx.le(row['soiling_ratio_low'], row['soiling_ratio_high'], f'{y} ordered')
    for a, b in zip(keep, prof + [insol]):
        ctx.unchanged(a, b, 'input')


def h_month(ctx):
    from rdtools.soiling import monthly_soiling_rates
    c = ctx.cfg
    iv = c['iv']
    n = len(iv)
    hi = [ctx.real(f'h{k}', -0.5, 0) if k in c.get('sym', range(n)) else -0.125 * (k + 1) for k in range(n)]
    lo = [ctx.real(f'l{k}', -1, 0) if k in c.get('sym', range(n)) else -0.25 * (k + 1) for k in range(n)]
    mid = [ctx.real(f'm{k}', -1, -0.001) if k in c.get('sym', range(n)) and c.get('symmid') else -0.1875 * (k + 1) for k in range(n)]
    for a, b in zip(lo, hi):
        ctx.assume(a <= b)
    df = pd.DataFrame({'start': [pd.Timestamp(x[0]) for x in iv], 'end': [pd.Timestamp(x[1]) for x in iv]})
    df['soiling_rate'] = ctx.mk_series(mid, df.index)
    df['soiling_rate_low'] = ctx.mk_series(lo, df.index)
    df['soiling_rate_high'] = ctx.mk_series(hi, df.index)
    df['length'] = [(pd.Timestamp(x[1]) - pd.Timestamp(x[0])).days for x in iv]
    df['valid'] = [x[2] for x in iv]
    df0 = df.copy(deep=True)

    def uniform(low=0.0, high=1.0, size=None):
        if size is None:
            return low + (high - low) * 0.25
        size = int(size)
        out = np.empty(size, dtype=object if ctx.symbolic else float)
        for k in range(size):
            out[k] = low + (high - low) * (ctx.frac(2 * k + 1, 2 * size) if ctx.symbolic else (2 * k + 1) / (2 * size))
        return out
    kw = {k: c[k] for k in ('min_interval_length', 'max_relative_slope_error', 'confidence_level') if k in c}
    with patched(numpy__random__uniform=uniform):
        out = monthly_soiling_rates(df, reps=c['reps'], **kw)
    minlen, maxerr, cl = c.get('min_interval_length', 14), c.get('max_relative_slope_error', 500.0), c.get('confidence_level', 68.2)
    sel = []
    for k in range(n):
        if not iv[k][2] or (pd.Timestamp(iv[k][1]) - pd.Timestamp(iv[k][0])).days < minlen:
            continue
        if bool((hi[k] - lo[k]) * 100 <= maxerr * -mid[k]):
            sel.append(k)
    ctx.check(list(out['month']) == list(range(1, 13)), 'twelve months')
    p = P(ctx)
    for m in range(1, 13):
        days = {k: sum(1 for t in pd.date_range(iv[k][0], iv[k][1]) if t.month == m) for k in sel}
        tot = sum(days.values())
        rates = []
        for k in sel:
            if days[k]:
                q = -(-days[k] * c['reps'] // tot)
                rates += [lo[k] + (hi[k] - lo[k]) * (ctx.frac(2 * j + 1, 2 * q) if ctx.symbolic else (2 * j + 1) / (2 * q)) for j in range(q)]
        row = out.iloc[m - 1]
        ctx.check(int(row['interval_count']) == sum(1 for k in sel if days[k]), f'month {m} interval count')
        if not rates:
            ctx.check(all(missing(row[x]) for x in ('soiling_rate_median', 'soiling_rate_low', 'soiling_rate_high')), f'month {m} missing')
            continue
        ctx.eq(row['soiling_rate_median'], ctx.median(rates), f'month {m} median')
        ctx.eq(row['soiling_rate_low'], ctx.quantile(rates, p(50) - p(cl) / 2), f'month {m} low')
        ctx.eq(row['soiling_rate_high'], ctx.quantile(rates, p(50) + p(cl) / 2), f'month {m} high')
    for col in df0.columns:
        ctx.check(list(df.columns) == list(df0.columns), 'summary columns unchanged')


def jobs(tier):
    th = tier == 'thorough'
    ny = ['2019-12-30', '2019-12-31', '2020-01-01', '2020-01-02']
    A = ('2020-01-05', '2020-01-25', True)
    B = ('2020-01-20', '2020-02-28', True)
    C = ('2020-02-01', '2020-02-10', True)
    D = ('2019-12-20', '2020-03-05', False)
    E = ('2018-12-10', '2019-01-20', True)
    J = [('annual-2', h_annual, dict(days=ny, reps=2)),
         ('annual-3', h_annual, dict(days=ny, reps=3, conf=90, syminsol=False)),
         ('annual-tz', h_annual, dict(days=ny, reps=2, tz='America/Denver', conf=50)),
         ('annual-profile-nan', h_annual, dict(days=ny, reps=2, pnan=1, conf=80)),
         ('annual-insol-nan', h_annual, dict(days=ny, reps=2, inan=[1], conf=80)),
         ('annual-extra-insol', h_annual, dict(days=ny[1:3], idays=['2019-12-30'] + ny[1:3] + ['2020-01-09'], reps=2)),
         ('annual-missing-insol', h_annual, dict(days=ny, idays=ny[1:], reps=2)),
         ('annual-3yr', h_annual, dict(days=['2018-06-01', '2018-06-02', '2019-06-01', '2021-02-28'], reps=2, conf=100)),
         ('annual-4', h_annual, dict(days=ny[1:3], reps=4, syminsol=False, conf=68.2)),
         ('month-one', h_month, dict(iv=[A], reps=3, symmid=True)),
         ('month-two', h_month, dict(iv=[A, B], reps=3, confidence_level=90)),
         ('month-short', h_month, dict(iv=[A, C, D], reps=3, sym=[0, 1], symmid=True)),
         ('month-minlen', h_month, dict(iv=[A, C, D], reps=2, sym=[1], min_interval_length=9)),
         ('month-minlen-edge', h_month, dict(iv=[A, C], reps=2, sym=[0], min_interval_length=20)),
         ('month-err', h_month, dict(iv=[A, B], reps=2, sym=[0], symmid=True, max_relative_slope_error=50)),
         ('month-year-wrap', h_month, dict(iv=[E, A], reps=4, sym=[0], confidence_level=50)),
         ('month-long', h_month, dict(iv=[('2018-01-10', '2019-02-15', True), A], reps=2, sym=[1]))]
    if th:
        J += [('annual-4s', h_annual, dict(days=ny, reps=4, conf=80, sort_fork_max=6)),
              ('month-three', h_month, dict(iv=[A, B, E], reps=4, symmid=True))]
    return J
