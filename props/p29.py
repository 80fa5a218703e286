"""P29 combined degradation and soiling: yearly season and its perturbed copies"""
from .cods import *

COVERAGE = ('the step that makes the season of the combined method repeat every year, and the perturbation of seasons for its bootstrap, executed '
            'symbolically: arbitrary fitted seasons on chosen days of the year in all years, arbitrary multipliers and enumerated shifts; solver '
            'proves every value of the result')
BOUNDS = 'records of 1.2 to 4 years, the values of 1-3 days of the year arbitrary in all years; shifts of -30 to 30 days; up to 2 seasons of 3 copies'
ASSUMPTIONS = ['the last day of leap years is left out (it has no counterpart in other years)']


def base(t):
    """a season in 1/4096, different in every year"""
    d = t.dayofyear
    return (4096 + 3 * abs((d % 365) - 180) - 270 + (t.year * 7 + d * 5) % 11) / 4096


def season(ctx, idx, days):
    vals = []
    for t in idx:
        if t.dayofyear in days:
            vals.append(ctx.real(f's{t.year}_{t.dayofyear}', 0.5, 1.5))
        else:
            vals.append(base(t))
    return vals


def h_period(ctx):
    import rdtools.soiling as S
    c = ctx.cfg
    name = helper(S, '_force_periodicity')
    if name is None:
        return
    idx = pd.date_range(c['start'], periods=c['n'], freq='D', tz=c.get('tz'))
    v = season(ctx, idx, c['days'])
    ser = ctx.mk_series(v, idx, 'season')
    arg = (np.array(v, dtype=object) if ctx.symbolic else np.array(v)) if c.get('array') else ser
    out = getattr(S, name)(arg, idx, idx)
    ctx.check(list(out.index) == list(idx), 'one value per day')
    cut = min(180, (c['n'] - 365) // 2)
    by = {}
    for i, t in enumerate(idx):
        if cut <= i < c['n'] - cut and t.dayofyear <= 365:
            by.setdefault(t.dayofyear, []).append(v[i])
    want = {d: ctx.median(x) for d, x in by.items()}
    for t, x in zip(idx, out):
        if t.dayofyear > 365:
            continue
        if t.dayofyear not in want:
            ctx.check(ctx.missing(x), f'no season known on day {t.dayofyear}')
            continue
        ctx.eq(x, want[t.dayofyear], f'median of the years on {t.date()}')


def h_kind(ctx):
    import rdtools.soiling as S
    name = helper(S, '_force_periodicity')
    if name is None:
        return
    idx = pd.date_range('2019-01-01', periods=800, freq='D')
    kind = ctx.choice('kind', ['list', 'tuple', 'number'])
    ctx.expect_raises(ValueError, lambda: getattr(S, name)({'list': [1.0] * 800, 'tuple': (1.0,) * 800, 'number': 1.0}[kind], idx, idx),
                      'season of another kind refused')


def h_sample(ctx):
    import rdtools.soiling as S
    c = ctx.cfg
    if not hasattr(S, '_make_seasonal_samples'):
        return
    idx = pd.date_range(c['start'], periods=c['n'], freq='D', tz=c.get('tz'))
    k, nr = len(c['seasons']), c['nr']
    shift = c['shift']
    M = [ctx.real(f'm{i}', 0.5, 2) for i in range(k * nr)]
    got = dict(u=[], r=[])

    def uniform(low=0.0, high=1.0, size=None):
        got['u'].append((low, high))
        return M[len(got['u']) - 1]

    def randint(low, high=None, size=None, dtype=int):
        got['r'].append((low, high))
        return shift[(len(got['r']) - 1) % len(shift)]
    V = []
    for q, days in enumerate(c['seasons']):
        V.append([ctx.real(f's{q}_{t.year}_{t.dayofyear}', 0.5, 1.5) if t.dayofyear in days else base(t) + q / 64 for t in idx])
    ser = [ctx.mk_series(v, idx, 'season') for v in V]
    keep = [freeze(s) for s in ser]
    with patched(numpy__random__uniform=uniform, numpy__random__randint=randint):
        out = S._make_seasonal_samples(ser, sample_nr=nr, **c.get('kw', {}))
    for a, b in zip(keep, ser):
        ctx.unchanged(a, b, 'season')
    lo, hi, ms = c['kw'].get('min_multiplier', 0.5), c['kw'].get('max_multiplier', 2), c['kw'].get('max_shift', 20)
    ctx.check(all(x == (lo, hi) for x in got['u']) and len(got['u']) == k * nr, 'one multiplier per copy, within its limits')
    ctx.check(all(-ms <= a and b <= ms + 1 for a, b in got['r']) and len(got['r']) == k * nr, 'one shift per copy, within its limits')
    ctx.check(list(out.index) == list(idx) and out.shape[1] == k * nr, 'one copy per season and draw')
    for q in range(k):
        mean = ctx.sum(V[q]) * ctx.frac(1, c['n'])
        by = {}
        for t, x in zip(idx, V[q]):
            by.setdefault(t.dayofyear, []).append(x)
        for j in range(nr):
            col = out.iloc[:, q * nr + j]
            sh = shift[(q * nr + j) % len(shift)]
            for t, x in zip(idx, col):
                src = (t.dayofyear - sh) % 365 + 1
                if not (set(c['seasons'][q]) & {src, t.dayofyear} or t.dayofyear % 29 == 0):
                    continue
                if src not in by:
                    ctx.check(ctx.missing(x), 'season not known')
                    continue
                ctx.eq(x, M[q * nr + j] * (ctx.median(by[src]) - mean) + 1, f'copy {q * nr + j} on {t.date()}: scaled about its mean and shifted by {sh} days')


def jobs(tier):
    th = tier == 'thorough'
    J = [('period-3', h_period, dict(start='2017-01-01', n=1095, days=(200,))),
         ('period-3-array', h_period, dict(start='2017-07-01', n=1095, days=(59, 60), array=True)),
         ('period-2', h_period, dict(start='2019-03-01', n=730, days=(150, 300))),
         ('period-odd', h_period, dict(start='2019-03-01', n=480, days=(100, 200))),
         ('period-4', h_period, dict(start='2018-01-15', n=1400, days=(1, 365), tz='Europe/Paris')),
         ('kind', h_kind, {}),
         ('copy', h_sample, dict(start='2019-01-01', n=400, seasons=[(100, 101)], nr=2, shift=[0, 5], kw={})),
         ('copy-two', h_sample, dict(start='2018-06-01', n=760, seasons=[(1, 365), (200,)], nr=2, shift=[-30, 29, 1, -7], kw=dict(min_multiplier=.8, max_multiplier=1.75, max_shift=30)))]
    if th:
        J += [(f'period-day-{d}', h_period, dict(start='2016-05-01', n=1500, days=(d, d + 1))) for d in range(1, 364, 40)]
        J += [(f'copy-shift-{s}', h_sample, dict(start='2019-01-01', n=800, seasons=[(10, 11, 360)], nr=1, shift=[s], kw=dict(max_shift=30))) for s in range(-30, 30, 4)]
    return J
