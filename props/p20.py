"""P20 availability: full outages, their losses, the corrected meter and the roll-up"""
from .lib import *
import math

COVERAGE = ('AvailabilityAnalysis.run executed symbolically: symbolic cumulative meter, symbolic expected power and symbolic inverter power at '
            'outage edges; solver proves outage list, expected energy, confidence limits, classification, losses, the loss time series, the '
            'corrected cumulative meter and the rolled-up results equal to an independent statement of the expected-energy method')
BOUNDS = '10-14 hourly stamps with one to three outages (start, middle, end of the data, across nights), up to 6 symbolic readings'
ASSUMPTIONS = ['linear interpolation of the error limits (scipy interp1d) is replaced by its definition under symbolic values']


def exact(ctx, v):
    return ctx.frac(Fraction(str(v))) if ctx.symbolic else float(v)


def interp_at(ctx, xs, ys, x):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for k in range(len(xs) - 1):
        if xs[k] <= x <= xs[k + 1]:
            return ys[k] + (ys[k + 1] - ys[k]) * ctx.frac(x - xs[k], xs[k + 1] - xs[k])


class Box:
    """0-d result of interp1d"""

    def __init__(self, v):
        self.v = v


def fake_interp(ctx):
    def interp1d(x, y, fill_value=None, bounds_error=None, **k):
        xs, ys = [int(a) for a in x], list(y)
        assert k == {} and bounds_error is False

        def f(q):
            q = int(q)
            if q < xs[0]:
                return fill_value[0]
            if q > xs[-1]:
                return fill_value[1]
            return interp_at(ctx, xs, ys, q)
        return f
    return interp1d


def h(ctx):
    from rdtools.availability import AvailabilityAnalysis
    c = ctx.cfg
    E = c['exp']
    n = len(E)
    idx = pd.date_range(c.get('start', '2020-01-31 18:00'), periods=n, freq=c.get('freq', 'h'))
    hours = ctx.frac(int(pd.Timedelta(idx[1] - idx[0]).value), H)
    exp = [ctx.real(f'x{i}', 1, 8) if v == 's' else exact(ctx, v) for i, v in enumerate(E)]
    inv = {k: [] for k in 'ab'}
    for i, v in enumerate(c['inv']):
        for k in 'ab':
            inv[k].append(ctx.real(f'{k}{i}', 0, 4) if v == 's' and k in c.get('symcols', 'ab') else exact(ctx, 0 if v == 's' else v))
    met = [ctx.real(f'm{i}', 0, 8) if v == 's' else (NAN if v is None else exact(ctx, v)) for i, v in enumerate(c['met'])]
    cum, tot = [], 0
    for i in range(n):
        cum.append(ctx.real(f'q{i}', -5, 200, nan=i in c.get('cnan', ())) if i in c.get('csym', ()) else exact(ctx, c['cum'][i] if 'cum' in c else 10 * i))
    S = lambda v: ctx.mk_series(v, idx)
    meter, cumul, expected = S(met), S(cum), S(exp)
    sub = pd.DataFrame({k: S(inv[k]) for k in 'ab'})
    keep = [freeze(x) for x in (meter, cumul, expected, sub)]
    aa = AvailabilityAnalysis(meter, sub, cumul, expected)
    q = c.get('quantiles', (0.01, 0.99))
    kw = dict(low_threshold=0.5, relative_sizes={'a': 1.0, 'b': 1.0}, quantiles=q)
    if 'rollup' in c:
        kw['rollup_period'] = c['rollup']
    with patched(**(dict(scipy__interpolate__interp1d=fake_interp(ctx)) if ctx.symbolic else {})):
        aa.run(**kw)
    # ---- independent statement -------------------------------------------------
    loss_sub = list(aa.loss_subsystem)           # (decided by P19)
    on = [[bool(inv[k][i] > 0.5) for k in 'ab'] for i in range(n)]
    normal = [i for i in range(n) if not missing(met[i]) and bool(met[i] > 0) and bool(exp[i] > 0) and bool(loss_sub[i] == 0)]
    scale = ctx.div(ctx.sum([exp[i] for i in normal]), ctx.sum([met[i] for i in normal]))
    ex = [ctx.div(x, scale) for x in exp]
    ctx.eq_series(aa.power_expected_rescaled, ex, 'rescaled expected power', idx)
    e_en = [NAN] + [x * hours for x in ex[1:]]
    m_en = [NAN] + [NAN if missing(x) or missing(y) else x * hours for y, x in zip(met, met[1:])]
    # a reading after missing ones has no energy: the gap is longer than one step
    W, lo, hi = [], [], []
    for w in [2 ** k for k in range(1, int(math.log2(len(normal))))]:
        err = []
        for s in range(len(normal) - w + 1):
            rows = normal[s:s + w]
            if any(missing(e_en[i]) or missing(m_en[i]) for i in rows):
                continue
            err.append(ctx.div(ctx.sum([m_en[i] for i in rows]), ctx.sum([e_en[i] for i in rows])) - 1)
        if err:
            W.append(w)
            lo.append(ctx.quantile(err, Fraction(str(q[0])) if ctx.symbolic else q[0]))
            hi.append(ctx.quantile(err, Fraction(str(q[1])) if ctx.symbolic else q[1]))
    # outages: no inverter reports; nights belong to the outage next to them
    off = [not any(o) for o in on]
    day = [bool(x > 0) for x in exp]
    out = []
    for i in range(n):
        pv = [j for j in range(i + 1) if day[j]]
        nx = [j for j in range(i, n) if day[j]]
        out.append(bool((pv and off[pv[-1]]) or (nx and off[nx[0]])))
    spans, i = [], 0
    while i < n:
        if out[i]:
            j = i
            while j + 1 < n and out[j + 1]:
                j += 1
            spans.append((i, j))
            i = j + 1
        else:
            i += 1
    info = aa.outage_info
    ctx.check(list(info['start']) == [idx[a] for a, _ in spans], 'outage starts')
    ctx.check(list(info['end']) == [idx[b] for _, b in spans], 'outage ends')
    if len(info) != len(spans):
        return
    lossp = [0] * n
    corr = list(cum)
    for k, (a, b) in enumerate(spans):
        g = info.iloc[k]
        ctx.check(g['duration'] == idx[b] - idx[a] and int(g['intervals']) == b - a + 1, 'duration')
        nd = sum(1 for i in range(a, b + 1) if day[i])
        ctx.check(int(g['daylight_intervals']) == nd, 'daylight intervals')
        el, eu = interp_at(ctx, W, lo, nd), interp_at(ctx, W, hi, nd)
        ee = ctx.sum([e_en[i] for i in range(a, b + 1) if not missing(e_en[i])] or [0])
        ctx.eq(g['error_lower'], el, f'outage {k} lower error')
        ctx.eq(g['error_upper'], eu, f'outage {k} upper error')
        ctx.eq(g['energy_expected'], ee, f'outage {k} expected energy')
        ctx.eq(g['ci_lower'], (1 + el) * ee, f'outage {k} lower limit')
        ctx.eq(g['ci_upper'], (1 + eu) * ee, f'outage {k} upper limit')
        e0 = cum[a - 1] if a > 0 else NAN
        e1 = cum[b]
        if not missing(e0):
            ctx.eq(g['energy_start'], e0, f'outage {k} meter before')
        ctx.check(missing(g['energy_start']) == missing(e0), f'outage {k} meter before known')
        act = NAN if missing(e0) or missing(e1) else e1 - e0
        if not missing(act) and bool(act < g['energy_expected'] * -0.05):
            act = NAN
        if missing(act):
            typ, loss = 'unknown', NAN
        elif bool(act < g['ci_lower']):
            typ, loss = 'real', ee - act
        else:
            typ, loss = 'comms', 0
        ctx.check(g['type'] == typ, f'outage {k} is {typ}')
        ctx.eq(g['energy_actual'], act, f'outage {k} actual energy')
        ctx.eq(g['loss'], loss, f'outage {k} loss')
        # spread over the outage in proportion to expected power, so that its energy is the loss
        raw = ctx.sum([exp[i] * hours for i in range(max(a, 1), b + 1)])
        acc = 0
        for i in range(a, b + 1):
            lossp[i] = NAN if missing(loss) else ctx.div(exp[i] * loss, raw)
            if i > 0:
                acc = acc + exp[i] * hours
                corr[i] = NAN if missing(act) else e0 + ctx.div(act * acc, raw)
            else:
                corr[i] = NAN
    ctx.eq_series(aa.loss_system, lossp, 'loss time series', idx)
    ctx.eq_series(aa.energy_cumulative_corrected, corr, 'corrected cumulative meter', idx)
    total = [NAN if missing(x) or missing(y) else x + y for x, y in zip(lossp, loss_sub)]
    ctx.eq_series(aa.loss_total, total, 'total loss', idx)
    res = aa.results
    bins = pd.Series(range(n), idx).resample(c.get('rollup', pd.offsets.MonthEnd())).apply(list)
    ctx.check(list(res.index) == list(bins.index), 'one row per period')
    for k, rows in enumerate(bins):
        use = [i for i in rows if i > 0 and not missing(total[i]) and not missing(total[i - 1])]
        lost = ctx.sum([total[i] * hours for i in use] or [0])
        known = [i for i in rows if not missing(corr[i])]
        g = res.iloc[k]
        if c.get('nolost'):
            continue
        ctx.eq(g['lost_production'], lost, f'period {k} lost')
        if known:
            actual = corr[known[-1]] - corr[known[0]]
            ctx.eq(g['actual_production'], actual, f'period {k} actual')
            if bool(ctx.Not(lost + actual == 0)):
                ctx.eq(g['availability'], 1 - ctx.div(lost, lost + actual), f'period {k} availability')
    for a, b in zip(keep, (meter, cumul, expected, sub)):
        ctx.unchanged(a, b, 'input')


def h_bad(ctx):
    from rdtools.availability import AvailabilityAnalysis
    idx = pd.date_range('2020-01-01', periods=4, freq='h')
    s = ctx.series('s', idx, lo=0, hi=5)
    t = ctx.mk_series(list(s), idx + pd.Timedelta('1h'))
    f = lambda a: a.to_frame('a')
    for k in range(4):
        args = [s, f(s), s, s]
        args[k] = f(t) if k == 1 else t
        ctx.expect_raises(ValueError, lambda: AvailabilityAnalysis(*args), 'mismatched index')
    ctx.expect_raises(TypeError, lambda: AvailabilityAnalysis(s, f(s), s, s).plot(), 'plot before run')


def jobs(tier):
    th = tier == 'thorough'
    day = [2, 4, 4, 2]
    #       0  1  2  3  4  5  6  7  8  9 10 11
    exp1 = [4, 4, 2, 4, 2, 4, 4, 4, 2, 4, 4, 2]
    met1 = [2, 2, 1, 2, 0, 0, 0, 2, 1, 3, 2, 1]
    inv1 = [1, 1, .75, 1, 0, 0, 0, 1, .75, 1.5, 1, .75]
    J = [('middle', h, dict(exp=exp1, met=met1, inv=inv1, csym=[3, 6])),
         ('middle-nan', h, dict(exp=exp1, met=met1, inv=inv1, csym=[3, 5, 6], cnan=[3, 6], rollup='D', start='2020-01-31 19:00')),
         ('middle-15', h, dict(exp=exp1, met=met1, inv=inv1, csym=[3, 6], freq='15min', start='2020-01-31 22:45')),
         ('edges', h, dict(exp=exp1, met=met1, inv=inv1[:3] + ['s'] + inv1[4:7] + ['s'] + inv1[8:], csym=[6], symcols='a')),
         ('start', h, dict(exp=exp1, met=[0, 0, 1, 2, 1, 2, 2, 2, 1, 3, 2, 1], inv=[0, 0, .75, 1, .75, 1, 1, 1, .75, 1.5, 1, .75], csym=[1, 11])),
         ('second', h, dict(exp=exp1, met=[2, 0, 0, 2, 1, 2, 2, 2, 1, 3, 2, 1], inv=[1, 0, 0, 1, .75, 1, 1, 1, .75, 1.5, 1, .75], csym=[0, 2])),
         ('end', h, dict(exp=exp1, met=met1[:4] + [1, 2, 2, 2, 1, 3, 0, 0], inv=inv1[:4] + [.75, 1, 1, 1, .75, 1, 0, 0], csym=[9, 11])),
         ('night', h, dict(exp=[4, 4, 2, 0, 0, 4, 2, 0, 0, 2, 4, 2, 4, 4], met=[2, 2, 1, 0, 0, 0, 0, 0, 0, 1, 2, 1, 2, 3],
                           inv=[1, 1, .75, 0, 0, 0, 0, 0, 0, .75, 1, .75, 1, 1], csym=[2, 8], start='2020-01-31 16:00')),
         ('night-on', h, dict(exp=[4, 4, 2, 0, 0, 4, 2, 0, 0, 2, 4, 2, 4, 4], met=[2, 2, 1, 0, 0, 2, 1, 0, 0, 1, 2, 1, 2, 3],
                              inv=[1, 1, .75, 0, 0, 1, .75, 0, 0, .75, 's', .75, 1, 1], csym=[3], symcols='b')),
         ('two', h, dict(exp=exp1, met=[2, 2, 0, 0, 1, 2, 0, 2, 1, 3, 2, 1], inv=[1, 1, 0, 0, .75, 1, 0, 1, .75, 1.5, 1, .75], csym=[1, 3, 5, 6])),
         ('expected', h, dict(exp=[4, 4, 2, 4, 's', 4, 's', 4, 2, 4, 4, 2], met=met1, inv=inv1, csym=[6])),
         ('expected-normal', h, dict(exp=[4, 4, 2, 's', 2, 4, 4, 4, 2, 4, 4, 2], met=met1, inv=inv1, csym=[6], sort_fork_max=12)),
         ('quantiles', h, dict(exp=exp1, met=[2, 2, 1, 2, 0, 0, 0, 2, 1, 3, 1, 2], inv=inv1, csym=[3, 6], quantiles=(0.25, 0.75))),
         ('meter-nan', h, dict(exp=exp1, met=[2, 2, 1, 2, None, None, None, 2, 1, 3, 2, 1], inv=inv1, csym=[3, 6])),
         ('bad', h_bad, {})]
    return J
