"""P26 combined degradation and soiling: iterative decomposition"""
import math
from .cods import *

COVERAGE = ('CODSAnalysis.iterative_signal_decomposition executed symbolically with arbitrary answers of the fitting steps (soiling filter, '
            'seasonal fit, year-on-year rate, cleaning detection); solver proves that every step is fitted to the record divided by the other '
            'components, that steps follow the requested order, and that the reported model, residuals, losses and flags follow from the '
            'final components')
BOUNDS = 'records of 6-12 days with missing days, up to 6 fitting steps, arbitrary component values on 1-3 days and arbitrary rates'
ASSUMPTIONS = ['the Kalman filter, STL, lowess, year-on-year and Dickey-Fuller routines may return any values',
               'the components of the earlier steps are fixed where the stopping rule is not under test']

PI = [1.0, 0.99, 0.97, 0.96, 0.98, 0.95, 1.01, 0.96, 0.94, 0.97, 0.93, 0.99]
SRS = [[1.0, 0.98, 0.96, 0.95, 1.0, 0.99, 0.97, 0.95, 1.0, 0.98, 0.97, 0.96],
       [0.99, 0.98, 0.97, 0.95, 1.0, 0.98, 0.97, 0.94, 0.99, 0.97, 0.97, 0.95],
       [1.0, 0.97, 0.96, 0.94, 0.99, 0.99, 0.96, 0.95, 1.0, 0.98, 0.96, 0.96]]
SCS = [[1.0, 1.01, 1.02, 1.01, 1.0, 0.99, 0.98, 0.99, 1.0, 1.01, 1.02, 1.01],
       [1.0, 1.02, 1.01, 1.01, 1.01, 0.99, 0.97, 0.99, 1.0, 1.02, 1.01, 1.0]]
TREND = [0.0, -0.01, -0.015, -0.03, -0.02, -0.04, -0.05, -0.045, -0.06, -0.07, -0.065, -0.08]
RDS = [-0.5, 0.25, -1.0]


def h(ctx):
    from rdtools import soiling
    import rdtools.soiling as S
    c = ctx.cfg
    n = c.get('n', 8)
    order = c['order']
    idx = pd.date_range('2020-02-25', periods=n, freq='D', tz=c.get('tz'))
    sym = c.get('sym', {})          # (kind, call) -> positions (or True for a rate)
    hole = c.get('hole', ())
    P = [NAN if i in hole else (ctx.real(f'pi{i}', 0.5, 1.5) if i in c.get('psym', ()) else exact(ctx, PI[i])) for i in range(n)]
    pm = ctx.mk_series(P, idx, 'pm')
    keep = freeze(pm)
    memo = {}

    def real(name, lo, hi):
        if name not in memo:
            memo[name] = ctx.real(name, lo, hi)
        return memo[name]
    log, nk = [], dict(SR=0, SC=0, Rd=0, CE=0)

    def comp(kind, table, lo, hi):
        k = nk[kind]
        nk[kind] += 1
        where = sym.get((kind, k), ())
        return k, [real(f'{kind}{k}_{i}', lo, hi) if i in where else exact(ctx, table[k % len(table)][i]) for i in range(n)]

    def detect(x, y, ffill=True, rolling_window=9, tuner=1.5):
        k = nk['CE']
        nk['CE'] += 1
        log.append(('detect', list(y), ffill, tuner))
        ev = pd.Series([i in c.get('events', [()])[min(k, len(c.get('events', [()])) - 1)] for i in range(len(x))], index=x)
        return ev, pd.Series(np.arange(len(x)) * 1.0 + k, index=x)

    def collapse(ev, metric, f=4):
        return ev.copy()

    def kalman(self, zs_series, **k):
        kk, v = comp('SR', SRS, 0.5, 1)
        log.append(('SR', list(zs_series), dict(k)))
        d = pd.DataFrame(index=zs_series.index)
        d['soiling_ratio'] = ctx.mk_series(v, zs_series.index)
        d['soiling_rates'] = ctx.mk_series([exact(ctx, -0.001 * (i + kk)) for i in range(n)], zs_series.index)
        d['cleaning_events'] = [i in c.get('kept', [(3,)])[min(kk, len(c.get('kept', [(3,)])) - 1)] for i in range(n)]
        return d, None

    class Stl:
        def __init__(self, s, **k):
            log.append(('SC', s, k))

        def fit(self):
            r = type('R', (), {})()
            r.seasonal = pd.Series(np.zeros(n), idx)
            r.trend = pd.Series([TREND[i] + 0.1 for i in range(n)], idx)
            return r

    def low(y, x, **k):
        return np.zeros(n)

    def period(sig, sidx, oidx):
        kk, v = comp('SC', SCS, 0.5, 1.5)
        return ctx.mk_series(v, oidx)

    def yoy(s, *a, **k):
        kk = nk['Rd']
        nk['Rd'] += 1
        log.append(('Rd', list(s), k))
        return real(f'rd{kk}', -5, 5) if sym.get(('Rd', kk)) else exact(ctx, RDS[kk % len(RDS)])

    adf_in = []

    def adf(x, **k):
        adf_in.append(list(x))
        return (-5.0, 0.001)
    kw = dict(order=order, max_iterations=c.get('iters', 3))
    stl = c.get('method') == 'STL'
    if stl:
        kw['degradation_method'] = 'STL'
        order = tuple(k for k in order if k != 'Rd')
    sig = exact(ctx, c.get('soiling_significance', .75))
    crit = exact(ctx, c.get('convergence_criterion', 5e-3))
    if c.get('free') == 'crit':
        crit = ctx.real('criterion', -1, 1)
    elif c.get('free') != 'none':
        sig = ctx.real('significance', 0, 10)
    kw.update(soiling_significance=sig, convergence_criterion=crit)
    for k in ('cleaning_sensitivity', 'pruning_iterations', 'clean_pruning_sensitivity',
              'process_noise', 'renormalize_SR', 'ffill', 'clip_soiling'):
        if k in c:
            kw[k] = c[k]
    parts = {'_force_periodicity': period, '_rolling_median_ce_detection': detect, '_collapse_cleaning_events': collapse}
    names = {k: helper(S, k) for k in parts}
    if None in names.values():
        return                          # the steps are no longer separate functions: nothing to stand in for
    with method(S.CODSAnalysis, '_Kalman_filter_for_SR', kalman), patched(
            statsmodels__tsa__seasonal__STL=Stl, statsmodels__tsa__stattools__adfuller=adf,
            statsmodels__nonparametric__api__lowess=low,
            rdtools__degradation__degradation_year_on_year=yoy,
            **{f'rdtools__soiling__{names[k]}': v for k, v in parts.items()}):
        df, res = S.CODSAnalysis(pm).iterative_signal_decomposition(**kw)
    ctx.unchanged(keep, pm, 'input')
    # ---- independent statement, replaying the answers of the fitting steps
    for k in nk:
        nk[k] = 0
    one = [1] * n
    sr, sc, rd, rate, shift = one, one, one, 0, 1
    steps = [e for e in log if e[0] in (('SR', 'SC') if stl else ('SR', 'SC', 'Rd'))]
    steps_rd = [e for e in log if e[0] == 'Rd']
    conv = [rmse(ctx, P, one)]
    perfect, change, ns_ = True, None, len(order)
    cur = list(order)
    it, i0 = 0, 0
    maxit = c.get('iters', 3)
    cs, ps = Fraction(str(c.get('cleaning_sensitivity', .5))), Fraction(str(c.get('clean_pruning_sensitivity', .6)))
    events = None
    ne = 0
    ev = lambda k: [i in c.get('events', [()])[min(k, len(c.get('events', [()])) - 1)] for i in range(n)]
    kept = lambda k: [i in c.get('kept', [(3,)])[min(k, len(c.get('kept', [(3,)])) - 1)] for i in range(n)]
    events = ev(0)
    ne = 1
    done = False
    while not done and it < maxit:
        want = cur[it % ns_]
        if it >= len(steps):
            ctx.check(False, 'all fitting steps carried out')
            return
        kind, got, extra = steps[it]
        if not ctx.check(kind == want, f'step {it + 1} fits the component in turn'):
            return
        it += 1
        if want == 'SR':
            if it > 2:
                cs, ps = cs * Fraction(12, 10), ps / Fraction(11, 10)
                events = [a or b for a, b in zip(kept(nk['SR'] - 1), ev(ne))]
                ne += 1
            z = [NAN if missing(p) else ctx.div(ctx.div(p, b * d), shift) for p, b, d in zip(P, rd, sc)]
            for i in range(n):
                ctx.eq(got[i], z[i], f'step {it}: soiling fitted to the record without degradation and season [{i}]')
            ctx.check(bool(extra.get('perfect_cleaning')) == perfect, f'step {it}: perfect cleaning only before the first convergence')
            pce = extra.get('prescient_cleaning_events')
            if pce is not None:
                ctx.check([bool(b) for b in pce] == events, f'step {it}: cleaning events handed on')
            for k, dflt in (('clip_soiling', True), ('pruning_iterations', 1), ('process_noise', 1e-4), ('renormalize_SR', None)):
                if k in extra:
                    ctx.check(extra[k] == c.get(k, dflt), f'step {it}: {k} passed on')
            if 'clean_pruning_sensitivity' in extra:
                ctx.check(abs(extra['clean_pruning_sensitivity'] - float(ps)) < 1e-9, f'step {it}: pruning sensitivity')
            _, sr = comp('SR', SRS, 0.5, 1)
        elif want == 'SC':
            raw = [NAN if missing(p) else ctx.div(p, a) for p, a in zip(P, sr)]
            for i in range(n):
                if missing(raw[i]):
                    lo_ = max(j for j in range(i) if not missing(raw[j]))
                    hi_ = min(j for j in range(i, n) if not missing(P[j]))
                    raw[i] = raw[lo_] + (ctx.div(P[hi_], sr[hi_]) - raw[lo_]) * ctx.frac(1, hi_ - lo_)
            vals = list(got)
            ctx.check(len(vals) == n, f'step {it}: season fitted to every day')
            for i in range(n):
                ctx.eq(ctx.unlog(vals[i]), raw[i], f'step {it}: season fitted to the record without soiling [{i}]')
            _, sc = comp('SC', SCS, 0.5, 1.5)
            if stl:
                rd = [exact(ctx, math.exp(TREND[i])) for i in range(n)]
                e = steps_rd[nk['Rd']] if nk['Rd'] < len(steps_rd) else None
                if not ctx.check(e is not None, f'step {it}: rate of the fitted trend'):
                    return
                for i in range(n):
                    ctx.eq(e[1][i], rd[i], f'step {it}: rate of the fitted trend [{i}]')
                k = nk['Rd']
                nk['Rd'] += 1
                rate = real(f'rd{k}', -5, 5) if sym.get(('Rd', k)) else exact(ctx, RDS[k % len(RDS)])
        else:
            for i in range(n):
                w = NAN if missing(P[i]) else ctx.div(P[i], sc[i] * sr[i])
                ctx.eq(got[i], w, f'step {it}: degradation fitted to the record without season and soiling [{i}]')
            k = nk['Rd']
            nk['Rd'] += 1
            rate = real(f'rd{k}', -5, 5) if sym.get(('Rd', k)) else exact(ctx, RDS[k % len(RDS)])
            rd = [1 + rate * ctx.frac(i, 36500) for i in range(n)]
        tot = [a * b * d for a, b, d in zip(sr, sc, rd)]
        shift = wmean(ctx, [NAN if missing(p) else ctx.div(p, t) for p, t in zip(P, tot)])
        conv.append(rmse(ctx, P, [t * shift for t in tot]))
        if it >= ns_:
            old, new = conv[-ns_ - 1], conv[-1]
            small = (old - new) < crit * old
            if c.get('free') == 'crit':
                ctx.assume(ctx.Or((old - new) < crit * old - ctx.frac(1, 10 ** 9), (old - new) > crit * old + ctx.frac(1, 10 ** 9)))
            if perfect:
                if 2 * it >= maxit or bool(small):
                    perfect = False
                    last = (it - 1) % ns_
                    cur = [cur[(i + ns_ - 1 - last) % ns_] for i in range(ns_)]
                    change = it
            elif it >= maxit or (it >= change + ns_ and bool(small)):
                done = True
    ctx.check(len(steps) == it, 'no further fitting steps')
    # ---- result
    for nm, w in (('soiling_ratio', sr), ('seasonal_component', sc), ('degradation_trend', rd)):
        v = df[nm]
        for i in range(n):
            ctx.eq(v.iloc[i], w[i], f'{nm}[{i}] is the last fitted one')
    ctx.check(list(df.index) == list(idx), 'result on the days of the record')
    tot = [a * b * d for a, b, d in zip(sr, sc, rd)]
    resid = [NAN if missing(p) else ctx.div(p, t) for p, t in zip(P, tot)]
    shift = wmean(ctx, resid)
    for i in range(n):
        ctx.eq(df['residuals'].iloc[i], resid[i], f'residual {i}')
        ctx.eq(df['total_model'].iloc[i], tot[i] * shift, f'model {i}')
    ctx.check([bool(b) for b in df['cleaning_events']] == kept(nk['SR'] - 1), 'cleaning events of the last soiling fit')
    ctx.eq(res['residual_shift'], shift, 'residual shift')
    ctx.eq(res['degradation'], rate, 'degradation rate')
    ctx.eq(res['soiling_loss'], (1 - wmean(ctx, sr)) * 100, 'soiling loss')
    tm = [t * shift for t in tot]
    ctx.eq(res['RMSE'] * res['RMSE'], wmean(ctx, [NAN if missing(p) else (p - t) * (p - t) for p, t in zip(P, tm)]), 'squared error of the model')
    ctx.le(0, res['RMSE'], 'error of the model not negative')
    if c.get('free') == 'none':
        ctx.check(not bool(res['small_soiling_signal']), 'soiling signal not small at significance zero')
        return
    a = quant(ctx, sr, 0.9) - quant(ctx, sr, 0.1)
    b = quant(ctx, resid, 0.9) - quant(ctx, resid, 0.1)
    tiny = ctx.frac(1, 10 ** 9)
    if bool(res['small_soiling_signal']):
        ctx.check(a < sig * b + tiny, 'small soiling signal flagged only when small')
    else:
        ctx.check(a >= sig * b - tiny, 'small soiling signal flagged when small')
    ctx.check(len(adf_in) == 1 and len(adf_in[0]) == n - len(hole), 'stationarity tested on the known residuals')


def h_refuse(ctx):
    from rdtools.soiling import CODSAnalysis
    n = 6
    idx = pd.date_range('2020-02-25', periods=n, freq='D')
    pm = ctx.series('p', idx, lo=0.5, hi=1.5)
    irr = ctx.mk_series(list(pm), pd.DatetimeIndex([t for i, t in enumerate(pd.date_range('2020-02-25', periods=n + 1, freq='D')) if i != 3]))
    ctx.expect_raises(ValueError, lambda: CODSAnalysis(irr), 'days left out')
    ctx.expect_raises(ValueError, lambda: CODSAnalysis(ctx.mk_series(list(pm), pd.date_range('2020-02-25', periods=n, freq='12h'))), 'not daily')
    ctx.expect_raises(ValueError, lambda: CODSAnalysis(pm).iterative_signal_decomposition(order=('SC', 'Rd')), 'no soiling component')
    # leading missing days are left out
    for k in (1, 3):
        lead = ctx.mk_series([NAN] * k + list(pm)[k:], idx)
        got = CODSAnalysis(lead).pm
        ctx.check(list(got.index) == list(idx[k:]), 'leading missing days left out')
        ctx.eq_series(got, list(pm)[k:], 'record from the first known day')


def jobs(tier):
    th = tier == 'thorough'
    S = ('SR',)
    far = dict(convergence_criterion=-1e9)
    J = [('refuse', h_refuse, {}),
         ('soiling', h, dict(order=('SR', 'Rd'), iters=2, sym={('SR', 0): (2,)}, n=6, **far)),
         ('rate', h, dict(order=('SR', 'Rd'), iters=2, sym={('Rd', 0): True}, n=3, free='none', soiling_significance=0, **far)),
         ('rate-first', h, dict(order=('Rd', 'SR'), iters=2, sym={('Rd', 0): True}, n=3, free='none', soiling_significance=0, **far)),
         ('season', h, dict(order=('SR', 'SC', 'Rd'), iters=3, sym={('SC', 0): (1,)}, n=6, **far)),
         ('season-first', h, dict(order=('SC', 'SR', 'Rd'), iters=3, sym={('SR', 0): (3,)}, n=6, hole=(2,), tz='UTC', **far)),
         ('record', h, dict(order=('SR', 'SC', 'Rd'), iters=3, psym=(1, 4), n=6, **far)),
         ('hole', h, dict(order=('SR', 'Rd'), iters=2, hole=(3, 4), psym=(5,), n=7, **far)),
         ('sr-only', h, dict(order=S, iters=3, sym={('SR', 2): (1,)}, events=[(2,), (5,), (1, 4)], kept=[(2,), (3, 5), (5,)], n=8,
                             clip_soiling=False, pruning_iterations=2, process_noise=1e-3, renormalize_SR=0.9)),
         ('long', h, dict(order=('SR', 'Rd'), iters=6, sym={('SR', 2): (3,)}, n=8, events=[(2,), (5,)], kept=[(2,), (3, 5), (5,)], **far)),
         ('long-3', h, dict(order=('SR', 'SC', 'Rd'), iters=7, sym={('SC', 1): (3,)}, n=6, **far)),
         ('long-3b', h, dict(order=('SC', 'SR', 'Rd'), iters=8, psym=(2,), n=6, clean_pruning_sensitivity=.9, **far)),
         ('stop', h, dict(order=('SR', 'Rd'), iters=6, free='crit', n=6)),
         ('stop-2', h, dict(order=('Rd', 'SR'), iters=9, free='crit', n=6)),
         ('stop-3', h, dict(order=('SR', 'SC', 'Rd'), iters=9, free='crit', n=6)),
         ('stop-sr', h, dict(order=S, iters=4, free='crit', n=6)),
         ('stl', h, dict(order=('SR', 'SC', 'Rd'), iters=2, sym={('Rd', 0): True, ('SR', 0): (2,)}, n=4, method='STL', free='none', soiling_significance=0, **far)),
         ('stl-2', h, dict(order=('SC', 'SR'), iters=5, sym={('Rd', 2): True}, n=6, method='STL', free='none', soiling_significance=0, **far)),
         ('signif', h, dict(order=S, iters=1, psym=(1, 3), n=6, **far))]
    if th:
        J += [('stop-18', h, dict(order=('SC', 'SR', 'Rd'), iters=18, free='crit', n=6)),
              ('record-4', h, dict(order=('SR', 'SC', 'Rd'), iters=3, psym=(1, 4, 7, 9), n=12, **far))]
    for j in J:
        if j[2] and not j[2].get('psym'):
            j[2]['const_sqrt'] = True
    return J
