"""P27 combined degradation and soiling: model selection and bootstrap intervals"""
from itertools import product
from .cods import *

COVERAGE = ('CODSAnalysis.run_bootstrap and soiling_cods executed symbolically with arbitrary answers of the single decompositions (components, '
            'errors, rates, losses, failures) and of the resampling; solver proves which model is kept, which bootstrap fits count, and every '
            'reported estimate, interval, model and residual')
BOUNDS = '3-4 days, 1-16 initial fits of which up to 8 fail, 1-16 repetitions of which 1-3 succeed, arbitrary components on 1-2 days, arbitrary errors of 2 fits'
ASSUMPTIONS = ['a single decomposition may return any components (they are decided separately)', 'the resampled records and seasons may be any']
ORD = (('SR', 'SC', 'Rd'), ('SC', 'SR', 'Rd'))
DEF = dict(order_alternatives=ORD, cleaning_sensitivity_alternatives=(.25, .75), clean_pruning_sensitivity_alternatives=(1 / 1.5, 1.5),
           forward_fill_alternatives=(True, False))


def h(ctx):
    import rdtools.soiling as S
    c = ctx.cfg
    n = c.get('n', 3)
    idx = pd.date_range('2020-02-27', periods=n, freq='D')
    hole = c.get('hole', ())
    E = lambda v: exact(ctx, round(v, 6))
    P = [NAN if i in hole else (ctx.real(f'pi{i}', 0.5, 1.5) if i in c.get('psym', ()) else E(0.9 + 0.02 * i)) for i in range(n)]
    pm = ctx.mk_series(P, idx)
    keep = freeze(pm)
    alt = dict(DEF, **c.get('alt', {}))
    combos = list(product(*(alt[k] for k in DEF)))
    nm = len(combos)
    reps = c.get('reps', 16)
    per = -(-reps // nm)
    memo = {}

    def real(name, lo, hi):
        if name not in memo:
            memo[name] = ctx.real(name, lo, hi)
        return memo[name]
    bad, raised, small = set(c.get('bad', ())), set(c.get('raised', ())), set(c.get('small', ()))
    win = c.get('win', (3, 10))                 # repetitions that succeed
    weak = set(c.get('weak', ()))               # repetitions with non-stationary residuals
    isym, bsym = c.get('isym', {}), c.get('bsym', {})

    def values(tag, k, col, lo, hi, base):
        pos = (isym if tag == 'i' else bsym).get(col, ())
        return [real(f'{tag}{k}_{col}{d}', lo, hi) if (k, d) in pos else E(base + 0.001 * d + 0.0007 * k) for d in range(n)]

    def answer(tag, k):
        v = dict(soiling_ratio=values(tag, k, 'soiling_ratio', 0.5, 0.999, 0.94),
                 soiling_rates=values(tag, k, 'soiling_rates', -0.01, 0, -0.005),
                 seasonal_component=values(tag, k, 'seasonal_component', 0.5, 1.5, 1.0),
                 degradation_trend=values(tag, k, 'degradation_trend', 0.5, 1.5, 0.99),
                 total_model=values(tag, k, 'total_model', 0.5, 1.5, 0.93))
        for d in c.get('ones', {}).get((tag, k), ()):
            v['soiling_ratio'][d] = E(1.0)
        for d, x in c.get('out', {}).get((tag, k), {}).items():
            v['soiling_ratio'][d] = E(x)
        v['cleaning_events'] = [(k + d) % 3 == 0 for d in range(n)]
        rm = (isym if tag == 'i' else bsym).get('RMSE', ())
        r = dict(RMSE=real(f'{tag}{k}_rmse', 0.01, 0.1) if k in rm else E(0.02 + 0.001 * ((k * 7) % 11)),
                 degradation=real(f'{tag}{k}_rd', -3, 3) if k in bsym.get('rd', ()) and tag == 'b' else E(-0.5 + 0.03 * k),
                 soiling_loss=real(f'{tag}{k}_sl', 0, 50) if k in bsym.get('sl', ()) and tag == 'b' else E(3 + 0.2 * k),
                 residual_shift=E(1 + 0.01 * k), small_soiling_signal=(k in small) if tag == 'i' else False)
        return v, r
    calls = []

    def fit(self, **k):
        m = len(calls)
        calls.append((list(self.pm), list(self.pm.index), k))
        tag, kk = ('i', m) if m < nm else ('b', m - nm)
        if (tag == 'i' and kk in raised) or (tag == 'b' and kk not in win and kk not in weak):
            raise ValueError('no fit')
        v, r = answer(tag, kk)
        d = pd.DataFrame(index=idx)
        for col, vals in v.items():
            d[col] = ctx.mk_series(vals, idx) if col != 'cleaning_events' else vals
        if tag == 'b' and len(self.pm) != n:
            d = d.loc[self.pm.index]
        d['residuals'] = ctx.mk_series([E(1.0)] * n, idx)
        ok = kk not in (bad if tag == 'i' else weak)
        r.update(adf_res=(-5.0 - kk, 0.001 if ok else 0.2), convergence_metric=[1.0], used_model=d['total_model'])
        return d, r
    made, seas = [], []

    def boots(signal, model, sample_nr=10, bootstrap_seed=None, **k):
        made.append((list(signal), list(model), sample_nr))
        j = len(made) - 1
        return pd.DataFrame({s: ctx.mk_series([E(0.8 + 0.01 * j + 0.003 * s + 0.001 * d) for d in range(n)], idx) for s in range(sample_nr)}, index=idx)

    def seasons(list_of_SCs, sample_nr=10, **k):
        seas.append(([list(s) for s in list_of_SCs], sample_nr))
        return pd.DataFrame({b: ctx.mk_series(season(b), idx) for b in range(len(list_of_SCs) * sample_nr)}, index=idx)

    def season(b):
        return [real(f'season{b}_{d}', 0.8, 1.2) if (b, d) in c.get('ssym', ()) else E(1 + 0.01 * b - 0.002 * d) for d in range(n)]
    adf_in, yoy_in = [], []

    def adf(x, **k):
        adf_in.append(list(x))
        return (-5.0, 0.001)
    yo = [real('yoy', -3, 3), real('yoy_lo', -5, 0), real('yoy_hi', 0, 5)] if c.get('small') else None

    def yoy(s, *a, **k):
        yoy_in.append(list(s))
        return (yo[0], [yo[1], yo[2]], {})
    import io
    import contextlib
    kw = dict(c.get('kw', {}), **c.get('alt', {}), reps=reps)
    if 'level' in c:
        kw['confidence_level'] = c['level']
    sink = io.StringIO()
    state = {}

    def run():
        if c.get('func'):
            state['r'] = S.soiling_cods(pm, **kw)
        else:
            state['a'] = S.CODSAnalysis(pm)
            state['r'] = state['a'].run_bootstrap(**kw)
    with method(S.CODSAnalysis, 'iterative_signal_decomposition', fit), patched(
            rdtools__soiling___make_time_series_bootstrap_samples=boots, rdtools__soiling___make_seasonal_samples=seasons,
            statsmodels__tsa__stattools__adfuller=adf, rdtools__degradation__degradation_year_on_year=yoy), contextlib.redirect_stdout(sink):
        if len(bad) * 2 > nm and not raised:
            ctx.expect_raises(RuntimeError, run, 'record that cannot be decomposed')
            return
        run()
    ctx.unchanged(keep, pm, 'input')
    # ---- the initial fits
    first = calls[:nm]
    for m, (sig, ix, k) in enumerate(first):
        for d in range(n):
            ctx.eq(sig[d], P[d], f'initial fit {m} made to the record [{d}]')
        got = (tuple(k.get('order')), k.get('cleaning_sensitivity'), k.get('clean_pruning_sensitivity'), k.get('ffill'))
        ctx.check(got == combos[m], f'initial fit {m} uses its combination of alternatives')
        ctx.check(k.get('degradation_method') == c.get('kw', {}).get('degradation_method', 'YoY'), f'initial fit {m} degradation method')
        for key in ('soiling_significance', 'convergence_criterion'):
            if key in c.get('kw', {}):
                ctx.check(k.get(key) == c['kw'][key], f'initial fit {m} gets {key}')
    good = [m for m in range(nm) if m not in raised]
    ok = [m for m in good if m not in bad]
    ans = {m: answer('i', m) for m in good}
    isone = lambda v: ctx.frac(sum(1 for x in v if str(x) in ('1', '1.0')), n)
    iw = {m: ctx.div(1, ans[m][1]['RMSE'] * (1 + ctx.frac(len(c.get('ones', {}).get(('i', m), ())), n))) for m in good}
    best = good[0]
    for m in good[1:]:
        if bool(iw[m] > iw[best]):
            best = m
    bv, br = ans[best]
    if len(small) * 2 > nm:
        ctx.check(len(calls) == nm, 'no bootstrap when the soiling signal is small')
        mean = wmean(ctx, bv['soiling_ratio'])
        if c.get('func'):
            sr, ci, rd, rdci, df = state['r']
            ctx.eq(sr, 1, 'small signal: no soiling')
            loss = [(1 - x) * 100 for x in ci]
            deg = [rd, rdci[0], rdci[1]]
        else:
            df, deg, loss = state['r']
            ctx.eq(loss[0], 0, 'small signal: no loss')
            loss = loss[1:]
        ctx.eq(loss[0], 0, 'small signal: lower loss limit')
        ctx.eq(loss[1], (1 - mean) * 100, 'small signal: upper loss limit is the loss of the best model in percent')
        for a, b in zip(deg, yo):
            ctx.eq(a, b, 'small signal: year-on-year degradation')
        for d in range(n):
            ctx.eq(yoy_in[0][d], P[d], 'small signal: year-on-year rate of the record')
            for col in ('soiling_ratio', 'seasonal_component', 'degradation_trend'):
                ctx.eq(df[col].iloc[d], bv[col][d], f'small signal: best model {col} [{d}]')
        if not c.get('func'):
            ctx.check(state['a'].small_soiling_signal is True, 'small signal flagged')
            ctx.eq(state['a'].residual_shift, br['residual_shift'], 'small signal: shift of the best model')
        return
    # ---- resampling
    ctx.check(len(made) == len(ok), 'records resampled from every acceptable fit')
    for (sig, mod, k), m in zip(made, ok):
        ctx.check(k == per, 'number of resamples per fit')
        for d in range(n):
            ctx.eq(sig[d], P[d], f'resampling of the record, fit {m}')
            ctx.eq(mod[d], ans[m][0]['total_model'][d], f'resampling around the model of fit {m}')
    ctx.check(len(seas) == 1 and seas[0][1] == per, 'number of seasonal samples per fit')
    ctx.check(len(seas[0][0]) == len(ok), 'seasonal samples of every acceptable fit')
    for v, m in zip(seas[0][0], ok):
        for d in range(n):
            ctx.eq(v[d], ans[m][0]['seasonal_component'][d], f'seasonal samples of fit {m}')
    R = per * len(ok)
    second = calls[nm:]
    ctx.check(len(second) == R, 'one decomposition per resampled record')
    lo, hi = alt['cleaning_sensitivity_alternatives'][0], alt['cleaning_sensitivity_alternatives'][-1]
    plo, phi = alt['clean_pruning_sensitivity_alternatives'][0], alt['clean_pruning_sensitivity_alternatives'][-1]
    for b, (sig, ix, k) in enumerate(second):
        j, s = divmod(b, per)
        sb = season(b)
        for d in range(n):
            ctx.eq(sig[d], ctx.div(E(0.8 + 0.01 * j + 0.003 * s + 0.001 * d), sb[d]), f'repetition {b} fits the resampled record without its season [{d}]')
        ctx.check(lo <= k.get('cleaning_sensitivity') <= hi and plo <= k.get('clean_pruning_sensitivity') <= phi, f'repetition {b}: sensitivities within the alternatives')
        ctx.check(tuple(k.get('order')) == (('SR', 'SC') if c.get('kw', {}).get('degradation_method') == 'STL' else ('SR', 'Rd')), f'repetition {b}: components')
        ctx.check(k.get('degradation_method') == c.get('kw', {}).get('degradation_method', 'YoY'), f'repetition {b}: degradation method')
    won = [b for b in range(R) if b in win]
    W = {b: answer('b', b) for b in won}
    ones = {b: len(c.get('ones', {}).get(('b', b), ())) for b in won}
    w = [ctx.div(1, W[b][1]['RMSE'] * (1 + ctx.frac(ones[b], n))) for b in won]
    tot = ctx.sum(w)
    w = [ctx.div(x, tot) for x in w]
    level = c.get('level', 68.2)
    ql, qh = (Fraction(50) - Fraction(str(level)) / 2) / 100, (Fraction(50) + Fraction(str(level)) / 2) / 100
    if not ctx.symbolic:
        ql, qh = float(ql), float(qh)
    col = lambda name, d: [W[b][0][name][d] for b in won]
    dot = lambda v: ctx.sum([a * b for a, b in zip(v, w)])
    deg = [W[b][1]['degradation'] for b in won]
    sl = [W[b][1]['soiling_loss'] for b in won]
    wd = [dot(deg), ctx.quantile(deg, ql), ctx.quantile(deg, qh)]
    wl = [dot(sl), ctx.quantile(sl, ql), ctx.quantile(sl, qh)]
    if c.get('func'):
        sr, ci, rd, rdci, df = state['r']
        ctx.eq(sr, 1 - wl[0] * ctx.frac(1, 100), 'average soiling ratio')
        a, b = 1 - wl[1] * ctx.frac(1, 100), 1 - wl[2] * ctx.frac(1, 100)
        ctx.eq(ctx.mini(list(ci)), ctx.mini([a, b]), 'lower soiling ratio limit')
        ctx.eq(ctx.maxi(list(ci)), ctx.maxi([a, b]), 'upper soiling ratio limit')
        gd = [rd, rdci[0], rdci[1]]
    else:
        df, gd, gl = state['r']
        for k in range(3):
            ctx.eq(gl[k], wl[k], f'soiling loss and limits [{k}]')
        ctx.check(state['a'].small_soiling_signal is False, 'soiling signal not small')
    for k in range(3):
        ctx.eq(gd[k], wd[k], f'degradation and limits [{k}]')
    ctx.check(list(df.index) == list(idx), 'result on the days of the record')
    sr_ = [ctx.maxi([0, ctx.mini([1, x])]) for x in bv['soiling_ratio']]
    rdt = [1 + wd[0] * ctx.frac(d, 36500) for d in range(n)]
    sc = [dot([season(b)[d] for b in won]) for d in range(n)]
    model = [a * b * e for a, b, e in zip(sr_, rdt, sc)]
    res = [NAN if missing(p) else ctx.div(p, m) for p, m in zip(P, model)]
    shift = wmean(ctx, res)
    for d in range(n):
        ctx.eq(df['soiling_ratio'].iloc[d], sr_[d], f'soiling ratio of the best model [{d}]')
        for nm_, cname in (('SR', 'soiling_ratio'), ('rates', 'soiling_rates'), ('model', 'total_model')):
            ctx.eq(df[nm_ + '_low'].iloc[d], ctx.quantile(col(cname, d), ql), f'{nm_}_low[{d}]')
            ctx.eq(df[nm_ + '_high'].iloc[d], ctx.quantile(col(cname, d), qh), f'{nm_}_high[{d}]')
        ctx.eq(df['bt_soiling_ratio'].iloc[d], dot(col('soiling_ratio', d)), f'bootstrapped soiling ratio [{d}]')
        ctx.eq(df['bt_soiling_rates'].iloc[d], dot(col('soiling_rates', d)), f'bootstrapped soiling rate [{d}]')
        ctx.eq(df['cleaning_events'].iloc[d], dot([1 if W[b][0]['cleaning_events'][d] else 0 for b in won]), f'cleaning probability [{d}]')
        ctx.eq(df['degradation_trend'].iloc[d], rdt[d], f'degradation trend [{d}]')
        ctx.eq(df['seasonal_component'].iloc[d], sc[d], f'seasonal component [{d}]')
        ctx.eq(df['seasonal_low'].iloc[d], ctx.quantile([season(b)[d] for b in won], ql), f'seasonal_low[{d}]')
        ctx.eq(df['seasonal_high'].iloc[d], ctx.quantile([season(b)[d] for b in won], qh), f'seasonal_high[{d}]')
        ctx.eq(df['residuals'].iloc[d], res[d], f'residual [{d}]')
        ctx.eq(df['total_model'].iloc[d], model[d] * shift, f'model [{d}]')
        same = d > 0 and c.get('level_days') and d in c['level_days']
        ctx.eq(df['soiling_rates'].iloc[d], 0 if same else bv['soiling_rates'][d], f'soiling rate [{d}]')
    if not c.get('func'):
        a = state['a']
        ctx.eq(a.residual_shift, shift, 'residual shift')
        ctx.eq(a.RMSE * a.RMSE, wmean(ctx, [NAN if missing(p) else (p - m * shift) * (p - m * shift) for p, m in zip(P, model)]), 'squared error')


def jobs(tier):
    one = dict(order_alternatives=(ORD[0],), cleaning_sensitivity_alternatives=(.5,), clean_pruning_sensitivity_alternatives=(1.0,),
               forward_fill_alternatives=(True,))
    J = [('plain', h, dict(bsym={'soiling_ratio': ((3, 1),)})),
         ('rate', h, dict(bsym={'rd': (10,)}, n=2)),
         ('best', h, dict(isym={'RMSE': (2, 9)}, n=3, win=(4,))),
         ('best-ones', h, dict(isym={'RMSE': (2, 9)}, ones={('i', 9): (0, 2), ('i', 0): (0, 1)}, win=(4,), level_days=())),
         ('weights', h, dict(bsym={'RMSE': (3,)}, ones={('b', 10): (1,)}, n=2)),
         ('loss', h, dict(bsym={'sl': (1, 5), 'rd': (12,)}, win=(1, 5, 12), level=90, n=2)),
         ('func', h, dict(func=True, bsym={'sl': (3, 10)}, n=2)),
         ('weak', h, dict(weak=(1, 7), win=(3, 8, 15), bsym={'total_model': ((3, 0), (8, 0))}, ssym=((8, 1),), n=2)),
         ('season', h, dict(ssym=((3, 1), (10, 1)), n=2)),
         ('record', h, dict(psym=(1,), hole=(2,), n=4)),
         ('clip', h, dict(out={('i', 0): {0: 1.02, 1: -0.01}}, bsym={'soiling_rates': ((3, 1), (10, 1))}, n=3)),
         ('some-bad', h, dict(bad=(0, 3, 7), win=(2, 11), bsym={'soiling_ratio': ((2, 0),)}, n=2)),
         ('half-bad', h, dict(bad=tuple(range(8)), win=(2, 6), bsym={'rd': (2,)}, n=2)),
         ('too-bad', h, dict(bad=tuple(range(9)), psym=(0,))),
         ('raised', h, dict(raised=(4, 15), bad=(2,), win=(0, 12), bsym={'rd': (12,)}, n=2)),
         ('few', h, dict(reps=3, bsym={'rd': (10,)}, n=2)),
         ('more', h, dict(reps=17, win=(16, 31), bsym={'rd': (16, 31)}, n=2)),
         ('one-model', h, dict(alt=one, reps=2, win=(0, 1), bsym={'rd': (0,)}, n=2)),
         ('three', h, dict(alt=dict(one, cleaning_sensitivity_alternatives=(.2, .5, .9)), reps=3, win=(0, 2), bsym={'rd': (0,)}, n=2)),
         ('stl', h, dict(kw=dict(degradation_method='STL', soiling_significance=.5), bsym={'rd': (10,)}, n=2)),
         ('small', h, dict(small=tuple(range(9)), isym={'soiling_ratio': ((0, 1),), 'RMSE': (5,)})),
         ('small-func', h, dict(small=tuple(range(3, 16)), func=True, isym={'soiling_ratio': ((0, 1),)})),
         ('half-small', h, dict(small=tuple(range(8)), bsym={'rd': (10,)}, n=2))]
    if tier == 'thorough':
        J += [('best-3', h, dict(isym={'RMSE': (2, 9, 12), 'soiling_ratio': ((9, 0),)}, n=3, win=(4,))),
              ('weights-3', h, dict(bsym={'RMSE': (3, 10)}, n=2))]
    for j in J:
        if not j[2].get('psym'):
            j[2]['const_sqrt'] = True
    return J
