"""P05 normalised energy is measured energy over expected energy on matching intervals"""
from .lib import *

COVERAGE = ('normalize_with_expected_power and normalize_with_pvwatts executed symbolically; the solver compares each '
            'normalised value and insolation with the ratio of independently integrated energies')
BOUNDS = 'up to 5 measured intervals, expected power at the same, half or double cadence, shifted/longer/shorter records, missing values'
ASSUMPTIONS = ['regular measured record (frequency attribute or inferable)']


def _expected(ctx, idx, vals, pv_idx, freq_ns, pv_mean):
    """energy on the measured interval grid from a modelled power record"""
    t, v = ns(idx), list(vals)
    steps = [t[i + 1] - t[i] for i in range(len(t) - 1)]
    mean = Fraction(sum(steps), len(steps))
    if mean > pv_mean:
        v = ref_interp(ctx, t, v, ns(pv_idx), None)
        t = ns(pv_idx)
    return ref_energy(ctx, t, v, freq_ns, None, 'right_labeled')


def h_norm(ctx):
    import rdtools
    c = ctx.cfg
    step = pd.Timedelta(c['step'])
    idx = pd.date_range(c['start'], periods=c['n'], freq=c['step'], tz=c.get('tz'))
    if c.get('nofreq'):
        idx = pd.DatetimeIndex(list(idx))
    midx = pd.date_range(pd.Timestamp(c['start'], tz=c.get('tz')) + step * c.get('mshift', 0), periods=c['mn'],
                         freq=c['mstep'])
    pv = ctx.series('pv', idx, nan=c.get('pvnan', False))
    ex = ctx.series('ex', midx, nan=c.get('exnan', False))
    poa = ctx.series('poa', midx, nan=c.get('poanan', False))
    f = [freeze(x) for x in (pv, ex, poa)]
    if c.get('pvwatts'):
        rated = ctx.real('rated', 1, 10000)
        gamma = ctx.real('gamma', -0.01, 0)
        tc = ctx.series('tc', midx)
        en, ins = rdtools.normalize_with_pvwatts(pv, dict(poa_global=poa, power_dc_rated=rated, temperature_cell=tc, gamma_pdc=gamma))
        f[1] = ctx.mk_series([rated * g / 1000 * (1 + gamma * (x - 25)) for g, x in zip(poa, tc)], midx, 'ex')
    else:
        kw = {} if c['input'] == 'power' and c.get('default') else dict(pv_input=c['input'])
        en, ins = rdtools.normalize_with_expected_power(pv, ex, poa, **kw)
    sns = int(step.value)
    if c['input'] == 'power':
        te, ve = ref_energy(ctx, ns(idx), list(f[0]), sns, None, 'right_labeled')
        pvm = Fraction(sns)
    else:
        te, ve = ns(idx), list(f[0])
        pvm = Fraction(sns)
    tx, vx = _expected(ctx, midx, f[1], idx, sns, pvm)
    ti, vi = _expected(ctx, midx, f[2], idx, sns, pvm)
    ce, cx, ci = dict(zip(te, ve)), dict(zip(tx, vx)), dict(zip(ti, vi))
    union = sorted(set(te) | set(tx) | set(ti))
    ctx.check(ns(en.index) == union, 'normalised index is the union of the interval labels')
    ctx.check(ns(ins.index) == union, 'insolation has the same index')
    ctx.eq_series(ins, [ci.get(t, NAN) for t in union], 'insolation')
    want = []
    for t in union:
        a, b = ce.get(t, NAN), cx.get(t, NAN)
        want.append(NAN if missing(a) or missing(b) else ctx.div(a, b))
    ctx.eq_series(en, want, 'normalised energy')
    ctx.unchanged(f[0], pv, 'pv input')
    ctx.unchanged(f[2], poa, 'poa input')


def h_consistent(ctx):
    """power and energy inputs describing the same production give the same result"""
    import rdtools
    idx = pd.date_range('2020-01-01', periods=4, freq=ctx.cfg['step'])
    pv = ctx.series('pv', idx)
    ex = ctx.series('ex', idx, lo=1)
    poa = ctx.series('poa', idx)
    k = ctx.frac(int(pd.Timedelta(ctx.cfg['step']).value), H)
    a, _ = rdtools.normalize_with_expected_power(pv, ex, poa)
    b, _ = rdtools.normalize_with_expected_power(ctx.mk_series([x * k for x in pv], idx), ex, poa, pv_input='energy')
    ctx.eq_series(b.iloc[1:], list(a), 'energy input equals power input')
    # the system's unit of power cancels
    u = ctx.real('u', 0, 100000, lo_open=True)
    d, _ = rdtools.normalize_with_expected_power(pv * u, ex * u, poa)
    ctx.eq_series(d, list(a), 'unit-free')


def h_bad(ctx):
    import rdtools
    idx = pd.date_range('2020-01-01', periods=5, freq='h')
    pv = ctx.series('pv', idx)
    ex = ctx.series('ex', idx, lo=1)
    poa = ctx.series('poa', idx)
    ctx.expect_raises(ValueError, lambda: rdtools.normalize_with_expected_power(pv, ex, poa, pv_input='foo'), 'pv_input')
    irr = ctx.mk_series(list(pv), stamps('2020-01-01', [1, 2, 5, 1]))
    ctx.expect_raises(ValueError, lambda: rdtools.normalize_with_expected_power(irr, ex, poa), 'irregular pv')


def jobs(tier):
    th = tier == 'thorough'
    J = []
    n = 5 if th else 4
    for inp in ['power', 'energy']:
        for step, ms, mn in [('1h', '1h', n), ('1h', '30min', 2 * n - 1), ('1h', '2h', 4), ('15min', '15min', n),
                             ('15min', '1h', 3), ('30min', '10min', 10), ('1D', '12h', 8)]:
            for extra in [{}, {'nofreq': True}, {'mshift': 1}, {'mshift': -1}] + ([{'tz': 'US/Eastern'}] if step == '1h' else []):
                if extra.get('mshift') and ms != step:
                    continue
                nm = f'{inp}-{step}-{ms}-' + '-'.join(extra)
                J.append((nm + str(extra.get('mshift', '')), h_norm,
                          dict(n=n, mn=mn, start='2020-03-07 22:00', step=step, mstep=ms, input=inp, default=True, **extra)))
        J.append((f'{inp}-nan', h_norm, dict(n=4, mn=4, start='2020-01-01', step='1h', mstep='1h', input=inp, pvnan=True)))
        J.append((f'{inp}-exnan', h_norm, dict(n=4, mn=7, start='2020-01-01', step='1h', mstep='30min', input=inp, exnan=[1, 2, 4])))
    for inp in ['power', 'energy']:
        for mn in [3, 4, 6]:
            J.append((f'{inp}-short-exnan-{mn}', h_norm,
                      dict(n=5, mn=mn, start='2020-01-01', step='1h', mstep='1h', input=inp, exnan=[1, 2], poanan=[1])))
        J.append((f'{inp}-coarse-exnan', h_norm,
                  dict(n=5, mn=4, start='2020-01-01', step='1h', mstep='2h', input=inp, exnan=[1, 2], pvnan=[2])))
    J.append(('pvwatts', h_norm, dict(n=3, mn=3, start='2020-01-01', step='1h', mstep='1h', input='energy', pvwatts=True)))
    J.append(('pvwatts-fine', h_norm, dict(n=3, mn=5, start='2020-01-01', step='1h', mstep='30min', input='energy', pvwatts=True)))
    for s in ['1h', '15min', '30min']:
        J.append((f'consistent-{s}', h_consistent, dict(step=s)))
    J.append(('bad', h_bad, {}))
    return J
