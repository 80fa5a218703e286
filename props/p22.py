"""P22 end-to-end analysis: the series handed to the degradation and soiling estimators"""
from .chain import *
import math

COVERAGE = ('TrendAnalysis from raw symbolic inputs to the aggregated performance handed to the estimators, executed symbolically (interpolation, '
            'energy, PVWatts or expected power, cell temperature from ambient, 95th-percentile scaling, aggregation); solver proves performance and '
            'insolation per bin equal to an independent computation; the estimators are stubs that record their input and return arbitrary results')
BOUNDS = '3-4 intervals on 1-2 days (raw inputs), or 3-4 bins up to 731 days apart (estimator hand-over); same, finer, coarser and longer sensor records'
ASSUMPTIONS = ['positive irradiance', 'clear-sky irradiance and temperature given by the caller (their models are pvlib)']


EXACT = type('E', (), dict(frac=staticmethod(Fraction)))


def ex(ctx, v):
    return ctx.frac(Fraction(str(v))) if ctx.symbolic else float(v)


def record(ctx, name, c, idx, lo, hi, nan=False, vals=None):
    r = c.get('rec', {}).get(name)
    if r is None:
        i = idx
    else:
        i = pd.date_range(pd.Timestamp(r[0], tz=c.get('tz')), periods=r[2], freq=r[1]) if isinstance(r, tuple) else \
            pd.DatetimeIndex([idx[0] + pd.Timedelta(hours=k) for k in r])
    return pd.Series(vals, i) if vals is not None else ctx.series(name, i, lo=lo, hi=hi, nan=nan)


def grid(ctx, s, idx, mx):
    return ref_interp(ctx, ns(s.index), list(s), ns(idx), mx)


def cell_stub(ctx):
    """any cell temperature model: here ambient + irradiance/32 + wind (wind rounded, it is interpolated in floating point)"""
    def sapm_cell(poa_global, temp_air, wind_speed, a, b, deltaT, **k):
        out = []
        for g, t, w in zip(poa_global, temp_air, wind_speed):
            out.append(NAN if missing(g) or missing(t) or missing(w) else t + g / 32 + ctx.frac(round(float(w) * 256), 256))
        return pd.Series(out, poa_global.index)
    return sapm_cell


def h_chain(ctx):
    from rdtools import TrendAnalysis
    c = ctx.cfg
    case = c.get('case', 'sensor')
    start = c.get('start', '2020-06-01 10:00')
    step = c.get('step', '1h')
    idx = pd.date_range(pd.Timestamp(start, tz=c.get('tz')), periods=c['n'], freq=step)
    sns = int(pd.Timedelta(step).value)
    pv = record(ctx, 'p', c, idx, 0, 100, c.get('pnan', False))
    poa = record(ctx, 'g', c, idx, 100, 1200, c.get('gnan', False))
    kw = dict(pv_input=c.get('input', 'energy'), aggregation_freq=c.get('freq', 'D'))
    mx = None
    if c.get('mx'):
        kw['max_timedelta'] = pd.Timedelta(c['mx'])
        mx = int(pd.Timedelta(c['mx']).value)
    if c.get('interp'):
        kw['interp_freq'] = c['interp']
    gamma = None
    if c.get('gamma'):
        gamma = ctx.real('gamma', -0.01, 0) if c['gamma'] == 'sym' else c['gamma']
        kw['gamma_pdc'] = gamma
    rated = None
    if c.get('rated'):
        rated = ctx.real('rated', 1, 1000) if c['rated'] == 'sym' else c['rated']
        kw['power_dc_rated'] = rated
    temp = c.get('temp', 'cell')
    T = None
    if temp == 'const':
        T = ctx.mk_series([ex(ctx, v) for v in [30, 45, 20, 35, 40, 25][:c['n']]], idx, 't')
        kw['temperature_cell'] = T
    elif temp == 'cell':
        T = record(ctx, 't', c, idx, -20, 80)
        kw['temperature_cell'] = T
    elif temp == 'ambient':
        T = record(ctx, 'a', c, idx, -20, 40)
        kw['temperature_ambient'] = T
        if 'wind' in c:
            kw['windspeed'] = c['wind'] if not isinstance(c['wind'], list) else \
                record(ctx, 'w', dict(c, rec={'w': c['rec']['w']}) if 'w' in c.get('rec', {}) else {}, idx, None, None, vals=[float(x) for x in c['wind']])
        if 'model' in c:
            kw['temperature_model'] = c['model']
    pe = None
    if c.get('expected'):
        pe = record(ctx, 'x', c, idx, 1, 100)
        kw['power_expected'] = pe
    frozen = [(k, v, freeze(v)) for k, v in dict(kw, pv=pv, poa=poa).items() if isinstance(v, pd.Series)]
    if case == 'sensor':
        ta = quiet(TrendAnalysis, pv, poa_global=poa, **kw)
    else:
        kw2 = {k: v for k, v in kw.items() if k not in ('temperature_cell', 'temperature_ambient', 'windspeed')}
        ta = quiet(TrendAnalysis, pv, poa_global=poa, **kw2)
        cs = record(ctx, 's', c, idx, 100, 1200)
        q = dict(poa_global_clearsky=cs)
        q['temperature_ambient_clearsky' if temp == 'ambient' else 'temperature_cell_clearsky'] = T
        ta.set_clearsky(pvlib_location=type('L', (), dict(latitude=40.0, longitude=-105.0))(), pv_tilt=20, pv_azimuth=180, **q)
    P = c.get('params', {})
    ta.filter_params = {k: dict(v) for k, v in P.items()} | ({'clearsky_filter': {'model': 'csi', 'threshold': 1e9}} if case == 'clearsky' else {})
    ta.filter_params_aggregated = {}
    with patched(**({'pvlib__temperature__sapm_cell': cell_stub(ctx)} if c.get('stubcell') else {})):
        quiet(ta.sensor_analysis if case == 'sensor' else ta.clearsky_analysis, analyses=[])
    # ---- independent computation
    V = list(pv)
    if c.get('interp'):
        # on the new grid, between the first and last stamp
        g0 = pd.date_range(idx[0], idx[-1], freq=c['interp'])
        V = grid(ctx, pv, g0, mx)
        idx, sns = g0, int(pd.Timedelta(c['interp']).value)
    on = lambda s, i: grid(ctx, s, i, mx)
    if kw['pv_input'] == 'power':
        te, ve = ref_energy(ctx, ns(idx), V, None, mx, 'right_labeled')
    else:
        te, ve = ns(idx), V
    eidx = idx[1:] if kw['pv_input'] == 'power' else idx
    src, i0 = (poa, idx) if case == 'sensor' else (cs, eidx)
    G = on(src, i0)
    TC = None
    if temp == 'ambient':
        par = {'a': -3.56, 'b': -0.0750, 'deltaT': 3}
        if isinstance(c.get('model'), dict):
            par = c['model']
        elif c.get('model') == 'close_mount_glass_glass':
            par = {'a': -2.98, 'b': -0.0471, 'deltaT': 1}
        w = c.get('wind', 0) if case == 'sensor' else 0
        if isinstance(w, list) and 'w' in c.get('rec', {}):
            w = [float(x) if not missing(x) else NAN for x in ref_interp(EXACT, ns(kw['windspeed'].index), [Fraction(x) for x in c['wind']], ns(i0), mx)]
        TA = on(T, i0)
        TC = []
        for k in range(len(i0)):
            wk = w[k] if isinstance(w, list) else w
            if missing(wk):
                TC.append(NAN)
                continue
            if c.get('stubcell'):
                TC.append(NAN if missing(TA[k]) or missing(G[k]) else TA[k] + G[k] / 32 + ctx.frac(round(wk * 256), 256))
                continue
            f = math.exp(par['a'] + par['b'] * wk)
            f = Fraction(f) + Fraction(par['deltaT'], 1000) if ctx.symbolic else f + par['deltaT'] / 1000
            TC.append(NAN if missing(TA[k]) or missing(G[k]) else TA[k] + G[k] * (ctx.frac(f) if ctx.symbolic else f))
    elif T is not None:
        TC = on(T, i0)
    if pe is not None:
        X = on(pe, idx)
        xi = idx
    else:
        X, xi = [], i0
        for k in range(len(i0)):
            if missing(G[k]) or (gamma is not None and missing(TC[k])):
                X.append(NAN)
                continue
            x = (1 if rated is None else rated) * G[k] / 1000
            if gamma is not None:
                gm = ctx.frac(Fraction(str(gamma))) if isinstance(gamma, float) and ctx.symbolic else gamma
                x = x * (1 + gm * (TC[k] - 25))
            X.append(x)
    cx = dict(zip(*ref_energy(ctx, ns(xi), X, sns, None, 'right_labeled')))
    ci = dict(zip(*ref_energy(ctx, ns(i0), G, sns, None, 'right_labeled')))
    ce = dict(zip(te, ve))
    labels = sorted(set(ce) | set(cx) | set(ci))
    en, ins = [], []
    for t in labels:
        a, b = ce.get(t, NAN), cx.get(t, NAN)
        en.append(NAN if missing(a) or missing(b) else ctx.div(a, b))
        ins.append(ci.get(t, NAN))
    if rated is None and pe is None:
        fin = [x for x in en if not missing(x)]
        small = ctx.quantile(fin, Fraction(95, 100) if ctx.symbolic else 0.95) * ctx.frac(1, 1000)
        big = [x for x in fin if bool(x > small)]
        if not big:
            return
        q = ctx.quantile(big, Fraction(95, 100) if ctx.symbolic else 0.95)
        en = [x if missing(x) else ctx.div(x, q) for x in en]
    st = [pd.Timestamp(t, tz='UTC').tz_convert(c['tz']) if c.get('tz') else pd.Timestamp(t) for t in labels]
    keep = list(range(len(st)))
    if P or case == 'clearsky':
        keep = []
        gd = dict(zip(ns(i0), G))
        md = dict(zip(ns(idx), on(poa, idx)))
        for k, t in enumerate(labels):
            ok = True
            if 'normalized_filter' in P:
                ok = not missing(en[k]) and bool(en[k] > ex(ctx, '0.01'))
            if ok and 'poa_filter' in P:
                ok = not missing(gd.get(t, NAN)) and bool(ctx.And(gd[t] > 200, gd[t] < 1200))
            if ok and case == 'clearsky':
                ok = not missing(gd.get(t, NAN)) and not missing(md.get(t, NAN))
            if ok:
                keep.append(k)
        if not keep:
            return
    rows = ref_aggregate(ctx, [st[k] for k in keep], [en[k] for k in keep], [ins[k] for k in keep], c.get('freq', 'D'))
    out = regular(rows, c.get('freq', 'D'))
    ctx.eq_series(getattr(ta, f'{case}_aggregated_performance'), [r[1] for r in out], 'performance', [r[0] for r in out])
    ctx.eq_series(getattr(ta, f'{case}_aggregated_insolation'), [r[2] for r in out], 'insolation', [r[0] for r in out])
    for k, v, f in frozen:
        ctx.unchanged(f, v, k)


def h_hand(ctx):
    """what the estimators receive, and what is reported back"""
    from rdtools import TrendAnalysis
    import rdtools.soiling
    c = ctx.cfg
    case = c.get('case', 'sensor')
    idx = stamps('2019-03-01 12:00', c['days'], '1D', c.get('tz'))
    n = len(idx)
    en, w = ctx.series('e', idx, lo=0, hi=2), ctx.series('w', idx, lo=1, hi=2000)
    one = pd.Series(800.0, idx)
    ta = quiet(TrendAnalysis, one, poa_global=one, temperature_cell=one / 32, gamma_pdc=-0.004, power_dc_rated=10.0,
               pv_input='energy', aggregation_freq=c.get('freq', 'D'))
    if case == 'clearsky' or c.get('both'):
        ta.set_clearsky(pvlib_location=type('L', (), dict(latitude=40.0, longitude=-105.0))(), pv_tilt=20, pv_azimuth=180,
                        poa_global_clearsky=one, temperature_cell_clearsky=one / 32)
    ta.filter_params = {'normalized_filter': {}, 'clearsky_filter': {'model': 'csi'}}
    ta.filter_params_aggregated = {}
    got = []
    rd, lo, hi = [ctx.fresh(k, -5, 5) for k in ('rd', 'lo', 'hi')]

    def yoy(s, *a, **k):
        got.append(('yoy', s, a, k))
        return rd, [lo, hi], {'k': 'yoy'}

    def srr(s, i, *a, **k):
        got.append(('srr', s, i, a, k))
        return lo, [rd, hi], {'k': 'srr'}

    analyses = c.get('analyses', ['yoy_degradation'])
    yk, sk = c.get('yk', {}), c.get('sk', {})
    run = ta.sensor_analysis if case == 'sensor' else ta.clearsky_analysis
    with patched(rdtools__normalization__normalize_with_pvwatts=lambda *a, **k: (en.copy(), w.copy()),
                 rdtools__degradation__degradation_year_on_year=yoy, rdtools__soiling__soiling_srr=srr):
        kw = {}
        if 'analyses' in c:
            kw['analyses'] = list(analyses)
        if yk:
            kw['yoy_kwargs'] = dict(yk)
        if sk:
            kw['srr_kwargs'] = dict(sk)
        err = None
        try:
            quiet(run, **kw)
        except ValueError as e:
            err = e
    kept = [i for i in range(n) if bool(en.iloc[i] > ex(ctx, '0.01'))]
    if not kept:
        return
    freq = c.get('freq', 'D')
    rows = ref_aggregate(ctx, [idx[i] for i in kept], [en.iloc[i] for i in kept], [w.iloc[i] for i in kept], freq)
    rows = regular([r for r in rows], freq)
    # bins without any point are missing on the regular grid
    lab, _ = bins([idx[i] for i in kept], freq)
    span = rows[-1][0] - rows[0][0]
    short = 'yoy_degradation' in analyses and span < pd.Timedelta(days=730)
    notday = 'srr_soiling' in analyses and freq != 'D'
    ctx.check((err is not None) == (short or notday), f'refused={err!r}, span {span}, freq {freq}')
    if err is not None:
        ctx.check(case not in ta.results, 'no result after a refusal')
        return
    kinds = [g[0] for g in got]
    ctx.check(sorted(kinds) == sorted({'yoy_degradation': 'yoy', 'srr_soiling': 'srr'}[a] for a in analyses), f'estimators run: {kinds}')
    for g in got:
        ctx.eq_series(g[1], [r[1] for r in rows], f'{g[0]} performance', [r[0] for r in rows])
        if g[0] == 'yoy':
            ctx.check(g[2] == () and g[3] == yk, f'options of the year-on-year estimate: {g[3]}')
        else:
            ctx.eq_series(g[2], [r[2] for r in rows], 'soiling insolation', [r[0] for r in rows])
            ctx.check(g[3] == () and g[4] == sk, f'options of the soiling estimate: {g[4]}')
    ctx.check(set(ta.results) == {case} and set(ta.results[case]) == set(analyses), f'results stored: {sorted(ta.results)}')
    for a in analyses:
        r = ta.results[case][a]
        if a == 'yoy_degradation':
            ctx.check(set(r) == {'p50_rd', 'rd_confidence_interval', 'calc_info'} and r['calc_info'] == {'k': 'yoy'}, 'result keys')
            vals = [(r['p50_rd'], rd), (r['rd_confidence_interval'][0], lo), (r['rd_confidence_interval'][1], hi)]
        else:
            ctx.check(set(r) == {'p50_sratio', 'sratio_confidence_interval', 'calc_info'} and r['calc_info'] == {'k': 'srr'}, 'result keys')
            vals = [(r['p50_sratio'], lo), (r['sratio_confidence_interval'][0], rd), (r['sratio_confidence_interval'][1], hi)]
        for k, (a_, b_) in enumerate(vals):
            ctx.eq(a_, b_, f'{a} result {k}')
    if c.get('both'):
        with patched(rdtools__normalization__normalize_with_pvwatts=lambda *a, **k: (en.copy(), w.copy()),
                     rdtools__degradation__degradation_year_on_year=yoy, rdtools__soiling__soiling_srr=srr):
            old = ta.results[case]
            quiet(ta.clearsky_analysis if case == 'sensor' else ta.sensor_analysis, analyses=[])
        ctx.check(set(ta.results) == {'sensor', 'clearsky'} and ta.results[case] is old, 'results of the other analysis kept')


def h_missing(ctx):
    """set-ups that lack what an analysis needs are refused"""
    from rdtools import TrendAnalysis
    idx = pd.date_range('2020-06-01 10:00', periods=4, freq='h')
    pv, g, t = ctx.series('p', idx, lo=1, hi=10), ctx.series('g', idx, lo=100, hi=1200), ctx.series('t', idx, lo=0, hi=50)
    has = {k: ctx.boolean(k) for k in ('poa', 'cell', 'ambient', 'expected', 'power')}
    kw = dict(gamma_pdc=-0.004, power_dc_rated=10.0, pv_input='power' if has['power'] else 'energy')
    for k, v, nm in (('poa', g, 'poa_global'), ('cell', t, 'temperature_cell'), ('ambient', t, 'temperature_ambient'), ('expected', g, 'power_expected')):
        if has[k]:
            kw[nm] = v
    ta = quiet(TrendAnalysis, pv, **kw)
    clip = ctx.choice('filters', [None, 'clip_filter', 'tcell_filter', 'hour_angle_filter', 'sensor_clearsky_filter'])
    ctx.check(('tcell_filter' in ta.filter_params) == (not (has['expected'] and not has['cell'])), 'default temperature filter')
    ta.filter_params = {} if clip is None else {clip: {}}
    ta.filter_params_aggregated = {}
    with patched(rdtools__filtering__clip_filter=lambda s, **k: pd.Series(True, index=s.index)):
        bad, e = ctx.raises((ValueError, AttributeError), lambda: quiet(ta.sensor_analysis, analyses=[]))
    need = has['poa'] and (has['expected'] or has['cell'] or has['ambient'])
    if clip == 'clip_filter':
        need = need and has['power']
    elif clip == 'tcell_filter':
        need = need and (has['cell'] or (not has['expected'] and has['ambient']))
    elif clip in ('hour_angle_filter', 'sensor_clearsky_filter'):
        need = False
    ctx.check(bad == (not need), f'{has} {clip}: refused={bad} {e if bad else ""}')
    ctx.expect_raises((ValueError, AttributeError), lambda: quiet(ta.clearsky_analysis, analyses=[]), 'clear-sky analysis without clear-sky set-up')


def jobs(tier):
    th = tier == 'thorough'
    J = [('rated', h_chain, dict(n=3, rated='sym', temp='cell', gamma=-0.004)),
         ('rated-gamma', h_chain, dict(n=3, rated=10.0, temp='const', gamma='sym')),
         ('no-gamma', h_chain, dict(n=4, rated=10.0, temp='cell')),
         ('no-rating', h_chain, dict(n=3, temp='const')),
         ('no-rating-4', h_chain, dict(n=4, temp='const', rec={'g': None})),
         ('ambient', h_chain, dict(n=3, rated=10.0, temp='ambient', gamma=-0.004)),
         ('ambient-wind', h_chain, dict(n=3, rated=10.0, temp='ambient', gamma=-0.004, wind=2.0, model='close_mount_glass_glass')),
         ('ambient-winds', h_chain, dict(n=3, rated=10.0, temp='ambient', gamma=-0.004, wind=[1, 2, 4], model={'a': -3.0, 'b': -0.05, 'deltaT': 2})),
         ('power', h_chain, dict(n=4, rated=10.0, temp='const', gamma=-0.005, input='power')),
         ('power-filters', h_chain, dict(n=3, rated=10.0, temp='const', gamma=-0.005, input='power', params={'normalized_filter': {}, 'poa_filter': {}})),
         ('power-15', h_chain, dict(n=4, step='15min', start='2020-06-01 23:30', rated=10.0, temp='const', gamma=-0.005, input='power')),
         ('power-nan', h_chain, dict(n=4, rated=10.0, temp='const', input='power', pnan=[1, 2])),
         ('power-interp', h_chain, dict(n=3, rated=10.0, temp='none', input='power', expected=True, interp='30min', mx='2h')),
         ('energy-interp-mx', h_chain, dict(n=4, temp='none', expected=True, interp='1h', mx='1h', pnan=[1])),
         ('fine-poa', h_chain, dict(n=3, rated=10.0, temp='cell', gamma=-0.004, rec={'g': ('2020-06-01 10:00', '30min', 5)})),
         ('coarse-poa', h_chain, dict(n=4, rated=10.0, temp='const', gamma=-0.004, rec={'g': ('2020-06-01 09:00', '90min', 4)})),
         ('coarse-temp', h_chain, dict(n=3, rated=10.0, temp='cell', gamma=-0.004, rec={'t': ('2020-06-01 09:00', '2h', 3)})),
         ('expected', h_chain, dict(n=4, temp='none', expected=True, start='2020-06-01 22:00')),
         ('expected-power', h_chain, dict(n=4, temp='none', expected=True, input='power', rec={'x': ('2020-06-01 09:30', '1h', 5)})),
         ('expected-mx', h_chain, dict(n=4, temp='none', expected=True, mx='1h', rec={'x': ('2020-06-01 09:00', '90min', 4)}, gnan=[2])),
         ('mx-poa', h_chain, dict(n=4, temp='const', rated=10.0, gamma=-0.004, mx='1h', gnan=[1, 2])),
         ('mx-long', h_chain, dict(n=4, temp='const', rated=10.0, gamma=-0.004, mx='5h', gnan=[1, 2])),
         ('tz', h_chain, dict(n=4, temp='const', rated=10.0, gamma=-0.004, start='2020-03-07 22:00', tz='US/Eastern')),
         ('2D', h_chain, dict(n=4, step='1D', temp='const', rated=10.0, gamma=-0.004, freq='2D')),
         ('cs', h_chain, dict(n=3, case='clearsky', rated='sym', temp='cell', gamma=-0.004)),
         ('cs-no-rating', h_chain, dict(n=3, case='clearsky', temp='const')),
         ('cs-power', h_chain, dict(n=4, case='clearsky', rated=10.0, temp='const', gamma=-0.004, input='power')),
         ('cs-ambient', h_chain, dict(n=3, case='clearsky', rated=10.0, temp='ambient', gamma=-0.004, wind=3.0)),
         ('cs-expected', h_chain, dict(n=4, case='clearsky', temp='const', expected=True)),
         ('cs-coarse', h_chain, dict(n=4, case='clearsky', rated=10.0, temp='const', gamma=-0.004, rec={'s': ('2020-06-01 09:00', '90min', 4)})),
         ('missing', h_missing, {})]
    # sensor records with gaps: bridged up to the gap allowed by the user and no further
    for mx, at in [('4h', [0, 1, 2, 5]), ('1h', [0, 1, 3, 4, 5])]:
        b = dict(n=6, rated=10.0, gamma=-0.004, mx=mx)
        for r, d in [('g', dict(temp='const')), ('t', dict(temp='cell')), ('a', dict(temp='ambient')), ('x', dict(temp='none', expected=True)),
                     ('w', dict(temp='ambient', stubcell=True, wind=[1, 2, 3, 6] if len(at) == 4 else [1, 2, 4, 5, 2]))]:
            J.append((f'gap-{r}-{mx}', h_chain, dict(b, rec={r: at}, **d)))
        for r, d in [('s', dict(temp='const')), ('t', dict(temp='cell')), ('a', dict(temp='ambient'))]:
            J.append((f'gap-cs-{r}-{mx}', h_chain, dict(b, rec={r: at}, case='clearsky', **d)))
        J.append((f'gap-p-{mx}', h_chain, dict(b, pnan=[2], temp='const', input='power')))
    for nm, d in [('730', [1, 729]), ('729', [1, 728]), ('edge', [1, 729, 1]), ('731', [365, 365, 1])]:
        J.append((f'hand-{nm}', h_hand, dict(days=d)))
        J.append((f'hand-{nm}-cs', h_hand, dict(days=d, case='clearsky', yk={'confidence_level': 80})))
    J += [('hand-srr', h_hand, dict(days=[1, 1, 2], analyses=['srr_soiling'], sk={'reps': 5})),
          ('hand-srr-cs', h_hand, dict(days=[1, 1, 2], analyses=['srr_soiling'], case='clearsky', both=True)),
          ('hand-srr-2D', h_hand, dict(days=[1, 1, 2], analyses=['srr_soiling'], freq='2D')),
          ('hand-both', h_hand, dict(days=[700, 30, 1], analyses=['yoy_degradation', 'srr_soiling'], yk={'recenter': False}, sk={'method': 'half_norm_clean'}, both=True)),
          ('hand-MS', h_hand, dict(days=[400, 340, 30], freq='MS', tz='US/Eastern')),
          ('hand-none', h_hand, dict(days=[1, 1], analyses=[]))]
    return J
