"""P21 combined filter of the end-to-end analysis"""
from .chain import *

COVERAGE = ('TrendAnalysis.sensor_analysis / clearsky_analysis executed symbolically with arbitrary normalised energy and insolation '
            '(normalisation replaced by fresh symbols); measured and modelled irradiance, temperatures, filter limits and the masks of the '
            'clipping, hour-angle and aggregated filters are symbolic; solver proves the combined mask equal to the conjunction of the chosen '
            'filters, and the aggregated series equal to the weighted mean over exactly the kept points')
BOUNDS = '3-5 hourly stamps over 2-3 days; equal, longer and shifted input records; every ad hoc mask within them'
ASSUMPTIONS = ['normalised energy and insolation arbitrary (their values are P05)', 'masks of the clipping and hour-angle filters arbitrary (P10-P12, P09)']


def masks(ctx, name, index, nan=()):
    return pd.Series([np.nan if i in nan else ctx.boolean(f'{name}{i}') for i in range(len(index))], index,
                     dtype=object if nan else bool)


def h(ctx):
    from rdtools import TrendAnalysis
    c = ctx.cfg
    case = c.get('case', 'sensor')
    idx = stamps('2020-06-01 10:00', c['gaps'], '1h', c.get('tz'))
    n = len(idx)
    eidx = idx[c.get('e0', 0):]
    if c.get('extra'):
        eidx = eidx.append(pd.DatetimeIndex([eidx[-1] + pd.Timedelta(hours=1)]))
    en = ctx.series('e', eidx, nan=c.get('enan', False))
    w = ctx.series('w', eidx, lo=0, hi=2000, lo_open=True, nan=c.get('wnan', False))
    poa = ctx.series('g', idx, lo=0, hi=1500, nan=c.get('gnan', False))
    tc = ctx.series('t', idx, lo=-60, hi=120)
    pv = ctx.mk_series([ctx.frac(1 + i) if ctx.symbolic else 1.0 + i for i in range(n)], idx, 'pv')
    seen = []

    def norm(energy, kws, *a, **k):
        seen.append((energy, kws))
        return en.copy(), w.copy()

    called = {}

    def stub(name, frm=None):
        def f(s, *a, **k):
            called.setdefault(name, []).append((s, a, k))
            return masks(ctx, name, s.index)
        return f

    ta = quiet(TrendAnalysis, pv, poa_global=poa, temperature_cell=tc, gamma_pdc=-0.004, power_dc_rated=10.0,
               pv_input=c.get('input', 'energy'), aggregation_freq=c.get('freq', 'D'))
    P = c['params']
    csg = None
    if c.get('cs') or case == 'clearsky':
        csg = ctx.series('s', idx, lo=1, hi=1500, nan=c.get('snan', False))
        ctc = ctx.series('u', idx, lo=-60, hi=120)
        loc = type('L', (), dict(latitude=40.0, longitude=-105.0))()
        ta.set_clearsky(pvlib_location=loc, pv_tilt=20, pv_azimuth=180, poa_global_clearsky=csg, temperature_cell_clearsky=ctc)
    vals = dict(ta.filter_params) if P == 'default' else {k: dict(v) for k, v in P.items()}
    ah = None
    if 'adhoc' in c:
        aidx = stamps(c['adhoc'].get('start', '2020-06-01 10:00'), c['adhoc'].get('gaps', c['gaps']), '1h', c.get('tz'))
        ah = masks(ctx, 'h', aidx, c['adhoc'].get('nan', ()))
        vals['ad_hoc_filter'] = ah
        ah0 = ah.copy(deep=True)
    if P == 'default':
        if ah is not None:
            ta.filter_params['ad_hoc_filter'] = ah
    else:
        ta.filter_params = vals
    ta.filter_params_aggregated = {k: dict(v) for k, v in c.get('agg', {}).items()}
    ah2 = None
    if 'adhoc2' in c:
        days = pd.date_range(c['adhoc2'].get('start', '2020-06-01'), periods=c['adhoc2']['n'], freq='D', tz=c.get('tz'))
        ah2 = masks(ctx, 'a', days, c['adhoc2'].get('nan', ()))
        ta.filter_params_aggregated['ad_hoc_filter'] = ah2
        ah20 = ah2.copy(deep=True)
    rep = dict(rdtools__normalization__normalize_with_pvwatts=norm)
    for nm in ['clip_filter', 'hour_angle_filter']:
        rep[f'rdtools__filtering__{nm}'] = stub(nm)
    for nm in ['two_way_window_filter', 'hampel_filter', 'directional_tukey_filter', 'insolation_filter']:
        rep[f'rdtools__filtering__{nm}'] = stub(nm)
    run = ta.sensor_analysis if case == 'sensor' else ta.clearsky_analysis
    empty_ok = []
    with patched(**rep):
        try:
            quiet(run, analyses=[])
        except Exception as e:      # nothing kept at all: the aggregation has no bins
            empty_ok.append(e)
    # ---- which points are kept
    on = lambda x, at: None if x is None else ctx.mk_series(ref_interp(ctx, ns(x.index), list(x), ns(at)), at)
    poa, csg = on(poa, idx), on(csg, idx[1:] if c.get('input') == 'power' else idx)   # intervals with an energy
    G, T = (poa, tc) if case == 'sensor' else (csg, ctc)
    union = sorted(set(idx) | set(eidx)) if any(k in vals for k in ('poa_filter', 'tcell_filter', 'clip_filter')) or case == 'clearsky' \
        or 'sensor_clearsky_filter' in vals else list(eidx)
    if 'clip_filter' in vals:
        ctx.check('clip_filter' in called and len(called['clip_filter'][0][0]) == n, 'clipping filter run on the pv power')
        ctx.eq_series(called['clip_filter'][0][0], list(pv), 'clipping filter input', idx)
        ctx.check(called['clip_filter'][0][2] == vals['clip_filter'], 'clipping filter options')
    else:
        ctx.check('clip_filter' not in called, 'clipping filter not requested')
    if 'hour_angle_filter' in vals:
        s, a, k = called['hour_angle_filter'][0]
        ctx.check(list(s.index) == list(eidx) and (a == (40.0, -105.0) or not a), 'hour angle location')
        ctx.check({x: k[x] for x in vals['hour_angle_filter']} == vals['hour_angle_filter'], 'hour angle options')

    def at(series, t):
        d = dict(zip(series.index, series))
        return d.get(t, NAN)

    def between(x, lo, hi):
        if missing(x):
            return False
        return ctx.And(*([x > lo] if lo is not None else []), *([x < hi] if hi is not None else []))

    want = []
    for t in union:
        k = [t in eidx]
        if 'normalized_filter' in vals:
            p = vals['normalized_filter']
            k.append(between(at(en, t), p.get('energy_normalized_low', 0.01), p.get('energy_normalized_high')))
        if 'poa_filter' in vals:
            p = vals['poa_filter']
            k.append(between(at(G, t), p.get('poa_global_low', 200), p.get('poa_global_high', 1200)))
        if 'tcell_filter' in vals:
            p = vals['tcell_filter']
            k.append(between(at(T, t), p.get('temperature_cell_low', -50), p.get('temperature_cell_high', 110)))
        if 'clip_filter' in vals:
            k.append(t in idx and ctx.boolean(f'clip_filter{list(idx).index(t)}'))
        if 'hour_angle_filter' in vals:
            k.append(t in eidx and ctx.boolean(f'hour_angle_filter{list(eidx).index(t)}'))
        for nm in (['clearsky_filter'] if case == 'clearsky' else []) + ['sensor_clearsky_filter']:
            if nm in vals:
                a, b, th = at(poa, t), at(csg, t), vals[nm].get('threshold', 0.15)
                th = ctx.frac(Fraction(str(th))) if ctx.symbolic else th
                k.append(False if missing(a) or missing(b) else ctx.And(a <= b * (1 + th), a >= b * (1 - th)))
        if ah is not None:
            x = at(ah0, t) if t in ah0.index else True
            k.append(False if missing(x) else bool(x))
        want.append(ctx.And(*k))
    mask = getattr(ta, f'{case}_filter')
    ctx.eq_mask(mask, want, f'{case} filter', union)
    comp = getattr(ta, f'{case}_filter_components')
    names = {k for k in vals if k not in ('ad_hoc_filter', 'clearsky_filter')} | ({'ad_hoc_filter'} if ah is not None else set()) \
        | ({'clearsky_filter'} if case == 'clearsky' else set())
    ctx.check(set(comp.columns) == names, f'reported components {sorted(comp.columns)}')
    for i in range(len(union)):
        if union[i] not in eidx:
            continue
        ctx.iff(ctx.And(*[comp[x].iloc[i] for x in comp.columns]), want[i], f'components explain the mask [{i}]')
    if ah is not None:
        ctx.check(list(ah0.index) == list(ah.index) and all((missing(a) and missing(b)) or a == b for a, b in zip(ah0, ah)), 'ad hoc mask unchanged')
    # ---- aggregation over exactly the kept points (the mask is decided per path)
    kept = [i for i, t in enumerate(eidx) if bool(want[union.index(t)])]
    if not kept:
        return
    if not ctx.check(not empty_ok, f'analysis failed: {empty_ok[:1]!r}'):
        return
    rows = ref_aggregate(ctx, [eidx[i] for i in kept], [en.iloc[i] for i in kept], [w.iloc[i] for i in kept], ta.aggregation_freq)
    agg = c.get('agg', {})
    keep2 = []
    for j, r in enumerate(rows):
        k = [ctx.boolean(f'{nm}{j}') for nm in agg]
        if ah2 is not None:
            x = at(ah20, r[0]) if r[0] in ah20.index else True
            k.append(False if missing(x) else bool(x))
        keep2.append(all(k))
    for nm in agg:
        s, a, k = called[nm][0]
        ctx.eq_series(s, [r[2] if nm == 'insolation_filter' else r[1] for r in rows], f'{nm} input', [r[0] for r in rows])
        ctx.check({x: k.get(x) for x in agg[nm]} == agg[nm], f'{nm} options')
    ctx.check(set(called) - {'clip_filter', 'hour_angle_filter'} == set(agg), 'only the chosen aggregated filters run')
    ctx.eq_mask(getattr(ta, f'{case}_filter_aggregated'), keep2, 'aggregated filter', [r[0] for r in rows])
    comp2 = getattr(ta, f'{case}_filter_components_aggregated')
    ctx.check(set(comp2.columns) == set(agg) | ({'ad_hoc_filter'} if ah2 is not None else set()), 'aggregated components')
    if ah2 is not None:
        ctx.check(list(ah20.index) == list(ah2.index) and all((missing(a) and missing(b)) or a == b for a, b in zip(ah20, ah2)), 'aggregated ad hoc mask unchanged')
    out = regular([r for r, k in zip(rows, keep2) if k], ta.aggregation_freq)
    p, q = getattr(ta, f'{case}_aggregated_performance'), getattr(ta, f'{case}_aggregated_insolation')
    ctx.eq_series(p, [r[1] for r in out], 'aggregated performance', [r[0] for r in out])
    ctx.eq_series(q, [r[2] for r in out], 'aggregated insolation', [r[0] for r in out])


def h_names(ctx):
    """names that are no filters are refused by every way of setting them, and leave the set-up as it was"""
    from rdtools import TrendAnalysis
    idx = stamps('2020-06-01', [1, 1])
    ta = TrendAnalysis(ctx.series('pv', idx), pv_input='energy')
    agg = ctx.boolean('agg')
    attr = 'filter_params_aggregated' if agg else 'filter_params'
    first = ('normalized_filter', 'poa_filter', 'tcell_filter', 'clip_filter', 'hour_angle_filter', 'clearsky_filter', 'sensor_clearsky_filter', 'ad_hoc_filter')
    second = ('two_way_window_filter', 'insolation_filter', 'hampel_filter', 'directional_tukey_filter', 'ad_hoc_filter')
    name = ctx.choice('name', sorted(set(first) | set(second)) + ['csi_filter', 'poa', '', 'Poa_filter', 'xgboost_clip_filter'])
    ok = name in (second if agg else first)
    how = ctx.choice('how', ['item', 'update', 'update-kw', 'setdefault', 'ior', 'assign', 'mixed'])
    v = None if name == 'ad_hoc_filter' else {}
    before = dict(getattr(ta, attr))
    d = getattr(ta, attr)

    def go():
        if how == 'item':
            d[name] = v
        elif how == 'update':
            d.update({name: v})
        elif how == 'update-kw':
            d.update(**{name: v})
        elif how == 'setdefault':
            d.setdefault(name, v)
        elif how == 'ior':
            x = d
            x |= {name: v}
        elif how == 'assign':
            setattr(ta, attr, {name: v})
        else:
            setattr(ta, attr, {'ad_hoc_filter': None, name: v})
    bad, e = ctx.raises(KeyError, go)
    ctx.check(bad == (not ok), f'{attr} {how} {name!r}: refused={bad}')
    if not ok:
        ctx.check(dict(getattr(ta, attr)) == before, 'set-up unchanged after a refusal')
    elif how in ('assign', 'mixed'):
        ctx.check(set(getattr(ta, attr)) == {name} | ({'ad_hoc_filter'} if how == 'mixed' else set()), 'set-up replaced')
    else:
        ctx.check(set(getattr(ta, attr)) == set(before) | {name}, 'filter added')
    for x in ([], 'poa_filter', None, 3):
        ctx.expect_raises(ValueError, lambda: setattr(ta, attr, x), f'{attr} = {x!r}')


def jobs(tier):
    th = tier == 'thorough'
    base = dict(gaps=[14, 10], params={})
    thr = {'normalized_filter': {'energy_normalized_low': 0.5, 'energy_normalized_high': 2}, 'poa_filter': {'poa_global_low': 300}, 'tcell_filter': {'temperature_cell_high': 90}}
    J = [('none', h, dict(gaps=[1, 20, 10], params={}, enan=[1], wnan=[2])),
         ('norm', h, dict(gaps=[1, 24, 24], params={'normalized_filter': {}}, enan=[2])),
         ('poa', h, dict(base, params={'poa_filter': {}}, gnan=True)),
         ('three', h, dict(gaps=[2], params=thr)),
         ('three-tz', h, dict(gaps=[22], params=thr, tz='US/Eastern')),
         ('default', h, dict(gaps=[2], params='default', input='power')),
         ('clip', h, dict(gaps=[1, 23], params={'clip_filter': {'model': 'quantile'}}, input='power')),
         ('short-energy', h, dict(gaps=[1, 23, 1], e0=1, params={'poa_filter': {}, 'clip_filter': {}}, input='power')),
         ('extra', h, dict(gaps=[1, 23], extra=True, params={'poa_filter': {'poa_global_low': 100}})),
         ('hour', h, dict(gaps=[1, 23], cs=True, params={'hour_angle_filter': {'max_hour_angle': 30}})),
         ('sensor-cs', h, dict(gaps=[1], cs=True, params={'sensor_clearsky_filter': {'model': 'csi', 'threshold': 0.25}, 'poa_filter': {}})),
         ('adhoc', h, dict(base, adhoc={})),
         ('adhoc-nan', h, dict(base, adhoc=dict(nan=[1]))),
         ('adhoc-short', h, dict(gaps=[14, 10, 24], adhoc=dict(gaps=[14], nan=[0]), params={'normalized_filter': {}})),
         ('adhoc-shift', h, dict(base, adhoc=dict(start='2020-06-01 10:00', gaps=[1, 13, 11]))),
         ('cs', h, dict(gaps=[2], case='clearsky', params=dict(thr, clearsky_filter={'model': 'csi'}))),
         ('cs-nan', h, dict(gaps=[14], case='clearsky', params={'clearsky_filter': {'model': 'csi', 'threshold': 0.25}}, snan=True, gnan=[0])),
         ('cs-default', h, dict(gaps=[1], case='clearsky', params={'clearsky_filter': {'model': 'csi', 'threshold': 0.5}, 'poa_filter': {}, 'clip_filter': {}, 'sensor_clearsky_filter': {'model': 'csi', 'threshold': 0.125}}, input='power', e0=1)),
         ('agg', h, dict(gaps=[1, 23, 24], params={}, agg={'two_way_window_filter': {'outlier_threshold': 0.05}})),
         ('agg-all', h, dict(gaps=[24], params={}, agg={'two_way_window_filter': {}, 'insolation_filter': {'quantile': 0.2}, 'hampel_filter': {'t0': 2}, 'directional_tukey_filter': {}})),
         ('agg-adhoc', h, dict(gaps=[24, 24], params={'poa_filter': {}}, adhoc2=dict(n=3, nan=[1]), agg={'hampel_filter': {}})),
         ('agg-adhoc-short', h, dict(gaps=[24, 24], params={}, adhoc2=dict(n=2, start='2020-06-02'))),
         ('agg-adhoc-long', h, dict(gaps=[24, 24], params={}, case='clearsky', adhoc2=dict(n=4, start='2020-05-31'), agg={'insolation_filter': {}}) | dict(params={'clearsky_filter': {'model': 'csi'}})),
         ('2D', h, dict(gaps=[24, 24, 24], params={'normalized_filter': {}}, freq='2D', agg={'two_way_window_filter': {}})),
         ('MS', h, dict(gaps=[24 * 20, 24 * 20, 24 * 30], params={'normalized_filter': {}}, freq='MS'))]
    J.append(('names', h_names, {}))
    if th:
        J += [('three-3', h, dict(gaps=[2, 22], params=thr)),
              ('cs-3', h, dict(gaps=[2, 22], case='clearsky', params=dict(thr, clearsky_filter={'model': 'csi'}))),
              ('default-3', h, dict(gaps=[1, 23], params='default', input='power'))]
    return J
