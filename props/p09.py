"""P09 threshold filters keep exactly the points inside the documented limits"""
from .lib import *

COVERAGE = ('normalized_filter, poa_filter, tcell_filter, csi_filter, clearsky_filter (dispatch), hour_angle_filter executed '
            'symbolically on symbolic measurements and limits; the solver proves the mask equal to the documented inequality')
BOUNDS = 'all real measurements and limits (plus +-infinity and missing values at every position); 3-4 points'
ASSUMPTIONS = ['solar hour angles are taken from pvlib (an arbitrary symbolic angle per stamp here)']


def lim(ctx, name, kind):
    if kind == 'sym':
        return ctx.real(name)
    return kind


FILTERS = {
    'normalized': ('normalized_filter', ('energy_normalized_low', 'energy_normalized_high'), (0.01, None)),
    'poa': ('poa_filter', ('poa_global_low', 'poa_global_high'), (200, 1200)),
    'tcell': ('tcell_filter', ('temperature_cell_low', 'temperature_cell_high'), (-50, 110)),
}


def h_two(ctx):
    import rdtools
    c = ctx.cfg
    fn, names, dflt = FILTERS[c['f']]
    idx = pd.DatetimeIndex(['2020-01-05', '2020-01-01', '2020-02-01', '2020-01-02'])[:c['n']]   # order kept
    if c.get('tz'):
        idx = idx.tz_localize(c['tz'])
    s = ctx.series('s', idx, nan=c.get('nan', False))
    if c.get('inf'):
        s.iloc[0] = float('inf')
        s.iloc[1] = float('-inf')
    s0 = freeze(s)
    kw = {}
    lo, hi = dflt
    if 'lo' in c:
        lo = lim(ctx, 'lo', c['lo'])
        kw[names[0]] = lo
    if 'hi' in c:
        hi = lim(ctx, 'hi', c['hi'])
        kw[names[1]] = hi
    f = getattr(rdtools, fn)
    m = f(s, **kw) if not c.get('positional') else f(s, *[kw[n] for n in names])
    want = []
    for x in s0:
        if missing(x):
            want.append(False)
        else:
            want.append(ctx.And(*([x > lo] if lo is not None else []), *([x < hi] if hi is not None else []),
                                *([x > float('-inf')] if lo is None else []), *([x < float('inf')] if hi is None else [])))
    ctx.eq_mask(m, want, fn, idx)
    ctx.unchanged(s0, s, 'input')


def h_csi(ctx):
    import rdtools
    c = ctx.cfg
    idx = pd.date_range('2020-01-01', periods=c['n'], freq='h')
    cidx = idx if not c.get('shift') else pd.date_range('2020-01-01 01:00', periods=c['n'], freq='h')
    g = ctx.series('g', idx, nan=c.get('nan', False))
    s = ctx.series('s', cidx, nan=c.get('snan', False))
    kw = {}
    t = 0.15
    if c.get('threshold'):
        t = ctx.real('t', 0, 1)
        kw['threshold'] = t
    if c.get('wrapper'):
        m = rdtools.clearsky_filter(g, s, model='csi', **kw)
    else:
        m = rdtools.csi_filter(g, s, **kw)
    gd, sd = dict(zip(idx, g)), dict(zip(cidx, s))
    union = sorted(set(idx) | set(cidx))
    want = []
    for u in union:
        a, b = gd.get(u, NAN), sd.get(u, NAN)
        if missing(a) or missing(b):
            want.append(False)
        else:
            # |g/s - 1| <= t without dividing
            lo, hi = (1 - t) * b, (1 + t) * b
            want.append(ctx.ite(ctx.And(b == 0), False, ctx.Or(ctx.And(b > 0, a >= lo, a <= hi), ctx.And(b < 0, a <= lo, a >= hi))))
    ctx.check(list(m.index) == union, 'index is the union of the inputs')
    for i, (a, b) in enumerate(zip(m, want)):
        ctx.iff(a, b, f'csi[{i}]')


def h_dispatch(ctx):
    import rdtools
    idx = pd.date_range('2020-01-01', periods=3, freq='h')
    g, s = ctx.series('g', idx), ctx.series('s', idx)
    for bad in ['foo', None, 'CSI', '']:
        ctx.expect_raises(ValueError, lambda: rdtools.clearsky_filter(g, s, model=bad), f'clearsky model {bad}')
        ctx.expect_raises(ValueError, lambda: rdtools.clip_filter(g, model=bad), f'clip model {bad}')


def h_hour(ctx):
    import rdtools
    c = ctx.cfg
    idx = pd.DatetimeIndex(['2020-01-05 10:00', '2020-01-01 12:00', '2020-02-01 14:00']).tz_localize('Etc/GMT+7')
    s = ctx.series('s', idx, nan=True)
    ang = [ctx.fresh(f'angle{i}', -180, 180) for i in range(3)]
    seen = {}

    def pos(times, lat, lon, *a, **k):
        seen['pos'] = (list(times) == list(idx), lat, lon)
        return pd.DataFrame({'equation_of_time': [1.0, 2.0, 3.0]}, index=idx)

    def ha(times, lon, eot, *a, **k):
        seen['ha'] = (list(times) == list(idx), lon, [float(x) for x in eot])
        return np.array(ang, dtype=object) if ctx.symbolic else np.array(ang)
    kw = {}
    lo, hi = -30, 30
    if c.get('limits'):
        lo, hi = ctx.real('lo', -180, 180), ctx.real('hi', -180, 180)
        kw = dict(min_hour_angle=lo, max_hour_angle=hi)
    with patched(pvlib__solarposition__get_solarposition=pos, pvlib__solarposition__hour_angle=ha):
        m = rdtools.filtering.hour_angle_filter(s, 39.5, -105.25, **kw)
    ctx.check(seen.get('pos') == (True, 39.5, -105.25), 'sun position of the series times at the given site')
    ctx.check(seen.get('ha') == (True, -105.25, [1.0, 2.0, 3.0]), 'hour angle of the series times at the given longitude')
    ctx.eq_mask(m, [ctx.And(a >= lo, a <= hi) for a in ang], 'hour angle', idx)


LOOK = {'frequencies': [1, 5, 15, 30], 'window_length': [50, 60, 90, 120], 'max_diff': [60, 65, 75, 90],
        'var_diff': [0.005, 0.01, 0.032, 0.07], 'slope_dev': [50, 60, 75, 96]}


def look(name, minutes):
    x, y = LOOK['frequencies'], LOOK[name]
    if minutes <= x[0]:
        return y[0]
    if minutes >= x[-1]:
        return y[-1]
    for i in range(3):
        if x[i] <= minutes <= x[i + 1]:
            return y[i] + (y[i + 1] - y[i]) * (minutes - x[i]) / (x[i + 1] - x[i])


def h_pvlib(ctx):
    """parameters handed to the clear-sky detection, and its answer returned"""
    import rdtools
    c = ctx.cfg
    idx = pd.date_range('2020-01-01', periods=4, freq=c['freq'])
    if c.get('nofreq'):
        idx = pd.DatetimeIndex(list(idx))
    g = ctx.series('g', idx, nan=[1])
    s = ctx.series('s', idx)
    par = {k: ctx.real(k) for k in ['window_length', 'mean_diff', 'max_diff', 'lower_line_length', 'upper_line_length', 'var_diff', 'slope_dev']}
    ans = [ctx.boolean(f'clear{i}') for i in range(4)]
    got = {}

    def detect(measured, clearsky, times=None, **k):
        got.update(k)
        got['m'], got['s'] = measured, clearsky
        return ctx.mk_mask(ans, measured.index)
    kw = dict(par) if c.get('explicit') else {}
    dflt = dict(window_length=90, mean_diff=75, max_diff=75, lower_line_length=-45, upper_line_length=80, var_diff=0.032, slope_dev=75)
    with patched(pvlib__clearsky__detect_clearsky=detect):
        if c.get('wrapper'):
            m = rdtools.clearsky_filter(g, s, lookup_parameters=c['lookup'], max_iterations=7, **kw)
        else:
            m = rdtools.pvlib_clearsky_filter(g, s, lookup_parameters=c['lookup'], max_iterations=7, **kw)
    ctx.eq_mask(m, ans, 'answer returned', idx)
    ctx.eq_series(got['m'], list(g), 'measured passed')
    ctx.eq_series(got['s'], list(s), 'clear sky passed')
    ctx.check(got.get('max_iterations') == 7, 'extra arguments passed')
    ctx.check(got.get('return_components', False) is False, 'only the mask is requested')
    minutes = pd.Timedelta(c['freq']).total_seconds() / 60
    for k in dflt:
        want = par[k] if c.get('explicit') else dflt[k]
        if c['lookup'] and not c.get('nofreq') and k in LOOK:
            want = look(k, minutes)
        v = got[k]
        ctx.eq(float(v) if isinstance(v, np.ndarray) else v, want, f'parameter {k}')


def jobs(tier):
    J = []
    for f in FILTERS:
        J.append((f'{f}-default', h_two, dict(f=f, n=4, nan=True)))
        J.append((f'{f}-limits', h_two, dict(f=f, n=3, lo='sym', hi='sym', nan=True)))
        J.append((f'{f}-positional', h_two, dict(f=f, n=2, lo='sym', hi='sym', positional=True, tz='UTC')))
        J.append((f'{f}-low', h_two, dict(f=f, n=3, lo='sym', nan=[1])))
        J.append((f'{f}-high', h_two, dict(f=f, n=3, hi='sym', nan=[1])))
        J.append((f'{f}-inf', h_two, dict(f=f, n=4, inf=True)))
    J.append(('normalized-none', h_two, dict(f='normalized', n=4, lo=None, hi=None, inf=True, nan=[3])))
    J.append(('normalized-none-low', h_two, dict(f='normalized', n=4, lo=None, hi='sym', inf=True, nan=[3])))
    J.append(('normalized-zero', h_two, dict(f='normalized', n=3, lo=0, hi=0.5)))
    J.append(('normalized-neg', h_two, dict(f='normalized', n=3, lo=-1, hi=0)))
    for w in [False, True]:
        J.append((f'csi-default-{w}', h_csi, dict(n=3, nan=True, wrapper=w)))
        J.append((f'csi-threshold-{w}', h_csi, dict(n=2, threshold=True, snan=True, wrapper=w)))
        J.append((f'csi-shift-{w}', h_csi, dict(n=3, shift=True, wrapper=w)))
    J.append(('dispatch', h_dispatch, {}))
    J.append(('hour-default', h_hour, {}))
    J.append(('hour-limits', h_hour, dict(limits=True)))
    for fr in ['30s', '1min', '3min', '5min', '10min', '15min', '20min', '30min', '60min']:
        J.append((f'pvlib-lookup-{fr}', h_pvlib, dict(freq=fr, lookup=True, explicit=fr in ('5min', '20min'), wrapper=fr in ('1min',))))
    J.append(('pvlib-nofreq', h_pvlib, dict(freq='15min', lookup=True, nofreq=True, explicit=True)))
    J.append(('pvlib-nofreq-default', h_pvlib, dict(freq='15min', lookup=True, nofreq=True)))
    J.append(('pvlib-plain', h_pvlib, dict(freq='5min', lookup=False)))
    J.append(('pvlib-plain-explicit', h_pvlib, dict(freq='5min', lookup=False, explicit=True, wrapper=True)))
    return J
