"""P23 modelled clear-sky conditions: ambient temperature of the site and interval-averaged irradiance"""
from .chain import *
import math

COVERAGE = ('get_clearsky_tamb executed symbolically on a stand-in climate file: (a) symbolic latitude and longitude, solver proves the cell used is the '
            'nearest one for every site; (b) symbolic monthly day and night temperatures, solver proves every temperature equal to the documented '
            'smoothing, interpolation and daily swing. TrendAnalysis clear-sky irradiance: symbolic minute values, solver proves the interval averages')
BOUNDS = 'climate grids up to 8x4 cells, all latitudes and longitudes in range; 3-10 time stamps, smoothing windows of 2-5 days; intervals of 2-5 minutes'
ASSUMPTIONS = ['the climate file itself is not part of this tree', 'solar position and clear-sky models (pvlib) arbitrary']


class Box:
    """stand-in for an hdf5 dataset"""

    def __init__(self, lons, lats, f):
        self.shape = (lons, lats, 12)
        self.a = np.empty(self.shape, dtype=object)
        for i in range(lons):
            for j in range(lats):
                for k in range(12):
                    self.a[i, j, k] = f(i, j, k)

    def __getitem__(self, key):
        return self.a[key]

    def __len__(self):
        return self.shape[0]


def climate(day, night):
    class F(dict):
        def __init__(self, *a, **k):
            super().__init__(temperature={'day': day, 'night': night})

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass
    return F


def h_pixel(ctx):
    from rdtools import get_clearsky_tamb
    c = ctx.cfg
    X, Y = c['grid']
    d = Box(X, Y, lambda i, j, k: float(100 * i + j))
    lon = ctx.real('lon', -180, 180) if 'lon' not in c else c['lon']
    lat = ctx.real('lat', -90, 90) if 'lat' not in c else c['lat']
    times = pd.date_range('2020-06-10 10:00', periods=3, freq='h', tz='Etc/GMT+7')
    with patched(h5py__File=climate(d, d)):
        s = quiet(get_clearsky_tamb, times, lat, lon, window_size=2)
    ctx.check(list(s.index) == list(times), 'one temperature per time')
    px = ctx.div((lon + 180) * X, 360)       # 0 .. X, circular
    py = ctx.div((90 - lat) * Y, 180)        # 0 .. Y
    for v in s:
        if not ctx.check(not ctx.missing(v), 'valid site has a temperature'):
            return
        v = float(v)
        i, j = divmod(round(v), 100)
        if not ctx.check(0 <= i < X and 0 <= j < Y and abs(v - 100 * i - j) < 1e-6, f'temperature {v} of one cell'):
            return
        h = ctx.frac(1, 2)
        tol = ctx.frac(1, 10 ** 9)
        ctx.check(ctx.Or(*[ctx.And(px - i - o <= h + tol, i + o - px <= h + tol) for o in (0, X, -X)]), 'nearest cell, east-west')
        if j == Y - 1:
            ctx.check(j - py <= h + tol, 'nearest cell, north-south')
        else:
            ctx.check(ctx.And(py - j <= h + tol, j - py <= h + tol), 'nearest cell, north-south')


def h_temp(ctx):
    from rdtools import get_clearsky_tamb
    c = ctx.cfg
    lon = c['lon']
    D = {}
    N = {}
    for k in range(12):
        if k + 1 in c['months']:
            D[k], N[k] = ctx.real(f'day{k}', -40, 60), ctx.real(f'night{k}', -40, 60)
        else:
            D[k], N[k] = (ctx.frac(20 + k), ctx.frac(5 + k)) if ctx.symbolic else (20.0 + k, 5.0 + k)
    # one cell carries the values, the others are far off
    X, Y = 4, 2
    i0, j0 = round(X * ((lon + 180) / 360)) % X, min(round(Y * (90 - c['lat']) / 180), Y - 1)
    mk = lambda V: Box(X, Y, lambda i, j, k: V[k] if (i, j) == (i0, j0) else 500.0 + i + j)
    times = pd.DatetimeIndex([pd.Timestamp(t) for t in c['times']], tz=c['tz']) if isinstance(c['times'], list) else \
        pd.date_range(c['times'][0], periods=c['times'][1], freq=c['times'][2], tz=c['tz'])
    kw = {}
    if 'window' in c:
        kw['window_size'] = c['window']
    if 'std' in c:
        kw['gauss_std'] = c['std']
    n, std = c.get('window', 40), c.get('std', 20)
    with patched(h5py__File=climate(mk(D), mk(N))):
        s = quiet(get_clearsky_tamb, times, c['lat'], lon, **kw)
    ctx.check(list(s.index) == list(times), 'one temperature per time')
    w = [math.exp(-0.5 * ((k - (n - 1) / 2) / std) ** 2) for k in range(n)]
    off = (n - 1) // 2

    def smooth(V, day):
        num = ctx.sum([V[(day + pd.Timedelta(days=k + off - n + 1)).month - 1] * (ctx.frac(Fraction(w[k])) if ctx.symbolic else w[k]) for k in range(n)])
        return ctx.div(num, ctx.frac(sum(Fraction(x) for x in w)) if ctx.symbolic else sum(w))

    want = []
    for t in times:
        d0 = t.tz_localize(None).normalize()
        f = ctx.frac((t.tz_localize(None) - d0).value, 24 * H)
        a, b = [smooth(D, d0 + pd.Timedelta(days=q)) for q in (0, 1)]
        dd = a + (b - a) * f
        a, b = [smooth(N, d0 + pd.Timedelta(days=q)) for q in (0, 1)]
        nn = a + (b - a) * f
        hour = (t.tz_localize(None) - d0) / pd.Timedelta('1h')
        solar = hour - t.utcoffset().total_seconds() / 3600 + lon / 15      # solar time of day
        v = math.cos((solar - 16) / 24 * 2 * math.pi)                       # warmest four hours after solar noon
        v = ctx.frac(Fraction(v)) if ctx.symbolic else v
        want.append((dd + nn) / 2 + (dd - nn) * v * ctx.frac(35, 100))
    ctx.eq_series(s, want, 'clear-sky temperature')


def h_nodata(ctx):
    """no climate data at the site: missing, with a warning"""
    from rdtools import get_clearsky_tamb
    import warnings
    bad = ctx.choice('month', [4, 5, 6])
    mk = Box(4, 2, lambda i, j, k: np.nan if k == bad else 10.0)
    times = pd.date_range('2020-06-10 10:00', periods=3, freq='h', tz='Etc/GMT+7')
    lat = ctx.real('lat', -80, 80)
    with patched(h5py__File=climate(mk, mk)), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        s = get_clearsky_tamb(times, lat, -100.0, window_size=2)
    if bad == 5:
        ctx.check(all(ctx.missing(v) for v in s), 'missing climate gives missing temperature')
        ctx.check(any('NaN' in str(x.message) or 'invalid' in str(x.message) for x in ws), 'user is warned')
    else:
        ctx.eq_series(s, [10.0] * 3, 'temperature')


def h_poa(ctx):
    """clear-sky irradiance: mean of the minute values inside each right-labelled interval"""
    from rdtools import TrendAnalysis
    c = ctx.cfg
    idx = stamps('2020-06-01 12:00', c['gaps'], '1min', c.get('tz'))
    g = ctx.series('g', idx, lo=100, hi=1000)
    one = pd.Series(5.0, idx)
    T = pd.Series(25.0, idx)
    sensor = c.get('chain') == 'sensor'
    more = dict(temperature_cell=T) if sensor else {}
    ta = quiet(TrendAnalysis, one, poa_global=g, **more, gamma_pdc=-0.004, power_dc_rated=10.0, pv_input='energy', max_timedelta=pd.Timedelta('1D'))
    minutes = pd.date_range(idx[0], idx[-1], freq='1min')
    m = ctx.series('m', minutes, lo=0, hi=1200)
    got = {}

    class Loc:
        latitude, longitude = 40.0, -105.0

        def get_solarposition(self, times, **k):
            got['sun'] = (list(times), k)
            return pd.DataFrame({'apparent_zenith': 30.0, 'azimuth': 170.0}, index=times)

        def get_clearsky(self, times, solar_position=None, **k):
            got['cs'] = (list(times), solar_position is not None)
            return pd.DataFrame({'dni': 1.0, 'ghi': 2.0, 'dhi': 3.0}, index=times)

    def total(tilt, az, zen, saz, dni, ghi, dhi, *a, **k):
        got['tot'] = (tilt, az, float(zen.iloc[0]), float(saz.iloc[0]), float(dni.iloc[0]), float(ghi.iloc[0]), float(dhi.iloc[0]), k.get('albedo'))
        t = zen.index
        return pd.DataFrame({'poa_global': m.reindex(t), 'poa_direct': 7.0}, index=t)

    def rescale(irrad, irrad_sim, *a, **k):
        got['rescale'] = (irrad, irrad_sim, k)
        return irrad_sim * 2

    ta.set_clearsky(pvlib_location=Loc(), pv_tilt=20, pv_azimuth=170.5, temperature_cell_clearsky=T,
                    **({} if c.get('default') else dict(albedo=0.3, solar_position_method=c.get('spm', 'nrel_numpy'))))
    ta.filter_params = {'sensor_clearsky_filter' if sensor else 'clearsky_filter': {'model': 'csi', 'threshold': 1e9}}
    ta.filter_params_aggregated = {}
    seen = []

    def norm(e, kws, *a, **k):
        seen.append(kws)
        return e * 1.0, e * 2.0
    with patched(pvlib__irradiance__get_total_irradiance=total, rdtools__normalization__irradiance_rescale=rescale,
                 rdtools__normalization__normalize_with_pvwatts=norm):
        quiet(ta.sensor_analysis if sensor else ta.clearsky_analysis, analyses=[])
    ctx.check(got['sun'][0] == list(minutes), 'sun positions at every minute')
    ctx.check(got['sun'][1] == {'method': c.get('spm', 'nrel_numpy')} and got['cs'][1], 'solar position method')
    ctx.check(got['tot'] == (20, 170.5, 30.0, 170.0, 1.0, 2.0, 3.0, 0.25 if c.get('default') else 0.3), f"transposition arguments {got['tot']}")
    want = [NAN]
    for a, b in zip(idx[:-1], idx[1:]):
        v = [x for t, x in zip(minutes, m) if a < t <= b]
        want.append(ctx.div(ctx.sum(v), len(v)))
    irr, sim, k = got['rescale']
    ctx.eq_series(irr, list(g), 'rescaled against the measurement', idx)
    ctx.eq_series(sim, want, 'interval mean', idx)
    ctx.eq_series(ta.poa_global_clearsky, [x if missing(x) else x * 2 for x in want], 'clear-sky irradiance', idx)
    if sensor:
        ctx.eq_series(seen[0]['poa_global'], list(g), 'measured irradiance used for normalising', idx)
        return
    ctx.eq_series(seen[0]['poa_global'], [x if missing(x) else x * 2 for x in want], 'used for normalising', idx)


def h_tamb(ctx):
    """clear-sky cell temperature: modelled (or given) ambient temperature of the site, no wind, the chosen cell model"""
    from rdtools import TrendAnalysis
    import pvlib
    c = ctx.cfg
    idx = stamps('2020-06-01 12:00', c['gaps'], '1min', c.get('tz'))
    g = pd.Series(500.0, idx)
    cs = ctx.series('cs', idx, lo=100, hi=1000)
    am = ctx.series('am', idx, lo=-20, hi=45)
    got = {}
    kw = {}
    if 'model' in c:
        kw['temperature_model'] = c['model']
    ta = quiet(TrendAnalysis, pd.Series(5.0, idx), poa_global=g, gamma_pdc=-0.004, power_dc_rated=10.0, pv_input='energy', max_timedelta=pd.Timedelta('1D'), **kw)

    class Loc:
        latitude, longitude = 40.0, -105.0

    def tamb(times, latitude, longitude, *a, **k):
        got['site'] = (list(times), latitude, longitude)
        return ctx.mk_series(list(am), idx)

    def cell(poa_global, temp_air, wind_speed, a, b, deltaT, **k):
        got['cell'] = (poa_global, temp_air, wind_speed, (a, b, deltaT))
        return temp_air + poa_global / 32
    seen = []

    def norm(e, kws, *a, **k):
        seen.append(kws)
        return e * 1.0, e * 2.0
    more = dict(temperature_ambient_clearsky=ctx.mk_series(list(am), idx)) if c.get('given') else dict(pvlib_location=Loc())
    ta.set_clearsky(poa_global_clearsky=cs, **more)
    ta.filter_params = {'clearsky_filter': {'model': 'csi', 'threshold': 1e9}}
    ta.filter_params_aggregated = {}
    with patched(rdtools__clearsky_temperature__get_clearsky_tamb=tamb, pvlib__temperature__sapm_cell=cell, rdtools__normalization__normalize_with_pvwatts=norm):
        if c.get('bad'):
            ctx.expect_raises(ValueError, lambda: quiet(ta.clearsky_analysis, analyses=[]), 'incomplete temperature model refused')
            return
        quiet(ta.clearsky_analysis, analyses=[])
    if c.get('given'):
        ctx.check('site' not in got, 'given temperature is used')
    else:
        ctx.check(got.get('site') == (list(idx), 40.0, -105.0), 'temperature modelled for the site and times')
    poa, air, wind, par = got['cell']
    ctx.eq_series(poa, list(cs), 'clear-sky irradiance heats the cell', idx)
    ctx.eq_series(air, list(am), 'ambient temperature', idx)
    w = list(wind) if hasattr(wind, '__len__') else [wind]
    ctx.check(all(float(x) == 0 for x in w), 'no wind')
    m = c.get('model', 'open_rack_glass_polymer')
    if isinstance(m, str):
        m = pvlib.temperature.TEMPERATURE_MODEL_PARAMETERS['sapm'][m]
    ctx.check(par == (m['a'], m['b'], m['deltaT']), f'cell model {par}')
    ctx.eq_series(seen[0]['temperature_cell'], [t + x / 32 for t, x in zip(am, cs)], 'cell temperature', idx)


def jobs(tier):
    th = tier == 'thorough'
    J = [('pixel-lon', h_pixel, dict(grid=(4, 2), lat=10.0)),
         ('pixel-lon-5', h_pixel, dict(grid=(5, 3), lat=-10.0)),
         ('pixel-lat', h_pixel, dict(grid=(2, 4), lon=100.0)),
         ('pixel-lat-5', h_pixel, dict(grid=(3, 5), lon=-100.0)),
         ('pixel', h_pixel, dict(grid=(3, 2))),
         ('nodata', h_nodata, {}),
         ('temp', h_temp, dict(lon=-105.0, lat=40.0, tz='Etc/GMT+7', months=[6], times=('2020-06-10', 5, '6h'), window=3, std=2)),
         ('temp-edge', h_temp, dict(lon=-105.0, lat=40.0, tz='Etc/GMT+7', months=[6, 7], times=('2020-06-30', 9, '6h'), window=3, std=1)),
         ('temp-even', h_temp, dict(lon=30.0, lat=-30.0, tz='Etc/GMT-2', months=[12, 1], times=('2019-12-31', 8, '4h'), window=4, std=1)),
         ('temp-dst', h_temp, dict(lon=-105.0, lat=40.0, tz='America/Denver', months=[3], times=('2020-03-07 06:00', 9, '6h'), window=2, std=1)),
         ('temp-dst2', h_temp, dict(lon=10.0, lat=50.0, tz='Europe/Berlin', months=[10], times=('2020-10-24 05:00', 9, '5h'), window=3, std=1)),
         ('temp-half', h_temp, dict(lon=75.0, lat=20.0, tz='Asia/Kolkata', months=[2, 3], times=('2020-02-28 12:00', 6, '30min'), window=2, std=1)),
         ('temp-default', h_temp, dict(lon=150.0, lat=-30.0, tz='Etc/GMT-10', months=[5, 6], times=('2020-05-31', 3, '12h'))),
         ('poa', h_poa, dict(gaps=[3, 3, 3])),
         ('poa-irregular', h_poa, dict(gaps=[2, 5, 1], spm='ephemeris')),
         ('tamb', h_tamb, dict(gaps=[5, 5])),
         ('tamb-given', h_tamb, dict(gaps=[5, 5], given=True, tz='US/Eastern', model='close_mount_glass_glass')),
         ('tamb-dict', h_tamb, dict(gaps=[5, 5], model=dict(a=-3.5, b=-0.06, deltaT=2))),
         ('tamb-bad-a', h_tamb, dict(gaps=[5, 5], given=True, model=dict(b=-0.06, deltaT=2), bad=True)),
         ('tamb-bad-d', h_tamb, dict(gaps=[5, 5], given=True, model=dict(a=-3.5, b=-0.06), bad=True)),
         ('poa-default', h_poa, dict(gaps=[2, 2], default=True)),
         ('poa-sensor', h_poa, dict(gaps=[3, 2], chain='sensor')),
         ('poa-tz', h_poa, dict(gaps=[4, 4], tz='US/Eastern'))]
    if th:
        J += [('pixel-8', h_pixel, dict(grid=(8, 4))),
              ('temp-5', h_temp, dict(lon=-20.0, lat=0.0, tz='UTC', months=[3, 4], times=('2021-03-30', 20, '3h'), window=5, std=3)),
              ('poa-5', h_poa, dict(gaps=[5, 5, 5, 5]))]
    return J
