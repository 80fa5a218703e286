"""P06 PVWatts DC power formula"""
from .lib import *

COVERAGE = 'pvwatts_dc_power executed symbolically in every argument; the solver proves the result equal to the PVWatts v5 formula'
BOUNDS = '4 samples, scalar and series arguments, every combination of omitted optional arguments, missing values'
ASSUMPTIONS = ['reference irradiance is non-zero']


def h(ctx):
    import rdtools
    from rdtools.normalization import pvwatts_dc_power
    c = ctx.cfg
    idx = pd.date_range('2020-01-01', periods=4, freq='h')
    poa = ctx.series('poa', idx, nan=[1])
    rated = ctx.real('rated')
    kw = {}
    ref, tref = 1000, 25
    if c['ref']:
        ref = kw['poa_global_ref'] = ctx.real('ref', 0, 2000, lo_open=True)
    if c['tref']:
        tref = kw['temperature_cell_ref'] = ctx.real('tref')
    T = G = None
    if c['t']:
        T = kw['temperature_cell'] = ctx.series('tc', idx, nan=[2])
    if c['g']:
        G = kw['gamma_pdc'] = ctx.real('gamma')
    p0 = freeze(poa)
    out = pvwatts_dc_power(poa, rated, **kw)
    want = []
    for i in range(4):
        x = p0.iloc[i]
        if missing(x):
            want.append(NAN)
            continue
        y = rated * x / ref
        if T is not None and G is not None:
            y = NAN if missing(T.iloc[i]) else y * (1 + G * (T.iloc[i] - tref))
        want.append(y)
    ctx.eq_series(out, want, 'dc power', idx)
    ctx.unchanged(p0, poa, 'poa')


def h_anchor(ctx):
    """rated power at reference conditions; proportional to irradiance"""
    from rdtools.normalization import pvwatts_dc_power
    idx = pd.date_range('2020-01-01', periods=2, freq='h')
    rated = ctx.real('rated', 0, 1e6, lo_open=True)
    ref = ctx.real('ref', 1, 2000)
    tref = ctx.real('tref', -50, 100)
    g = ctx.real('gamma', -0.05, 0.05)
    poa = ctx.mk_series([ref, ctx.real('x', 0, 2000)], idx)
    tc = ctx.mk_series([tref, ctx.real('t', -50, 150)], idx)
    out = pvwatts_dc_power(poa, rated, tc, ref, tref, g)
    ctx.eq(out.iloc[0], rated, 'rated power at reference conditions')
    k = ctx.real('k', 0, 10)
    ctx.eq_series(pvwatts_dc_power(poa * k, rated, tc, ref, tref, g), [x * k for x in out], 'proportional')
    # zero is a legitimate cell temperature and a legitimate coefficient
    z = pvwatts_dc_power(poa, rated, ctx.mk_series([0.0, 0.0], idx), ref, tref, g)
    ctx.eq_series(z, [rated * p / ref * (1 + g * (0 - tref)) for p in poa], 'zero cell temperature')
    z = pvwatts_dc_power(poa, rated, tc, ref, tref, 0)
    ctx.eq_series(z, [rated * p / ref for p in poa], 'zero coefficient')


def jobs(tier):
    J = []
    for ref in (0, 1):
        for tref in (0, 1):
            for t in (0, 1):
                for g in (0, 1):
                    J.append((f'ref{ref}-tref{tref}-t{t}-g{g}', h, dict(ref=ref, tref=tref, t=t, g=g)))
    J.append(('anchor', h_anchor, {}))
    return J
