"""P13 year-on-year degradation rate"""
from .lib import *
from .yoy import *

COVERAGE = ('degradation_year_on_year executed symbolically on symbolic energies over enumerated records (regular and irregular, '
            'unsorted, leap years, time zones, missing points); the solver proves the list of year-on-year rates, the median, the '
            'renormalising factor and the usage counts equal to an independent definition, and scale/order invariance')
BOUNDS = 'records of up to 9 points spanning 2-4 years, all real energies, missing values'
ASSUMPTIONS = ['first-year energies non-negative and with a positive median when recentring (documented domain)']


def h(ctx):
    import rdtools
    c = ctx.cfg
    idx = times(c['idx'])
    if c.get('tz'):
        idx = idx.tz_localize(c['tz'])
    n = len(idx)
    rec = c.get('recenter', True)
    first = [i for i in range(n) if idx[i] <= idx[0] + 364 * DAY]
    vals = [ctx.real(f'e{i}', 0.01 if rec and i in first and not c.get('zeros') else (0 if rec and i in first else None), None if not rec else 10,
                     nan=i in c.get('nan', [])) for i in range(n)]
    if rec:
        ref = robust(ctx, [vals[i] for i in first], 0.99, 'median')
        if missing(ref):
            return
        ctx.assume(ref > 0)
    order = c.get('order') or list(range(n))
    s = ctx.mk_series([vals[i] for i in order], pd.DatetimeIndex([idx[i] for i in order]), 'my energy')
    if c.get('order') is None and c.get('keepfreq'):
        s.index = idx
    s0 = freeze(s)
    kw = {}
    if not rec:
        kw['recenter'] = False
    want, ren, use = ref_yoy(ctx, idx, vals, rec)
    if not want:
        ctx.expect_raises(ValueError, lambda: rdtools.degradation_year_on_year(s, uncertainty_method=None, **kw), 'no pairs')
        return
    rd = rdtools.degradation_year_on_year(s, uncertainty_method=None, **kw)
    med = ctx.median([r for _, r in want])
    ctx.eq(rd, med, 'rate is the median of the year-on-year rates')
    if c.get('full'):
        with patched(numpy__random__choice=pick_first(ctx)):
            rd2, ci, info = rdtools.degradation_year_on_year(s, **kw)
        ctx.eq(rd2, med, 'rate (with uncertainty)')
        y = info['YoY_values']
        ctx.eq_series(y, [r for _, r in want], 'year-on-year rates', [idx[i] for i, _ in want])
        ctx.eq(info['renormalizing_factor'], ren, 'renormalising factor')
        u = info['usage_of_points']
        ctx.check(list(u.index) == list(idx), 'usage index')
        for i, (a, b) in enumerate(zip(u, use)):
            ctx.eq(a, b, f'usage[{i}]')
    ctx.unchanged(s0, s, 'input')


def pick_first(ctx):
    def choice(a, size=None, replace=True, p=None):
        a = list(a)
        n, reps = size
        out = np.empty((n, 2), dtype=object if ctx.symbolic else float)
        for i in range(n):
            out[i, 0] = a[i]
            out[i, 1] = a[-1 - i]
        return out
    return choice


def h_scale(ctx):
    """a change of unit does not change the recentred rate; without recentring it scales it"""
    import rdtools
    c = ctx.cfg
    idx = times(c['idx'])
    n = len(idx)
    s = ctx.series('e', idx, lo=0.01, hi=10)
    k = ctx.real('k', 0.001, 1000)
    f = lambda x, **kw: rdtools.degradation_year_on_year(x, uncertainty_method=None, **kw)
    if c['recenter']:
        ctx.eq(f(s * k), f(s), 'unit change')
    else:
        ctx.eq(f(s * k, recenter=False), f(s, recenter=False) * k, 'rate scales with the data')
        b = ctx.real('b', -5, 5)
        ctx.eq(f(s + b, recenter=False), f(s, recenter=False), 'offset cancels')


def h_linear(ctx):
    """a system that loses a constant amount per 365 days is given exactly that rate"""
    import rdtools
    c = ctx.cfg
    idx = times(c['idx'])
    r = ctx.real('r', -5, 5)
    t = [ctx.frac(int((x - idx[0]).value), YEAR) for x in idx]
    s = ctx.mk_series([1 + r * a / 100 if ctx.symbolic else 1 + r * a / 100 for a in t], idx)
    rd = rdtools.degradation_year_on_year(s, recenter=False, uncertainty_method=None)
    ctx.eq(rd, r, 'constant loss recovered')


def jobs(tier):
    th = tier == 'thorough'
    J = []
    q3 = lambda: pd.date_range('2012-01-01', periods=9, freq='QS')
    wk = ['2015-03-01', '2015-03-08', '2015-03-15', '2016-02-28', '2016-03-06', '2016-03-13', '2017-03-05', '2017-03-12']
    leap = ['2016-02-27', '2016-02-28', '2016-02-29', '2017-02-28', '2017-03-01', '2018-02-28', '2018-03-01']
    irr = ['2010-01-01', '2010-06-30', '2011-01-05', '2011-07-08', '2011-07-09', '2012-01-02', '2012-07-08']
    skip = ['2010-01-01', '2010-01-03', '2011-01-01', '2011-01-02', '2011-01-03', '2012-01-02', '2012-01-04']
    clk = ['2015-03-01 09:00', '2015-03-04 03:00', '2015-09-01 12:30', '2016-03-01 18:00', '2016-03-05 02:00', '2016-09-01 12:29', '2017-03-01 17:59:30', '2017-09-03 06:00']
    tol = ['2010-01-01', '2011-01-09', '2011-01-10', '2012-01-17', '2012-02-20']
    sets = [('half', half_years(5 if not th else 6)), ('quarter', q3), ('weeks', wk), ('leap', leap), ('irregular', irr), ('skip', skip), ('tolerance', tol), ('clock', clk)]
    for nm, ix in sets:
        n = len(times(ix))
        J.append((f'{nm}-norecenter', h, dict(idx=ix, recenter=False, full=True)))
        J.append((f'{nm}-recenter', h, dict(idx=ix, full=True)))
        J.append((f'{nm}-nan', h, dict(idx=ix, recenter=False, full=True, nan=list(range(0, n, 2)) if n > 6 else list(range(n)))))
        J.append((f'{nm}-nan2', h, dict(idx=ix, recenter=False, full=True, nan=list(range(1, n, 2)))))
    J.append(('half-recnan', h, dict(idx=half_years(5), full=True, nan=[0, 3])))
    J.append(('half-zeros', h, dict(idx=half_years(5), zeros=True)))
    J.append(('half-unsorted', h, dict(idx=half_years(5), order=[3, 0, 4, 2, 1], full=True)))
    J.append(('skip-unsorted', h, dict(idx=skip, order=[6, 5, 4, 3, 2, 1, 0], full=True, recenter=False)))
    J.append(('half-tz', h, dict(idx=half_years(5), tz='US/Eastern', full=True)))
    J.append(('skip-tz', h, dict(idx=skip, tz='UTC', full=True, recenter=False, nan=[2])))
    J.append(('quarter-freq', h, dict(idx=q3, keepfreq=True, full=True)))
    for rc in [True, False]:
        J.append((f'scale-{rc}', h_scale, dict(idx=half_years(5), recenter=rc)))
    J.append(('linear-half', h_linear, dict(idx=half_years(6))))
    J.append(('linear-skip', h_linear, dict(idx=skip)))
    J.append(('linear-month', h_linear, dict(idx=lambda: pd.date_range('2012-01-01', periods=25, freq='MS'))))
    return J
