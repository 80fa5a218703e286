"""P25 figures draw the analysed data"""
from .lib import *

COVERAGE = ('plotting functions executed symbolically against recording stand-ins for matplotlib and plotly; symbolic results; solver proves every drawn '
            'series (points, trend line, histogram values, profiles, outage curves, rolling trend, error bars) equal to its definition')
BOUNDS = '3-8 points, 1-3 profiles or outages; symbolic rates, factors and limits'
ASSUMPTIONS = ['what matplotlib/plotly do with the data they are given is not judged', 'bootstrap band of the rolling trend: resampling replaced by a fixed one']


class Rec:
    """swallows every call and remembers it"""

    def __init__(self, log, name='fig'):
        self._log, self._name, self.axes = log, name, []

    def add_gridspec(self, *a, **k):
        class G:
            def __getitem__(self, key):
                return key
        return G()

    def add_subplot(self, *a, **k):
        self.axes.append(Rec(self._log, f'ax{len(self.axes) + 1}'))
        return self.axes[-1]

    def gca(self, *a, **k):
        return self.axes[0] if self.axes else self.add_subplot()

    def get_axes(self):
        return self.axes

    def subplots(self, nrows=1, ncols=1, *a, squeeze=True, **k):
        axes = np.array([self.add_subplot() for _ in range(nrows * ncols)], dtype=object).reshape(nrows, ncols)
        if not squeeze:
            return axes
        return axes[0, 0] if axes.size == 1 else axes.ravel() if 1 in axes.shape else axes

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*a, **k):
            if name == 'set':
                for q, v in k.items():
                    getattr(self, 'set_' + q)(v)
                return
            self._log.append((self._name, name, a, k))
        return f


def record(log):
    def subplots(nrows=1, ncols=1, *a, squeeze=True, **k):
        fig = Rec(log)
        return fig, fig.subplots(nrows, ncols, squeeze=squeeze)

    def figure(*a, **k):
        return Rec(log)
    return dict(matplotlib__pyplot__subplots=subplots, matplotlib__pyplot__figure=figure,
                matplotlib__pyplot__ylabel=lambda *a, **k: None, matplotlib__pyplot__xlabel=lambda *a, **k: None)


SIGNATURE = {'scatter': ('x', 'y', 's', 'c'), 'hist': ('x', 'bins'), 'axvline': ('x',), 'axhline': ('y',), 'errorbar': ('x', 'y', 'yerr', 'xerr'),
             'fill_between': ('x', 'y1', 'y2'), 'set_xlim': ('left', 'right'), 'set_ylim': ('bottom', 'top'), 'annotate': ('text', 'xy'),
             'text': ('x', 'y', 's')}
ALIAS = {'color': 'c', 'linestyle': 'ls', 'linewidth': 'lw', 'xmin': 'left', 'xmax': 'right', 'ymin': 'bottom', 'ymax': 'top'}


def calls(log, name):
    """the calls of one drawing function, every argument by its name"""
    out = []
    for ax, nm, a, k in log:
        if nm == name:
            q = {ALIAS.get(x, x): v for x, v in k.items()}
            if nm in ('set_xlim', 'set_ylim') and len(a) == 1 and isinstance(a[0], (tuple, list)):
                a = a[0]
            q.update(zip(SIGNATURE[nm], a))
            out.append(q)
    return out


def columns(y):
    """the curves of a y argument: one, or one per column"""
    if isinstance(y, pd.DataFrame):
        return [list(y.iloc[:, j]) for j in range(y.shape[1])]
    if getattr(y, 'ndim', 1) == 2:
        return [list(y[:, j]) for j in range(y.shape[1])]
    return [list(y)]


def drawn(log):
    """(axes, times, values) of everything drawn as a curve or as points, in order"""
    out = []
    for ax, nm, a, k in log:
        if nm == 'scatter':
            q = dict(zip(SIGNATURE['scatter'], a), **k)
            out.append((ax, list(q['x']), list(q['y'])))
        if nm != 'plot':
            continue
        a = list(a)
        while a:
            if len(a) == 1 or isinstance(a[1], str):
                y = a.pop(0)
                x = list(y.index) if hasattr(y, 'index') else list(range(len(y)))
            else:
                x, y = list(a.pop(0)), a.pop(0)
            if a and isinstance(a[0], str):
                a.pop(0)
            out += [(ax, x, c) for c in columns(y)]
    return out


def alike(ctx, a, b):
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    return (a == b) if ctx.symbolic else abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def has(ctx, items, x, y, label):
    """some drawn series has exactly these points"""
    cand = [d for d in items if list(d[1]) == list(x)]
    if not ctx.check(bool(cand), f'{label}: drawn over the right times'):
        return
    if len(cand) > 1:
        cand = [d for d in cand if len(d[2]) == len(y)]
        ctx.check(ctx.Or(*[ctx.And(*[alike(ctx, p, q) for p, q in zip(d[2], y)]) for d in cand]), f'{label}: drawn')
        return
    ctx.check(len(cand[0][2]) == len(y), f'{label}: number of points')
    for i, (p, q) in enumerate(zip(cand[0][2], y)):
        ctx.eq(p, q, f'{label}[{i}]')


def quiet(f, *a, **k):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def h_deg(ctx):
    from rdtools import degradation_summary_plots, plotting
    c = ctx.cfg
    idx = stamps('2019-01-01', c['days'], '1D', c.get('tz'))
    n = len(idx)
    y = ctx.series('y', idx, nan=c.get('nan', False))
    r = ctx.real('factor', 0.1, 10)
    v = ctx.series('v', idx[-c['nv']:], nan=c.get('vnan', False))
    rd, lo, hi = 0.5, -1.25, 2.0
    rdv = ctx.real('rd', -5, 5) if c.get('symrd') else rd
    info = {'YoY_values': v, 'renormalizing_factor': r, 'exceedance_level': 1.0,
            'usage_of_points': pd.Series([i % 3 for i in range(n)], idx)}
    log = []
    kw = dict(c.get('kw', {}))
    keep = freeze(y), freeze(v)
    with patched(**record(log)):
        quiet(degradation_summary_plots, rdv, [lo, hi], info, y, **kw)
    d = drawn(log)
    has(ctx, d, idx, [x if missing(x) else ctx.div(x, r) for x in y], 'renormalised yield')
    years = (idx[-1] - idx[0]).days
    has(ctx, [q for q in d if len(q[1]) == 2], [idx[0], idx[-1]], [1, 1 + ctx.div(rdv * years, ex(ctx, '36525'))], 'trend line')
    hist = calls(log, 'hist')
    if ctx.check(len(hist) == 1, 'one histogram'):
        got = list(hist[0]['x'])
        ctx.check(len(got) == len(v), 'histogram of all rates')
        for i, (a, b) in enumerate(zip(got, v)):
            ctx.eq(a, b, f'rate {i} in the histogram')
        want = min(kw.get('bins', len(v) // 40), len(v))
        ctx.check(hist[0].get('bins') == want, f'histogram bins {hist[0].get("bins")}')
    vl = calls(log, 'axvline')
    ctx.check(len(vl) == 1, 'rate marked')
    if vl:
        ctx.eq(vl[0].get('x'), rdv, 'marked rate')
    for nm, ends, want in (('set_xlim', ('left', 'right'), ('hist_xmin', 'hist_xmax')), ('set_ylim', ('bottom', 'top'), ('scatter_ymin', 'scatter_ymax'))):
        got = (calls(log, nm) or [{}])[-1]
        ctx.check([got.get(e) for e in ends] == [kw.get(w) for w in want], f'{want[0]} and {want[1]}')
    if not c.get('symrd'):
        txt = ' '.join(str(x) for ax, nm, a, k in log if nm in ('annotate', 'text') for x in list(a) + list(k.values()))
        for s in ('0.50', '-1.25', '2.00'):
            ctx.check(s in txt, f'label shows {s}')
    if kw.get('detailed'):
        col = [q.get('c') for q in calls(log, 'scatter')]
        ctx.check(col and list(col[0]) == [{0: 'red', 1: 'green', 2: kw.get('plot_color', 'C0')}[i % 3] for i in range(n)], 'points coloured by usage')
        known = len([x for x in v if not missing(x)])
        txt = ' '.join(str(x) for ax, nm, a, k in log if nm in ('annotate', 'text') for x in list(a) + list(k.values()))
        ctx.check(f'n = {known}' in txt, f'number of slopes {known}')
    ctx.unchanged(keep[0], y, 'yield')
    ctx.unchanged(keep[1], v, 'rates')


def ex(ctx, v):
    return ctx.frac(Fraction(str(v))) if ctx.symbolic else float(v)


def h_soil(ctx):
    from rdtools import plotting
    c = ctx.cfg
    idx = pd.date_range('2020-01-01', periods=4, freq='D')
    y = ctx.series('y', idx, nan=c.get('nan', False))
    r = ctx.real('factor', 0.1, 10)
    profs = [ctx.series(f'q{k}', idx[k:]) for k in range(c.get('profiles', 2))]
    sr = ctx.series('s', idx, nan=[1])
    valid = [ctx.boolean(f'ok{k}') for k in range(3)]
    rate = [ctx.real(f'rate{k}', -1, 0) for k in range(3)]
    summ = pd.DataFrame({'soiling_rate': ctx.mk_series(rate, range(3)), 'valid': pd.Series(valid)})
    info = dict(renormalizing_factor=r, stochastic_soiling_profiles=profs, soiling_ratio_perfect_clean=sr, soiling_interval_summary=summ)
    norm = [x if missing(x) else ctx.div(x, r) for x in y]
    keep = freeze(y)
    log = []
    with patched(**record(log)):
        if c['fig'] == 'monte':
            kw = {} if c.get('limit') is None else dict(profiles=c['limit'])
            quiet(plotting.soiling_monte_carlo_plot, info, y, **kw)
            d = drawn(log)
            want = profs if c.get('limit') is None else profs[:c['limit']]
            if ctx.check(len(d) == 1 + len(want), f'{len(d)} series drawn'):
                for i, (a, b) in enumerate([(list(idx), norm)] + [(list(p.index), list(p)) for p in want]):
                    has(ctx, d, a, b, f'series {i}')
        elif c['fig'] == 'interval':
            quiet(plotting.soiling_interval_plot, info, y)
            d = drawn(log)
            if ctx.check(len(d) == 2, 'two series drawn'):
                has(ctx, d, idx, norm, 'yield')
                has(ctx, d, idx, list(sr), 'soiling ratio')
        else:
            quiet(plotting.soiling_rate_histogram, info, bins=c.get('bins'))
            hist = calls(log, 'hist')
            if ctx.check(len(hist) == 1, 'one histogram'):
                got = list(hist[0]['x'])
                want = [x * 100 for x, ok in zip(rate, valid) if ok]
                ctx.check(len(got) == len(want), 'valid intervals only')
                for i, (a, b) in enumerate(zip(got, want)):
                    ctx.eq(a, b, f'rate {i}')
                ctx.check(hist[0].get('bins') == c.get('bins'), 'bins')
    ctx.unchanged(keep, y, 'yield')


def h_tune(ctx):
    from rdtools import tune_filter_plot
    c = ctx.cfg
    idx = pd.date_range('2020-01-01', periods=4, freq='h', name=c.get('iname'))
    s = ctx.series('s', idx)
    s.name = c.get('name')
    mask = pd.Series([ctx.boolean(f'm{i}') for i in range(4)], idx)
    keep = freeze(s), mask.copy()
    got = []
    with patched(plotly__express__scatter=lambda df, **k: got.append((df, k)) or Rec([])):
        quiet(tune_filter_plot, s, mask)
    if not ctx.check(len(got) == 1, 'one figure'):
        return
    df, k = got[0]
    ctx.check(list(df[k['x']]) == list(idx), 'times')
    ctx.eq_series(df[k['y']], list(keep[0]), 'signal')
    ctx.check(list(df[k['color']]) == list(mask), 'coloured by the mask')
    cm = k.get('color_discrete_map', {})
    ctx.check(cm.get(True) != cm.get(False) and set(cm) == {True, False}, 'kept and removed points differ in colour')
    ctx.unchanged(keep[0], s, 'signal')


def h_avail(ctx):
    from rdtools import availability_summary_plots
    c = ctx.cfg
    idx = pd.date_range('2020-01-01', periods=7, freq='h')
    P, L, E, X = [ctx.series(k, idx) for k in 'plex']
    sub = pd.DataFrame({'a': ctx.series('a', idx), 'b': ctx.series('b', idx)})
    rows = []
    for k, (i, j) in enumerate(c['outages']):
        rows.append(dict(start=idx[i], end=idx[j], energy_start=ctx.real(f'es{k}', 0, 100), energy_expected=ctx.real(f'ee{k}', 0, 100),
                         ci_lower=ctx.real(f'lo{k}', 0, 100), ci_upper=ctx.real(f'hi{k}', 0, 200)))
    cols = ['energy_start', 'energy_expected', 'ci_lower', 'ci_upper']
    info = pd.DataFrame({'start': [r['start'] for r in rows], 'end': [r['end'] for r in rows]})
    for q in cols:
        info[q] = ctx.mk_series([r[q] for r in rows], info.index)
    log = []
    keep = freeze(X), freeze(E)
    with patched(**record(log)):
        quiet(availability_summary_plots, P, sub, L, E, X, info)
    d = drawn(log)
    for nm, S in (('power', P), ('lost power', L), ('meter', E), ('subsystem a', sub['a']), ('subsystem b', sub['b'])):
        has(ctx, d, idx, list(S), nm)
    bars = calls(log, 'errorbar')
    if not ctx.check(len(d) == 5 + len(rows) and len(bars) == len(rows), 'one expected curve and one error bar per outage'):
        return
    for r, (i, j), ba in zip(rows, c['outages'], bars):
        acc, curve = r['energy_start'], []
        for k in range(i, j + 1):
            acc = acc + X.iloc[k]
            curve.append(acc)
        has(ctx, d, idx[i:j + 1], curve, 'expected production')
        ctx.check(list(np.atleast_1d(ba['x'])) == [idx[j]], 'error bar at the end')
        ctx.eq(list(np.atleast_1d(ba['y']))[0], acc, 'error bar at the expected production')
        err = ba['yerr']
        ctx.eq(err[0][0], ctx.maxi([r['energy_expected'] - r['ci_lower'], r['ci_lower'] - r['energy_expected']]), 'lower error')
        ctx.eq(err[1][0], ctx.maxi([r['energy_expected'] - r['ci_upper'], r['ci_upper'] - r['energy_expected']]), 'upper error')
    ctx.unchanged(keep[0], X, 'expected')
    ctx.unchanged(keep[1], E, 'meter')


def h_roll(ctx):
    from rdtools import degradation_timeseries_plot
    c = ctx.cfg
    idx = stamps('2020-01-01', c['gaps'], '1D')
    v = ctx.series('v', idx, nan=c.get('nan', False))
    n = len(v)
    log = []
    keep = freeze(v)
    R = c['R']

    def choice(x, size, replace=True, **k):
        # a fixed "resample": every column repeats the values in order, shifted by the column
        m = len(x)
        return np.array([[x[(i + j) % m] for j in range(size[1])] for i in range(size[0])], dtype=object if ctx.symbolic else float)
    with patched(numpy__random__choice=choice, **record(log)):
        kw = {} if c.get('ci') is None else dict(include_ci=c['ci'])
        if c.get('fig'):
            f0, ax0 = record(log)['matplotlib__pyplot__subplots']()
            kw['fig'] = f0
        quiet(degradation_timeseries_plot, {'YoY_values': v}, R, **kw)
    want = []
    band = []
    for i in range(n):
        w = [v.iloc[j] for j in range(i + 1) if idx[i] - idx[j] < pd.Timedelta(days=R)]
        w = [x for x in w if not missing(x)]
        ok = len(w) >= max(R // 2, 1)
        want.append(ctx.median(w) if ok else NAN)
        band.append(ok)
    has(ctx, drawn(log), idx, want, 'rolling median')
    known = [x for x in v if not missing(x)]
    hl = calls(log, 'axhline')
    if ctx.check(len(hl) == 1, 'overall median marked'):
        ctx.eq(hl[0].get('y'), ctx.median(known) if known else NAN, 'overall median')
    fb = calls(log, 'fill_between')
    ctx.check(len(fb) == (0 if c.get('ci') is False else 1), 'uncertainty band drawn as asked')
    if fb and not c.get('nan'):
        ctx.check(list(fb[0]['x']) == list(idx), 'band times')
        for i, (a, b) in enumerate(zip(fb[0]['y1'], fb[0]['y2'])):
            # every resample here is a rotation: the band collapses onto the rolling median
            ctx.eq(a, want[i], f'lower edge {i}')
            ctx.eq(b, want[i], f'upper edge {i}')
    ctx.unchanged(keep, v, 'rates')
    ctx.expect_raises(KeyError, lambda: quiet(degradation_timeseries_plot, {'YoY': v}, R), 'no rates')


def h_case(ctx):
    """the figures of the end-to-end analysis use the results of the analysis asked for"""
    from rdtools import TrendAnalysis
    c = ctx.cfg
    idx = pd.date_range('2020-01-01', periods=3, freq='D')
    ta = TrendAnalysis(pd.Series([1.0, 2.0, 3.0], idx), pv_input='energy')
    perf = {}
    for case in ('sensor', 'clearsky'):
        perf[case] = ctx.series(case[0], idx)
        setattr(ta, f'{case}_aggregated_performance', perf[case])
        ta.results[case] = {'yoy_degradation': dict(p50_rd=ctx.real(f'rd{case}', -5, 5), rd_confidence_interval=[case, 1], calc_info={'k': 'yoy' + case}),
                            'srr_soiling': dict(p50_sratio=0.9, sratio_confidence_interval=[0, 1], calc_info={'k': 'srr' + case})}
    case = ctx.choice('case', ['sensor', 'clearsky'])
    which = ctx.choice('fig', ['degradation_summary', 'soiling_monte_carlo', 'soiling_interval', 'soiling_rate_histogram', 'degradation_timeseries'])
    fn = {'degradation_summary': 'degradation_summary_plots', 'soiling_monte_carlo': 'soiling_monte_carlo_plot', 'soiling_interval': 'soiling_interval_plot',
          'soiling_rate_histogram': 'soiling_rate_histogram', 'degradation_timeseries': 'degradation_timeseries_plot'}[which]
    got = []
    with patched(**{f'rdtools__plotting__{fn}': lambda *a, **k: got.append((a, k)) or 'figure'}):
        out = getattr(ta, f'plot_{which}')(case, x=3)
        for bad in ('Sensor', '', None):
            ctx.expect_raises(ValueError, lambda: getattr(ta, f'plot_{which}')(bad), f'case {bad!r}')
    if not ctx.check(out == 'figure' and len(got) == 1, 'figure returned'):
        return
    a, k = got[0]
    ctx.check(k == {'x': 3}, 'options passed on')
    r = ta.results[case]
    if which == 'degradation_summary':
        ctx.eq(a[0], r['yoy_degradation']['p50_rd'], 'rate')
        ctx.check(a[1] is r['yoy_degradation']['rd_confidence_interval'] and a[2] is r['yoy_degradation']['calc_info'], 'interval and details')
        ctx.eq_series(a[3], list(perf[case]), 'performance', idx)
    elif which == 'degradation_timeseries':
        ctx.check(a[0] is r['yoy_degradation']['calc_info'] and a[1] == 365, 'details')
    else:
        ctx.check(a[0] is r['srr_soiling']['calc_info'], 'details')
        if len(a) > 1:
            ctx.eq_series(a[1], list(perf[case]), 'performance', idx)


def h_pvirr(ctx):
    from rdtools import TrendAnalysis
    idx = pd.date_range('2020-01-01', periods=4, freq='h')
    pv = ctx.series('p', idx, nan=[1])
    g, s = ctx.series('g', idx), ctx.series('s', idx)
    ta = TrendAnalysis(pv, poa_global=g, pv_input='energy')
    ta.set_clearsky(poa_global_clearsky=s.iloc[1:])
    case = ctx.choice('case', ['sensor', 'clearsky'])
    log = []
    with patched(**record(log)):
        ta.plot_pv_vs_irradiance(case)
    ctx.expect_raises(ValueError, lambda: ta.plot_pv_vs_irradiance('x'), 'case')
    d = drawn(log)
    w = list(g) if case == 'sensor' else [NAN] + list(s)[1:]
    if ctx.check(len(d) == 1 and len(d[0][1]) == 4, 'one cloud of points'):
        for i in range(4):
            ctx.eq(d[0][1][i], w[i], f'irradiance {i}')
            ctx.eq(d[0][2][i], pv.iloc[i], f'energy {i}')


def jobs(tier):
    J = [('deg', h_deg, dict(days=[100, 300, 365], nv=2)),
         ('deg-rd', h_deg, dict(days=[365, 365, 1], nv=3, symrd=True, nan=[1])),
         ('deg-detailed', h_deg, dict(days=[200, 300, 400], nv=3, vnan=[0, 2], kw=dict(detailed=True, bins=2, hist_xmin=-3, hist_xmax=4, scatter_ymin=0, scatter_ymax=2))),
         ('deg-color', h_deg, dict(days=[10, 30, 400], nv=2, tz='US/Eastern', kw=dict(detailed=True, bins=20, plot_color='C3'))),
         ('monte', h_soil, dict(fig='monte', profiles=3, nan=[2])),
         ('monte-2', h_soil, dict(fig='monte', profiles=3, limit=2)),
         ('monte-0', h_soil, dict(fig='monte', profiles=2, limit=0)),
         ('interval', h_soil, dict(fig='interval', nan=[0])),
         ('rates', h_soil, dict(fig='rates', bins=7)),
         ('tune', h_tune, {}), ('tune-named', h_tune, dict(name='power', iname='time')),
         ('avail-1', h_avail, dict(outages=[(1, 3)])),
         ('avail-2', h_avail, dict(outages=[(0, 2), (4, 6)])),
         ('avail-0', h_avail, dict(outages=[])),
         ('roll', h_roll, dict(gaps=[1] * 5, R=4)),
         ('roll-gap', h_roll, dict(gaps=[1, 2, 1, 3], R=4, nan=[1, 2], ci=False)),
         ('roll-nan', h_roll, dict(gaps=[1, 1, 1], R=3, nan=True, ci=False, fig=True)),
         ('roll-long', h_roll, dict(gaps=[1, 1, 1], R=10)),
         ('case', h_case, {}), ('pv-irradiance', h_pvirr, {})]
    if tier == 'thorough':
        J += [('roll-8', h_roll, dict(gaps=[1] * 7, R=5)), ('deg-5', h_deg, dict(days=[100] * 9, nv=5, symrd=True, nan=True))]
    return J
