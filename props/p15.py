"""P15 regression-based degradation rates (ordinary least squares, classical decomposition)"""
from .lib import *
import math
import sys

sys.set_int_max_str_digits(0)

COVERAGE = ('degradation_ols and degradation_classical_decomposition executed symbolically on symbolic energies; the least-squares fit of '
            'statsmodels is replaced by its closed-form solution (contract of the library), the random draws by symbolic draws; solver proves '
            'rate, slope, intercept, RMSE, moving average, trend label and confidence interval equal to an independent definition')
BOUNDS = 'OLS: up to 5 points with gaps and missing values; decomposition: 7-11 quarterly points (up to 5 full-year averages); 3 random draws'
ASSUMPTIONS = ['statsmodels OLS returns the exact least-squares solution (closed form), scipy normal quantile is a constant',
               'positive energies (so that the year-0 intercept used as divisor can be non-zero)']


class FakeOLS:
    """closed-form simple regression with statsmodels' interface"""
    ctx = None

    def __init__(self, endog=None, exog=None, hasconst=None, missing='none', **k):
        cols = list(exog.columns)
        y = list(endog)
        X = [list(exog[c]) for c in cols]
        rows = [i for i in range(len(y)) if not globals_missing(y[i])] if missing == 'drop' else list(range(len(y)))
        self.cols, self.y, self.X = cols, [y[i] for i in rows], [[x[i] for i in rows] for x in X]

    def fit(self, *a, **k):
        return FakeFit(self)


def globals_missing(x):
    return missing(x)


class FakeFit:
    def __init__(self, m):
        ctx = FakeOLS.ctx
        assert len(m.cols) == 2
        a, b = m.X
        y, n = m.y, len(m.y)
        saa, sab, sbb = (ctx.sum([p * q for p, q in zip(u, v)]) for u, v in ((a, a), (a, b), (b, b)))
        say, sby = ctx.sum([p * q for p, q in zip(a, y)]), ctx.sum([p * q for p, q in zip(b, y)])
        det = saa * sbb - sab * sab
        p0, p1 = (sbb * say - sab * sby) / det, (saa * sby - sab * say) / det
        res = [v - p0 * q - p1 * r for v, q, r in zip(y, a, b)]
        self.mse_resid = ctx.sum([r * r for r in res]) / (n - 2) if n > 2 else float('nan')
        self.params = pd.Series(ctx.mk_series([p0, p1], pd.Index(m.cols)))
        s2 = self.mse_resid
        self.cov = [[s2 * sbb / det, -s2 * sab / det], [-s2 * sab / det, s2 * saa / det]] if n > 2 else None
        self.bse = (ctx.sqrt(self.cov[0][0]), ctx.sqrt(self.cov[1][1])) if n > 2 else (float('nan'),) * 2

    def cov_params(self):
        return self.cov


def fake_add_constant(data, prepend=True, has_constant='skip'):
    ctx = FakeOLS.ctx
    if has_constant == 'skip':
        for c in data.columns:
            v = list(data[c])
            if any(missing(x) for x in v):
                continue
            if bool(ctx.And(*[x == v[0] for x in v], ctx.Not(v[0] == 0))):
                return data.copy()
    out = data.copy()
    out.insert(0 if prepend else len(out.columns), 'const', 1.0)
    return out


def fit(ctx, x, y):
    """independent least squares: slope from centred sums"""
    n = len(y)
    mx, my = ctx.sum(x) / n, ctx.sum(y) / n
    sxx = ctx.sum([(a - mx) * (a - mx) for a in x])
    sxy = ctx.sum([(a - mx) * (b - my) for a, b in zip(x, y)])
    m = ctx.div(sxy, sxx)
    b = my - m * mx
    sse = ctx.sum([(c - b - m * a) * (c - b - m * a) for a, c in zip(x, y)])
    return b, m, sse, sxx, mx


def draws(ctx, k, seen):
    D = [((0.5, 2.0, 1.0, 4.0)[i], ctx.fresh(f'm{i}', -1, 1)) for i in range(k)]

    def mvn(mean, cov, size=None, **kw):
        seen['mean'] = list(mean)
        seen['cov'] = [list(r) for r in (cov.values if hasattr(cov, 'values') else cov)]
        seen['size'] = size
        return np.array(D, dtype=object if ctx.symbolic else float)
    return D, mvn


def common(ctx, c, out, x, y, D, seen, S):
    rd, ci, info = out
    b, m, sse, sxx, mx = fit(ctx, x, y)
    n = len(y)
    ctx.eq(info['slope'], m, 'slope')
    ctx.eq(info['intercept'], b, 'intercept')
    ctx.eq(rd, ctx.div(m * 100, b), 'rate is slope over intercept in percent')
    if n > 2:
        ctx.eq(info['rmse'] * info['rmse'], sse / (n - 2), 'rmse')
        ctx.eq(info['slope_stderr'] * info['slope_stderr'], ctx.div(sse, (n - 2) * sxx), 'slope standard error')
        ctx.eq(info['intercept_stderr'] * info['intercept_stderr'], ctx.div(sse, n - 2) * (ctx.frac(1, n) + ctx.div(mx * mx, sxx)), 'intercept standard error')
    ctx.eq(seen['mean'][0], b, 'draws centred on the fit')
    ctx.eq(seen['mean'][1], m, 'draws centred on the fit')
    if n > 2 and c.get('cov', True):
        ctx.eq(seen['cov'][1][1], ctx.div(sse, (n - 2) * sxx), 'draws use the covariance of the fit')
    ctx.check(seen['size'] >= 1000, 'enough draws')
    ratio = [ctx.div(q * 100, p) for p, q in D]
    cl = c.get('conf', 68.2)
    P = (lambda v: Fraction(str(v)) / 100) if ctx.symbolic else (lambda v: v / 100.0)
    ctx.eq(ci[0], ctx.quantile(ratio, P(50) - P(cl) / 2), 'lower bound')
    ctx.eq(ci[1], ctx.quantile(ratio, P(50) + P(cl) / 2), 'upper bound')
    ctx.le(ci[0], ci[1], 'ordered')


class FakeNorm:
    def __init__(self, ctx):
        self.ctx = ctx

    def cdf(self, z):
        return self.ctx.fresh('cdf', 0.5, 1)

    def ppf(self, p):
        assert abs(float(p) - 0.975) < 1e-12, p
        return 1.959963984540054


def env(ctx, mvn):
    r = dict(numpy__random__multivariate_normal=mvn)
    if ctx.symbolic:
        FakeOLS.ctx = ctx
        r.update(statsmodels__api__OLS=FakeOLS, statsmodels__api__add_constant=fake_add_constant, scipy__stats__norm=FakeNorm(ctx))
    return patched(**r)


def h_ols(ctx):
    import rdtools
    c = ctx.cfg
    idx = c['idx']()
    s = ctx.series('e', idx, lo=0.1, hi=2, nan=c.get('nan', False), series_name='mine')
    s0 = freeze(s)
    x = [ctx.frac(int((t - idx[0]).value), 365 * 24 * H) for t in idx]
    good = [i for i in range(len(idx)) if not missing(s0.iloc[i])]
    if len(good) < 3:
        return
    seen = {}
    D, mvn = draws(ctx, 3, seen)
    kw = {} if 'conf' not in c else dict(confidence_level=c['conf'])
    b, m, _, _, _ = fit(ctx, [x[i] for i in good], [s0.iloc[i] for i in good])
    ctx.assume(b > 0.05)
    with env(ctx, mvn):
        out = rdtools.degradation_ols(s, **kw)
    common(ctx, c, out, [x[i] for i in good], [s0.iloc[i] for i in good], D, seen, s0)
    ctx.unchanged(s0, s, 'input')
    if c.get('scale'):
        k = ctx.real('k', 0.01, 100)
        with env(ctx, mvn):
            out2 = rdtools.degradation_ols(s * k)
        ctx.eq(out2[0], out[0], 'unit change')


def window(t, i):
    h = 365 * 24 * H // 2
    return [j for j in range(len(t)) if t[i] - h < t[j] <= t[i] + h]


def h_cd(ctx):
    import rdtools
    c = ctx.cfg
    idx = c['idx']()
    n = len(idx)
    if c.get('sym') is None:
        s = ctx.series('e', idx, lo=0.1, hi=2, series_name='mine')
    elif c['sym'] == 'last':        # the last average moves through all positions among the others
        s = ctx.mk_series([(ctx.frac(b, 64) if ctx.symbolic else b / 64) for b in [64] + c['base']] + [ctx.real('e', 0, 5), ctx.frac(1)], idx, 'mine')
    elif c['sym'] == 'wiggle':      # order of the averages fixed by a steep trend, every value symbolic
        s = ctx.mk_series([(ctx.real(f'e{i}', -0.1, 0.1) if i in c.get('only', range(n)) else 0.0) + (n + 3 - i) for i in range(n)], idx, 'mine')
    else:
        s = ctx.mk_series([ctx.real(f'e{i}', 0.1, 2) if i in c['sym'] else 1.0 for i in range(n)], idx, 'mine')
    s0 = freeze(s)
    t = ns(idx)
    x = [ctx.frac(a - t[0], 365 * 24 * H) for a in t]
    full = [i for i in range(n) if 2 * (t[i] - t[0]) >= 365 * 24 * H and 2 * (t[-1] - t[i]) >= 365 * 24 * H]
    ma = {i: ctx.sum([s0.iloc[j] for j in window(t, i)]) / len(window(t, i)) for i in full}
    seen = {}
    D, mvn = draws(ctx, 3, seen)
    kw = {} if 'conf' not in c else dict(confidence_level=c['conf'])
    y = [ma[i] for i in full]
    b, m, _, _, _ = fit(ctx, [x[i] for i in full], y)
    ctx.assume(b > 0.05)
    with env(ctx, mvn):
        out = rdtools.degradation_classical_decomposition(s, **kw)
    ctx.eq_series(out[2]['series'], [ma.get(i, NAN) for i in range(n)], 'annual moving average', idx)
    if c.get('fit', True):
        common(ctx, c, out, [x[i] for i in full], y, D, seen, s0)
    if c.get('mk', True):
        # Mann-Kendall with tie correction
        S = 0
        k = len(y)
        ties = {}
        rep = []
        for i in range(k):
            for r in rep:
                if bool(y[i] == y[r]):
                    ties[r] += 1
                    break
            else:
                rep.append(i)
                ties[i] = 1
        for i in range(k):
            for j in range(i + 1, k):
                S += 1 if bool(y[j] > y[i]) else (-1 if bool(y[j] < y[i]) else 0)
        var = Fraction(k * (k - 1) * (2 * k + 5) - sum(q * (q - 1) * (2 * q + 5) for q in ties.values()), 18)
        z = 0 if S == 0 else (S - 1 if S > 0 else S + 1) / math.sqrt(var)
        want = 'no trend' if abs(z) <= 1.959963984540054 else ('increasing' if z > 0 else 'decreasing')
        ctx.check(out[2]['mk_test_trend'] == want, f'trend label {want}')
    ctx.unchanged(s0, s, 'input')


def h_bad(ctx):
    import rdtools
    idx = pd.date_range('2012', periods=8, freq='QS')
    s = ctx.series('e', idx, lo=0.1, hi=2, nan=[0, 1, 7])
    gap = any(missing(x) for x in s)
    if not gap:
        s = s.drop(s.index[3])
    D, mvn = draws(ctx, 3, {})
    with env(ctx, mvn):
        ctx.expect_raises(ValueError, lambda: rdtools.degradation_classical_decomposition(s), 'missing data')


def d90(n):
    return lambda: pd.date_range('2012-01-01', periods=n, freq='90D')


def jobs(tier):
    th = tier == 'thorough'
    irr = lambda: stamps('2012-01-01', [2, 3, 6], '73D')
    q4 = lambda: stamps('2012-01-01', [1, 1, 1], '73D')
    J = [('ols-quarter', h_ols, dict(idx=q4)),
         ('ols-irregular', h_ols, dict(idx=irr, conf=95)),
         ('ols-nan', h_ols, dict(idx=lambda: pd.date_range('2012-01-01', periods=4, freq='MS', tz='UTC'), nan=True, conf=50)),
         ('ols-scale', h_ols, dict(idx=lambda: pd.date_range('2012-01-01', periods=3, freq='MS'), scale=True, cov=False)),
         ('cd-fit', h_cd, dict(idx=d90(9), mk=False)),
         ('cd-fit-qs', h_cd, dict(idx=lambda: pd.date_range('2011-01-01', periods=9, freq='QS'), mk=False, conf=90, sym='wiggle', only=[1, 4, 5, 7])),
         ('cd-ma', h_cd, dict(idx=d90(11), mk=False, fit=False, sym='wiggle')),
         ('cd-mk-3', h_cd, dict(idx=d90(9), fit=False)),
         ('cd-mk-5', h_cd, dict(idx=d90(11), fit=False, sym=[6, 7, 8, 9])),
         ('bad', h_bad, {})]
    for nm, base in [('16', [71, 76, 105, 95, 105, 103, 87, 80, 65, 70, 82, 109, 87, 100, 87, 137, 134, 112, 111]),
                     ('10', [99, 95, 77, 112, 74, 98, 75, 102, 116, 112, 97, 67, 76]), ('9', [77, 105, 72, 75, 95, 95, 71, 80, 85, 115, 99, 65]),
                     ('10-down', [69, 68, 85, 103, 95, 110, 86, 89, 70, 84, 103, 66, 81])]:
        J.append((f'cd-mk-last-{nm}', h_cd, dict(idx=d90(len(base) + 3), fit=False, sym='last', base=base)))
    if th:
        J.append(('ols-5', h_ols, dict(idx=lambda: pd.date_range('2012-01-01', periods=5, freq='QS'))))
        J.append(('cd-mk-6', h_cd, dict(idx=d90(12), fit=False, sym=[0, 1, 9, 10, 11])))
    return J
