"""P07 rescaling of modelled irradiance"""
from .lib import *

COVERAGE = ('irradiance_rescale executed symbolically; the numerical optimiser is replaced by an arbitrary symbolic answer, '
            'the objective it is handed is evaluated at a symbolic factor and compared by the solver with the RMSE over the '
            'clear-sky selection, and the iteration/termination logic runs on the symbolic factors')
BOUNDS = 'up to 4 samples, up to 4 iterations, all real irradiances (some missing), both methods'
ASSUMPTIONS = ['the optimiser (scipy minimize) may return any factor in (0, 10]; its optimality is not claimed',
               'modelled irradiance positive, measured non-negative']


def sel(ctx, g, s, k, lowlim):
    c = ctx.div(g, k * s)
    conds = [ctx.frac(4, 5) <= c, c <= ctx.frac(6, 5)]
    if lowlim:
        conds.append(g > 200)
    return ctx.And(*conds)


def h(ctx):
    from rdtools.normalization import irradiance_rescale, ConvergenceError
    c = ctx.cfg
    n = c['n']
    idx = pd.date_range('2020-06-01 08:00', periods=n, freq='h', tz=c.get('tz'))
    g = ctx.series('g', idx, lo=0, hi=1500, nan=c.get('gnan', False))
    s = ctx.series('s', idx, lo=1, hi=1500, nan=c.get('snan', False))
    g0, s0 = freeze(g), freeze(s)
    if not any(not missing(x) for x in g) or not any(not missing(x) for x in s):
        return
    calls = []
    it = c['method'] == 'iterative'

    def stub(fun, x0, args=(), method=None, **k):
        i = len(calls)
        x = ctx.fresh(f'x{i}', 0, 10, lo_open=True)
        if not isinstance(args, tuple):
            args = (args,)
        guess = x0[0] if hasattr(x0, '__len__') else x0
        prev = guess if it else x
        if i == 0:
            p = [ctx.quantile([v for v in z if not missing(v)], Fraction(9, 10) if ctx.symbolic else 0.9) for z in (g0, s0)]
            ctx.eq(guess, ctx.div(*p), 'first guess is the ratio of the 90th percentiles')
        else:
            ctx.eq(guess, calls[-1], 'optimisation starts from the previous factor')
        if c.get('objective', True):
            got = fun(x, *args)
            pts = [(a, b) for a, b in zip(g0, s0) if not missing(a) and not missing(b)]
            use = [bool(sel(ctx, a, b, prev, it)) for a, b in pts]
            sq = [(x * b - a) * (x * b - a) for (a, b), u in zip(pts, use) if u]
            if not sq:
                ctx.check(ctx.missing(got), 'no clear points: objective undefined')
            else:
                ctx.eq(got * got, ctx.sum(sq) / len(sq), 'objective is the RMSE over the clear-sky selection')
                ctx.check(got >= 0, 'objective is a root')
        calls.append(x)
        return {'x': np.array([x], dtype=object) if ctx.symbolic else np.array([x])}
    kw = dict(method=c['method']) if not (c['method'] == 'iterative' and c.get('default')) else {}
    if 'maxit' in c:
        kw['max_iterations'] = c['maxit']
    th = c.get('threshold')
    if th is not None:
        kw['convergence_threshold'] = th
    with patched(scipy__optimize__minimize=stub):
        raised, out = ctx.raises(ConvergenceError, irradiance_rescale, g, s, **kw)
    if it:
        first = ctx.div(*[ctx.quantile([v for v in z if not missing(v)], Fraction(9, 10) if ctx.symbolic else 0.9)
                          for z in (g0, s0)])
        seq = [ctx.frac(1) if ctx.symbolic else 1.0, first] + calls
        t = th if th is not None else 1e-6
        for k in range(1, len(seq) - 1):
            ctx.check(abs(seq[k] - seq[k - 1]) > t, f'iteration {k} ran although converged')
        last = abs(seq[-1] - seq[-2])
        if raised:
            ctx.check(len(calls) == c['maxit'], 'gives up after max_iterations')
            ctx.check(last > t, 'error only when not converged')
        else:
            ctx.check(last <= t, 'returns only when converged')
    else:
        seq = calls
        ctx.check(not raised and len(calls) == 1, 'one optimisation')
    if not raised:
        ctx.eq_series(out, [x if missing(x) else x * seq[-1] for x in s0], 'result is one factor times the model', idx)
    ctx.unchanged(g0, g, 'measured')
    ctx.unchanged(s0, s, 'modelled')


def h_bad(ctx):
    from rdtools.normalization import irradiance_rescale
    idx = pd.date_range('2020', periods=3, freq='h')
    g = ctx.series('g', idx, lo=0)
    ctx.expect_raises(ValueError, lambda: irradiance_rescale(g, g, method='foo'), 'unknown method')


def jobs(tier):
    J = []
    for m in ['iterative', 'single_opt']:
        J.append((f'{m}-objective', h, dict(n=2, method=m, maxit=1, threshold=0.01)))
        J.append((f'{m}-nan', h, dict(n=2, method=m, maxit=1, threshold=0.01, gnan=[0], snan=[1])))
        J.append((f'{m}-one', h, dict(n=1, method=m, maxit=2, threshold=0.01)))
    for k in [1, 2, 3] + ([4, 5] if tier == 'thorough' else []):
        J.append((f'iterate-{k}', h, dict(n=1, method='iterative', maxit=k, threshold=0.001, objective=False)))
        J.append((f'iterate-default-{k}', h, dict(n=1, method='iterative', default=True, maxit=k, objective=False)))
    J.append(('iterate-n4', h, dict(n=4, method='iterative', maxit=2, threshold=0.05, objective=False)))
    J.append(('bad', h_bad, {}))
    return J
