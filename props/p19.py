"""P19 availability: production lost to subsystem (inverter) outages"""
from .lib import *

COVERAGE = ('AvailabilityAnalysis subsystem comparison executed symbolically on symbolic subsystem and meter power; solver proves the '
            'online mask and the lost power at every stamp equal to an independent statement of the power-comparison method')
BOUNDS = '2-4 subsystems, 2-4 stamps, all non-negative (and some negative or missing) powers, scalar, per-subsystem and inferred thresholds'
ASSUMPTIONS = ['powers bounded by 10 (units free)']


def exact(ctx, v):
    return ctx.frac(Fraction(str(v))) if ctx.symbolic else float(v)


def h(ctx):
    from rdtools.availability import AvailabilityAnalysis
    c = ctx.cfg
    n, cols = c['n'], c['cols']
    idx = pd.date_range('2020-06-01 10:00', periods=n, freq='h')
    rows = c.get('rows', {})
    P = {}
    for k in cols:
        P[k] = []
        for i in range(n):
            v = rows.get((k, i), 's')
            P[k].append(ctx.real(f'{k}{i}', c.get('lo', 0), 10, nan=c.get('nan') == (k, i)) if v == 's' else exact(ctx, v))
    sub = pd.DataFrame({k: ctx.mk_series(P[k], idx) for k in cols})
    M = [ctx.real(f'm{i}', c.get('mlo', 0), 30, nan=i in c.get('mnan', ())) if i in c.get('msym', range(n)) else exact(ctx, c['m']) for i in range(n)]
    meter = ctx.mk_series(M, idx)
    cum = pd.Series(np.arange(n) * 1.0, idx)
    exp = pd.Series(5.0, idx)
    thr = c.get('thr')
    if isinstance(thr, dict):
        thr_arg = pd.Series(thr)
    else:
        thr_arg = thr
    size = c.get('size')
    lim = c.get('limit')
    lim_arg = lim
    if lim == 'series':
        lim = [exact(ctx, 4 + i) for i in range(n)]
        lim_arg = ctx.mk_series(lim, idx)
    elif lim is not None:
        lim = [exact(ctx, lim)] * n
    keep = freeze(sub), freeze(meter)
    aa = AvailabilityAnalysis(meter, sub, cum, exp)
    kw = dict(low_threshold=thr_arg, relative_sizes=size, power_system_limit=lim_arg)
    f = getattr(aa, '_calc_loss_subsystem', None)
    (f or aa.run)(**kw)
    # ---- independent statement
    p = {k: [0 if missing(x) else x for x in P[k]] for k in cols}
    if thr is None:
        T = {k: ctx.quantile(p[k], Fraction(99, 100) if ctx.symbolic else 0.99) * ctx.frac(1, 1000) for k in cols}
    elif isinstance(thr, dict):
        T = {k: exact(ctx, thr[k]) for k in cols}
    else:
        T = {k: exact(ctx, thr) for k in cols}
    on = {k: [bool(x > T[k]) for x in p[k]] for k in cols}
    for k in cols:
        ctx.eq_mask(aa.reporting_mask[k], on[k], f'subsystem {k} online', idx)
    if size is None:
        rel = {}
        for k in cols:
            r = []
            for i in range(n):
                if on[k][i]:
                    act = [p[j][i] for j in cols if on[j][i]]
                    r.append(ctx.div(p[k][i] * len(act), ctx.sum(act)))
            rel[k] = ctx.median(r) if r else NAN
    else:
        rel = {k: exact(ctx, size[k]) for k in cols}
    if any(missing(v) for v in rel.values()):
        return
    tot = ctx.sum(list(rel.values()))
    frac = {k: ctx.div(rel[k], tot) for k in cols}
    got = list(aa.loss_subsystem)
    ctx.check(list(aa.loss_subsystem.index) == list(idx), 'loss on the input stamps')
    for i in range(n):
        act = [k for k in cols if on[k][i]]
        off = [k for k in cols if not on[k][i]]
        want = 0
        m = M[i]
        if act and off and not missing(m):
            m = ctx.maxi([m, 0])
            full = ctx.div(ctx.sum([ctx.div(p[k][i], rel[k]) for k in act]) * len(cols), len(act))
            low = ctx.mini([frac[k] for k in off])
            f_on = ctx.div(m, full)
            down = ctx.And((1 - f_on) * 4 > low * 3)
            lowest = ctx.sum([frac[k] for k in act])
            fo = ctx.mini([ctx.maxi([f_on, lowest]), 1])
            want = ctx.ite(down, ctx.div((1 - fo) * m, fo), 0)
        if lim is not None and not missing(m):
            m0 = ctx.maxi([m, 0])
            cap = ctx.maxi([lim[i] - m0, 0])
            want = ctx.mini([want, cap])
        ctx.eq(got[i], want, f'loss {i}')
        ctx.le(0, got[i], f'loss {i} not negative')
    ctx.unchanged(keep[0], sub, 'subsystem power')
    ctx.unchanged(keep[1], meter, 'meter power')


def jobs(tier):
    th = tier == 'thorough'
    J = [('two', h, dict(n=2, cols='ab', thr=0.5, size={'a': 1.0, 'b': 1.0})),
         ('two-sizes', h, dict(n=2, cols='ab', thr=0.5, size={'a': 0.5, 'b': 1.5}, msym=[0, 1])),
         ('three', h, dict(n=1, cols='abc', thr=0.25, size={'a': 0.75, 'b': 1.0, 'c': 1.25})),
         ('four', h, dict(n=2, cols='abcd', thr=0.25, size={'a': 0.75, 'b': 1.0, 'c': 1.25, 'd': 1.0}, rows={('d', 0): 0, ('c', 1): 0, ('a', 1): 3, ('d', 1): 6})),
         ('thr-series', h, dict(n=2, cols='ab', thr={'a': 0.25, 'b': 1.0}, size={'a': 0.5, 'b': 1.5})),
         ('thr-infer', h, dict(n=3, cols='ab', size={'a': 1.0, 'b': 1.0}, rows={('a', 0): 4, ('b', 0): 3, ('b', 2): 0})),
         ('sizes-infer', h, dict(n=3, cols='ab', thr=0.5, rows={('a', 0): 4, ('b', 0): 4, ('a', 1): 2, ('b', 1): 6})),
         ('sizes-infer-2', h, dict(n=3, cols='ab', thr=0.5, rows={('a', 0): 4, ('b', 1): 6, ('b', 2): 0, ('a', 2): 3, ('b', 0): 4, ('a', 1): 's'}, msym=[1], m=3)),
         ('limit', h, dict(n=2, cols='ab', thr=0.5, size={'a': 1.0, 'b': 1.0}, limit=6)),
         ('limit-series', h, dict(n=2, cols='ab', thr=0.5, size={'a': 0.75, 'b': 1.25}, limit='series')),
         ('missing', h, dict(n=2, cols='ab', thr=0.5, size={'a': 1.0, 'b': 1.0}, nan=('a', 1), mnan=[0])),
         ('negative', h, dict(n=1, cols='ab', thr=0.5, size={'a': 1.0, 'b': 1.0}, lo=-1, mlo=-2)),
         ('thr-zero', h, dict(n=1, cols='ab', thr=0, size={'a': 1.0, 'b': 1.0}, lo=-1))]
    if th:
        J += [('three-2', h, dict(n=2, cols='abc', thr=0.25, size={'a': 0.75, 'b': 1.0, 'c': 1.25})),
              ('sizes-infer-all', h, dict(n=2, cols='ab', thr=0.5))]
    return J
