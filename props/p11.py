"""P11 outlier filters applied after aggregation (Hampel, two-way window, directional Tukey)"""
from .lib import *

COVERAGE = ('hampel_filter, two_way_window_filter and directional_tukey_filter executed symbolically on symbolic daily values; '
            'rolling medians and quartiles are built by the solver terms of sorting networks and every mask entry is proved '
            'equal to an independent definition; scale/shift invariance proved on the same terms')
BOUNDS = '5-6 points (thorough 7), windows of 3-14 days and integer windows, gaps and missing points, symbolic thresholds'
ASSUMPTIONS = ['arbitrary real values; time stamps enumerated']


def day_index(gaps):
    return stamps('2020-03-01', gaps, '1D')


def base(ctx, c):
    """fixed readings (multiples of 1/128, None where arbitrary, 'x' where missing)"""
    if 'base' not in c:
        return None
    return [None if v is None else NAN if v == 'x' else ctx.frac(v, 128) for v in c['base']]


def win_centered(t, i, span):
    """time window of length span centred on i: (t-span/2, t+span/2]"""
    half = span // 2
    return [j for j in range(len(t)) if t[i] - half < t[j] <= t[i] + half]


def win_back(t, i, span):
    return [j for j in range(len(t)) if t[i] - span <= t[j] <= t[i]]


def win_fwd(t, i, span):
    return [j for j in range(len(t)) if t[i] <= t[j] <= t[i] + span]


def med(ctx, vals, minp):
    g = [v for v in vals if not missing(v)]
    return NAN if len(g) < max(1, minp) else ctx.median(g)


def sub(a, b):
    return NAN if missing(a) or missing(b) else a - b


def h_hampel(ctx):
    import rdtools
    c = ctx.cfg
    idx = day_index(c['gaps'])
    n = len(idx)
    s = ctx.series('s', idx, nan=c.get('nan', False), values=base(ctx, c))
    s0 = freeze(s)
    kw = {}
    if 'k' in c:
        kw['k'] = c['k']
    t0 = 3
    if c.get('t0') == 'sym':
        t0 = ctx.real('t0', 0, 10)
        kw['t0'] = t0
    m = rdtools.filtering.hampel_filter(s, **kw)
    k = c.get('k', '14d')
    t = ns(idx)
    if isinstance(k, int):
        lo, hi = (k - 1) // 2 + (1 - k % 2), (k - 1) // 2
        W = [[j for j in range(n) if i - lo <= j <= i + hi] for i in range(n)]
    else:
        span = int(pd.Timedelta(k).value)
        W = [win_centered(t, i, span) for i in range(n)]
    v = list(s0)
    M = [med(ctx, [v[j] for j in W[i]], 1) for i in range(n)]
    D = [sub(M[i], v[i]) for i in range(n)]
    D = [d if missing(d) else abs(d) for d in D]
    A = [med(ctx, [D[j] for j in W[i]], 1) for i in range(n)]
    L = Fraction(14826, 10000) if ctx.symbolic else 1.4826
    want = [False if missing(D[i]) or missing(A[i]) else D[i] <= t0 * L * A[i] for i in range(n)]
    ctx.eq_mask(m, want, 'hampel', idx)
    ctx.unchanged(s0, s, 'input')
    if c.get('affine'):
        a = ctx.real('a', 0, 100, lo_open=True)
        b = ctx.real('b', -100, 100)
        m2 = rdtools.filtering.hampel_filter(s * a + b, **kw)
        ctx.eq_mask(m2, list(m), 'affine invariance')


def medians(ctx, v, t, span, minp=5):
    n = len(v)
    if span[0] == 'int':
        k = span[1]
        B = [[j for j in range(n) if i - k + 1 <= j <= i] for i in range(n)]
        F = [[j for j in range(n) if i <= j <= i + k - 1] for i in range(n)]
    else:
        B = [win_back(t, i, span[1]) for i in range(n)]
        F = [win_fwd(t, i, span[1]) for i in range(n)]
    return ([med(ctx, [v[j] for j in B[i]], minp) for i in range(n)],
            [med(ctx, [v[j] for j in F[i]], minp) for i in range(n)])


def h_two(ctx):
    import rdtools
    c = ctx.cfg
    idx = day_index(c['gaps'])
    n = len(idx)
    s = ctx.series('s', idx, lo=0, lo_open=True, nan=c.get('nan', False), values=base(ctx, c))
    s0 = freeze(s)
    kw = {}
    span = 7 * 24 * H
    if 'roll' in c:
        kw['roll_period'] = pd.Timedelta(c['roll'])
        span = int(pd.Timedelta(c['roll']).value)
    th = Fraction(3, 100) if ctx.symbolic else 0.03
    if c.get('th') == 'sym':
        th = ctx.real('th', 0, 1)
        kw['outlier_threshold'] = th
    m = rdtools.filtering.two_way_window_filter(s, **kw)
    v = list(s0)
    good = [x for x in v if not missing(x)]
    q = ctx.quantile(good, Fraction(99, 100) if ctx.symbolic else 0.99)
    B, F = medians(ctx, v, ns(idx), ('ns', span))
    want = []
    for i in range(n):
        b, f = sub(v[i], B[i]), sub(v[i], F[i])
        # no median on a side: nothing to object to on that side
        if missing(v[i]):
            want.append(None)
            continue
        bb = True if missing(b) else abs(b) < th * q
        ff = True if missing(f) else abs(f) < th * q
        want.append(ctx.Or(bb, ff) if not (missing(b) or missing(f)) else ctx.And(th * q > 0) if True else None)
    ctx.check(list(m.index) == list(idx), 'index')
    for i, (a, b) in enumerate(zip(m, want)):
        if b is not None:
            ctx.iff(a, b, f'two-way[{i}]')
    ctx.unchanged(s0, s, 'input')
    if c.get('scale'):
        k = ctx.real('k', 0, 100, lo_open=True)
        m2 = rdtools.filtering.two_way_window_filter(s * k, **kw)
        ctx.eq_mask(m2, list(m), 'scale invariance')


def h_tukey(ctx):
    import rdtools
    c = ctx.cfg
    idx = day_index(c['gaps'])
    n = len(idx)
    s = ctx.series('s', idx, nan=c.get('nan', False), values=base(ctx, c))
    s0 = freeze(s)
    kw = {}
    span = 7 * 24 * H
    if 'roll' in c:
        kw['roll_period'] = pd.Timedelta(c['roll'])
        span = int(pd.Timedelta(c['roll']).value)
    k = Fraction(3, 2) if ctx.symbolic else 1.5
    if c.get('k') == 'sym':
        k = ctx.real('k', 0, 10)
        kw['k'] = k
    m = rdtools.filtering.directional_tukey_filter(s, **kw)
    v = list(s0)
    B, F = medians(ctx, v, ns(idx), ('ns', span))
    parts = []
    for M in (B, F):
        d = [sub(v[i], M[i]) for i in range(n)]
        g = [x for x in d if not missing(x)]
        if not g:
            parts.append([False] * n)
            continue
        q1, q3 = (ctx.quantile(g, Fraction(1, 4) if ctx.symbolic else 0.25), ctx.quantile(g, Fraction(3, 4) if ctx.symbolic else 0.75))
        parts.append([False if missing(x) else ctx.And(x > q1 - k * (q3 - q1), x < q3 + k * (q3 - q1)) for x in d])
    ctx.eq_mask(m, [ctx.Or(a, b) for a, b in zip(*parts)], 'tukey', idx)
    ctx.unchanged(s0, s, 'input')
    if c.get('affine'):
        b = ctx.real('b', -100, 100)
        m2 = rdtools.filtering.directional_tukey_filter(s + b, **kw)
        ctx.eq_mask(m2, list(m), 'shift invariance')


def jobs(tier):
    th = tier == 'thorough'
    J = []
    J.append(('hampel-default', h_hampel, dict(gaps=[1, 1, 1] if not th else [1, 1, 1, 1])))
    J.append(('hampel-gap', h_hampel, dict(gaps=[1, 8, 1], nan=[1])))
    J.append(('hampel-3d', h_hampel, dict(gaps=[1, 1, 1, 1], k='3d')))
    J.append(('hampel-4d', h_hampel, dict(gaps=[1, 1, 2], k='4d')))
    J.append(('hampel-int3', h_hampel, dict(gaps=[1, 1, 1, 1], k=3)))
    J.append(('hampel-t0', h_hampel, dict(gaps=[1, 1, 1], t0='sym', k='3d')))
    J.append(('hampel-nan', h_hampel, dict(gaps=[1, 1, 1], k='3d', nan=True)))
    J.append(('hampel-affine', h_hampel, dict(gaps=[1, 1], k='3d', affine=True)))
    J.append(('two-default', h_two, dict(gaps=[1, 1, 1, 1, 1])))
    J.append(('two-gap', h_two, dict(gaps=[1, 1, 1, 1, 6])))
    J.append(('two-short', h_two, dict(gaps=[1, 1, 1])))
    J.append(('two-roll', h_two, dict(gaps=[1, 1, 1, 1, 1], roll='4D', th='sym')))
    J.append(('two-nan', h_two, dict(gaps=[1, 1, 1, 1, 1], nan=[1, 5])))
    J.append(('two-scale', h_two, dict(gaps=[1, 1, 1, 1], scale=True)))
    J.append(('tukey-default', h_tukey, dict(gaps=[1, 1, 1, 1])))
    J.append(('tukey-6', h_tukey, dict(gaps=[1, 1, 1, 1, 1])))
    J.append(('tukey-k', h_tukey, dict(gaps=[1, 1, 1, 1, 1], k='sym')))
    J.append(('tukey-roll', h_tukey, dict(gaps=[1, 1, 1, 1, 1], roll='4D')))
    J.append(('tukey-nan', h_tukey, dict(gaps=[1, 1, 1, 1, 1], nan=[2])))
    J.append(('tukey-shift', h_tukey, dict(gaps=[1, 1, 1, 1], affine=True)))
    J.append(('tukey-short', h_tukey, dict(gaps=[1, 1, 1])))
    N = None
    J.append(('two-mid', h_two, dict(gaps=[1] * 8, roll='4D', base=[N, 100, 101, 98, N, 103, 99, 104, N])))
    J.append(('two-mid-edge', h_two, dict(gaps=[1] * 9, roll='4D', base=[100, 120, N, 118, N, 103, 121, 99, N, 117])))
    J.append(('two-mid-half', h_two, dict(gaps=[.5, 1, .5, 1, 1, .5, .5, 2, .5, 1], roll='3D', base=[N, 100, 101, 110, 103, N, 109, 99, 104, 98, N])))
    J.append(('two-week', h_two, dict(gaps=[1] * 14, base=[100, 96, 101, 110, 103, N, 109, N, 104, 98, 97, 105, 100, 102, N])))
    J.append(('two-mid-nan', h_two, dict(gaps=[1] * 9, roll='5D', base=[100, N, 101, 'x', 103, N, 109, N, 104, 98], nan=[7])))
    J.append(('two-mid-th', h_two, dict(gaps=[1] * 8, roll='4D', th='sym', base=[98, 100, 101, 98, N, 103, 99, 104, N])))
    J.append(('tukey-mid', h_tukey, dict(gaps=[1] * 9, roll='4D', base=[100, 97, N, 105, 111, N, 99, 104, 96, 101])))
    J.append(('tukey-mid-half', h_tukey, dict(gaps=[.5, 1, .5, 1, 1, .5, .5, 2, .5, 1], roll='3D', base=[98, 100, 101, 110, 103, N, 109, 99, 104, 98, N])))
    J.append(('tukey-week', h_tukey, dict(gaps=[1] * 13, base=[100, 96, 101, 110, 103, N, 109, 95, 104, 98, 97, 105, 100, N])))
    J.append(('tukey-mid-k', h_tukey, dict(gaps=[1] * 9, roll='4D', k='sym', base=[100, 97, 103, 105, 111, N, 99, 104, 96, 101])))
    J.append(('tukey-mid-nan', h_tukey, dict(gaps=[1] * 10, roll='5D', base=[100, 97, 103, 'x', 111, N, 99, 104, N, 101, 106], nan=[8])))
    J.append(('hampel-long', h_hampel, dict(gaps=[1] * 17, base=[N, 100, 96, 101, 110, 103, 92, N, 109, 95, 104, 98, 97, 105, N, 103, 99, 120])))
    J.append(('hampel-week', h_hampel, dict(gaps=[7, 7, 7, .5, 7, 6.5, 7], base=[100, N, 101, 110, 103, N, 109, 98])))
    if th:
        J.append(('two-7', h_two, dict(gaps=[1, 1, 1, 1, 1, 1])))
        J.append(('tukey-7', h_tukey, dict(gaps=[1, 1, 1, 1, 1, 1])))
        J.append(('hampel-5-t0', h_hampel, dict(gaps=[1, 1, 1, 1], t0='sym', k='4d', nan=[0, 3])))
    return J
