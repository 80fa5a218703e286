"""P12 logic-based clipping filter"""
from .lib import *
from .p10 import robust

COVERAGE = ('logic_clip_filter (directly and through clip_filter) executed symbolically on power records in which several points '
            'are symbolic and the others fixed; the solver proves the mask equal to an independent statement of the published rule '
            '(flat windows set daily clipping levels; points at those levels are removed), and unchanged under unit changes')
BOUNDS = ('records of 11-14 readings over one or two days, 2-5 of them arbitrary non-negative reals and possibly missing; '
          'hourly, 15-minute and 5-minute data, fixed and tracking, explicit windows and cutoffs')
ASSUMPTIONS = ['readings other than the symbolic ones are fixed per job']


def std(ctx, xs):
    n = len(xs)
    if n < 2:
        return NAN
    m = ctx.sum(xs) / n
    return ctx.sqrt(ctx.sum([(x - m) * (x - m) for x in xs]) / (n - 1))


def rng(ctx, xs):
    a, b = ctx.maxi(xs), ctx.mini(xs)
    return a, b


def reference(ctx, idx, vals, cutoff, mounting, roll):
    """list of 'not clipping' flags (bool or symbolic)"""
    n = len(idx)
    step = pd.Series(idx[1:] - idx[:-1]).mode()[0]
    minutes = step.total_seconds() / 60
    day = [t.normalize() for t in idx]
    days = sorted(set(day))
    v = list(vals)
    # frozen days do not take part
    frozen = {}
    for d in days:
        xs = [x for x, e in zip(v, day) if e == d and not missing(x)]
        s = std(ctx, xs)
        frozen[d] = False
        if xs and not missing(s):
            m = ctx.sum(xs) / len(xs)
            # std/mean < 0.1 with mean >= 0
            frozen[d] = bool(ctx.And(m > 0, s < m * (Fraction(1, 10) if ctx.symbolic else 0.1)))
    clean = [NAN if frozen[d] else x for x, d in zip(v, day)]
    # regular grid for the window search
    if minutes >= 10:
        gi = pd.date_range(idx[0], idx[-1], freq=step)
        g = ref_interp(ctx, ns(idx), clean, ns(gi), None)
    else:
        b = [t.floor('15min') for t in idx]
        gi = pd.date_range(b[0], b[-1], freq='15min')
        g = []
        for u in gi:
            xs = [x for x, e in zip(clean, b) if e == u and not missing(x)]
            g.append(ctx.median(xs) if xs else NAN)
        minutes = 15
    if roll is None:
        roll = 5 if mounting == 'single_axis_tracking' and minutes < 30 else 3
    gd = [t.normalize() for t in gi]
    for d in sorted(set(gd)):
        xs = [x for x, e in zip(g, gd) if e == d and not missing(x)]
        if not xs:
            continue
        top = ctx.maxi(xs)
        lim = top * (Fraction(1, 10) if ctx.symbolic else 0.1)
        g = [NAN if e == d and not missing(x) and bool(x < lim) else x for x, e in zip(g, gd)]
    flat = []
    for i in range(len(g)):
        w = g[i:i + roll]
        if len(w) < roll or any(missing(x) for x in w):
            flat.append(False)
            continue
        hi, lo = rng(ctx, w)
        # (hi-lo)/((hi+lo)/2)*100 < cutoff, hi+lo >= 0
        flat.append(bool(ctx.And(hi + lo > 0, (hi - lo) * 200 < (hi + lo) * cutoff)))
    clipg = [i >= roll - 1 and any(flat[i - roll + 1:i + 1]) for i in range(len(g))]
    look = dict(zip(gi, clipg))
    clip = []
    for t in idx:
        prev = [u for u in gi if u <= t]
        clip.append(look[prev[-1]])
    lo_, hi_ = {}, {}
    for d in days:
        xs = [x for x, e, c in zip(v, day, clip) if e == d and c and not missing(x)]
        if minutes == 15 and step < pd.Timedelta('10min'):
            allx = [x if c else NAN for x, e, c in zip(v, day, clip) if e == d]
            hi_[d] = robust(ctx, allx, 0.99, 'quantile')
            lo_[d] = robust(ctx, allx, 0.075, 'quantile')
        else:
            hi_[d] = ctx.maxi(xs) if xs else NAN
            lo_[d] = ctx.mini(xs) if xs else NAN
    fin = []
    p = (lambda a: Fraction(str(a))) if ctx.symbolic else (lambda a: a)
    for x, d in zip(v, day):
        a, b = lo_[d], hi_[d]
        if missing(x) or missing(a) or missing(b):
            fin.append(False)
            continue
        if bool(b == 0):
            fin.append(False)
            continue
        near = bool((b - a) <= b * p(0.025))
        if near:
            fin.append(ctx.And(a <= x, x <= b))
        else:
            fin.append(ctx.Or(ctx.And(x <= b * p(1.0025), x >= b * p(0.9975)), ctx.And(x <= a * p(1.0025), x >= a * p(0.9975))))
    fb = [bool(f) for f in fin]
    clipped = [x for x, f in zip(v, fb) if f]
    q = robust(ctx, clean, 0.99, 'quantile')
    if clipped and not missing(q):
        qc = robust(ctx, clipped, 0.99, 'quantile')
        if not missing(qc) and 100 * len(clipped) > 4 * len(v):
            d = q - qc
            if bool(abs(d) * 2 < (q + qc) * p(0.005)):
                fb = [f or (not missing(x) and bool(x >= q)) for f, x in zip(fb, clean)]
    return [not f for f in fb]


def h(ctx):
    import rdtools
    c = ctx.cfg
    idx = c['idx']()
    if c.get('tz'):
        idx = idx.tz_localize(c['tz'])
    base = c['base']
    sym = {}
    for i in c['sym']:
        lo, hi = c.get('range', {}).get(i, (0, 1000))
        sym[i] = ctx.real(f'p{i}', lo, hi, nan=i in c.get('nan', []))
    vals = [sym.get(i, (ctx.frac(Fraction(str(b))) if ctx.symbolic else float(b)) if b is not None else NAN) for i, b in enumerate(base)]
    s = ctx.mk_series(vals, idx, c.get('name', 'ac'))
    s0 = freeze(s)
    kw = {}
    if 'cutoff' in c:
        kw['rolling_range_max_cutoff'] = c['cutoff']
    if 'mount' in c:
        kw['mounting_type'] = c['mount']
    if 'roll' in c:
        kw['roll_periods'] = c['roll']
    f = rdtools.clip_filter if c.get('wrapper') else rdtools.logic_clip_filter
    m = f(s, **kw)
    cut = Fraction(str(c.get('cutoff', 0.2))) if ctx.symbolic else c.get('cutoff', 0.2)
    want = reference(ctx, idx, list(s0), cut, c.get('mount', 'fixed'), c.get('roll'))
    ctx.eq_mask(m, want, 'not clipping', idx)
    ctx.unchanged(s0, s, 'input')


def h_scale(ctx):
    """change of power unit leaves the selection unchanged"""
    import rdtools
    c = ctx.cfg
    idx = c['idx']()
    vals = list(c['base'])
    for i in c['sym']:
        vals[i] = ctx.real(f'p{i}', 0, 1000)
    s = ctx.mk_series(vals, idx, 'ac')
    k = c['k']
    m1 = rdtools.logic_clip_filter(s)
    m2 = rdtools.logic_clip_filter(ctx.mk_series([x * (ctx.frac(k) if ctx.symbolic else k) for x in vals], idx, 'ac'))
    ctx.eq_mask(m2, list(m1), 'unit change', idx)


def h_bad(ctx):
    import rdtools
    idx = pd.date_range('2020-06-01', periods=12, freq='h')
    s = ctx.series('s', idx)
    f = rdtools.logic_clip_filter
    ctx.expect_raises(ValueError, lambda: f(s, mounting_type='roof'), 'mounting type')
    ctx.expect_raises(Exception, lambda: f(s.iloc[:10]), 'ten readings')
    ctx.expect_raises(TypeError, lambda: f(ctx.mk_series(list(s), pd.RangeIndex(12))), 'no time index')
    ctx.expect_raises(IndexError, lambda: f(s.iloc[::-1]), 'unsorted')


def one_day(freq, n, start='2020-06-01 08:00'):
    return lambda: pd.date_range(start, periods=n, freq=freq)


def two_days(freq, n, start='2020-06-01 09:00'):
    return lambda: pd.date_range(start, periods=n, freq=freq).append(pd.date_range(pd.Timestamp(start) + pd.Timedelta('1D'), periods=n, freq=freq))


D1 = [10, 30, 60, 100, 100, 100, 100, 100, 70, 40, 20, 5]
D2 = [10, 30, 60, 80, 95, 100, 90, 80, 70, 40, 20, 5]
T1 = [20, 60, 100, 100, 100, 30]
T2 = [25, 50, 90, 95, 60, 10]
HF = [5, 20, 30, 40, 60, 80, 100, 100, 100, 100, 99, 100, 100, 60, 40, 20, 10, 3]


def jobs(tier):
    th = tier == 'thorough'
    J = []
    for nm, base in (('clipped', D1), ('clear', D2)):
        J.append((f'hourly-{nm}', h, dict(idx=one_day('h', 12), base=base, sym=[4, 5], range={4: (70, 130), 5: (70, 130)})))
        J.append((f'hourly-{nm}-edge', h, dict(idx=one_day('h', 12), base=base, sym=[0, 11])))
        J.append((f'hourly-{nm}-3', h, dict(idx=one_day('h', 12), base=base, sym=[3, 4, 8], range={3: (50, 130), 4: (50, 130), 8: (50, 130)}, wrapper=True)))
        J.append((f'15min-{nm}', h, dict(idx=one_day('15min', 12), base=base, sym=[3, 7], mount='single_axis_tracking')))
        J.append((f'15min-{nm}-fixed', h, dict(idx=one_day('15min', 12), base=base, sym=[6, 7], tz='US/Mountain')))
        J.append((f'30min-{nm}-track', h, dict(idx=one_day('30min', 12), base=base, sym=[3, 7], mount='single_axis_tracking')))
        J.append((f'hourly-{nm}-roll', h, dict(idx=one_day('h', 12), base=base, sym=[5, 8], roll=2)))
        J.append((f'hourly-{nm}-roll4', h, dict(idx=one_day('h', 12), base=base, sym=[4, 7], roll=4)))
        J.append((f'hourly-{nm}-cut', h, dict(idx=one_day('h', 12), base=base, sym=[4, 6], cutoff=20)))
        J.append((f'hourly-{nm}-nan', h, dict(idx=one_day('h', 12), base=base, sym=[3, 5], nan=[3, 5])))
    J.append(('two-days', h, dict(idx=two_days('h', 6), base=T1 + T2, sym=[3, 8], tz='Etc/GMT+5')))
    J.append(('two-days-b', h, dict(idx=two_days('h', 6), base=T1 + T2, sym=[8, 9], nan=[9])))
    J.append(('two-days-frozen', h, dict(idx=two_days('h', 6), base=[50, 50, 50, 50, 50, 50] + T1, sym=[2, 9])))
    J.append(('two-days-c', h, dict(idx=two_days('h', 6), base=T1 + T1, sym=[1, 10])))
    J.append(('5min', h, dict(idx=one_day('5min', 18), base=HF, sym=[8], range={8: (70, 130)})))
    J.append(('5min-b', h, dict(idx=one_day('5min', 18), base=HF, sym=[10, 13], range={10: (70, 130), 13: (0, 130)})))
    J.append(('1min', h, dict(idx=one_day('1min', 18), base=HF, sym=[9])))
    for k in [1000, Fraction(1, 1000)] if not th else [1000, Fraction(1, 1000), 3, Fraction(1, 7)]:
        J.append((f'scale-{k}', h_scale, dict(idx=one_day('h', 12), base=D1, sym=[4], k=k)))
        J.append((f'scale2-{k}', h_scale, dict(idx=two_days('h', 6), base=T1 + T2, sym=[8], k=k)))
    J.append(('bad', h_bad, {}))
    if th:
        J.append(('hourly-4', h, dict(idx=one_day('h', 12), base=D1, sym=[3, 4, 5, 8], range={i: (50, 130) for i in (3, 4, 5, 8)})))
        J.append(('two-days-3', h, dict(idx=two_days('h', 6), base=T1 + T2, sym=[3, 4, 8])))
        J.append(('5min-3', h, dict(idx=one_day('5min', 18), base=HF, sym=[9, 10, 13], range={i: (70, 130) for i in (9, 10, 13)})))
    return J
