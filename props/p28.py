"""P28 combined degradation and soiling: soiling ratio around the Kalman filter"""
from .cods import *

COVERAGE = ('the soiling step of CODSAnalysis executed symbolically with arbitrary answers of the Kalman smoother or an arbitrary record; solver proves which '
            'days are taken for cleanings, that smoothing never runs across one, and that the soiling ratio, its rates, the cleaning flags and the '
            'day counts follow from the smoothed signal and the cleanings')
BOUNDS = 'records of 32-44 days with 0-5 cleanings and missing days; 1-4 arbitrary smoothed values or 1-2 arbitrary readings'
ASSUMPTIONS = ['the Kalman filter and smoother and the Theil-Sen slope of the first fortnight may return any values']


FIXED = 0.0009765625         # scatter taken for records with arbitrary readings, so that the filter's step stays a linear question
DRIFT = 1 / 4096             # daily rate in the state of the filter


def scalar(v):
    while hasattr(v, '__len__'):
        v = v[0]
    return v


def med(ctx, v):
    return ctx.median(v)


def rolling_median(ctx, z, w, fwd=True):
    n = len(z)
    f = list(z)
    for i in (range(1, n) if fwd else range(n - 2, -1, -1)):
        if missing(f[i]):
            f[i] = f[i - 1] if fwd else f[i + 1]
    h = w // 2
    out = []
    for i in range(n):
        win = f[i - h:i + h + 1] if i >= h else []
        out.append(NAN if len(win) < w or any(missing(x) for x in win) else med(ctx, win))
    return out


def fill(v):
    v = list(v)
    for i in range(1, len(v)):
        if missing(v[i]):
            v[i] = v[i - 1]
    for i in range(len(v) - 2, -1, -1):
        if missing(v[i]):
            v[i] = v[i + 1]
    return v


def steps(v):
    return [NAN] + [NAN if missing(a) or missing(b) else b - a for a, b in zip(v, v[1:])]


def argmax(ctx, items):
    """first position of the largest known value"""
    best = None
    for k, x in items:
        if missing(x):
            continue
        if best is None or bool(x > best[1]):
            best = (k, x)
    return best[0]


def detect(ctx, z, fwd=True):
    """days on which the nine-day median rises by more than the quartile fence"""
    rm = rolling_median(ctx, z, 9, fwd)
    d = steps(rm)
    a = [abs(x) for x in d if not missing(x)]
    q3, q1 = quant(ctx, a, 0.75), quant(ctx, a, 0.25)
    lim = q3 + (q3 - q1) * ctx.frac(1, 2)
    return [False if missing(x) else bool(x > lim) for x in d], d


def storms(ctx, z, fwd=True):
    rm = rolling_median(ctx, z, 9, fwd)
    d = steps(rm)
    a = [abs(x) for x in d if not missing(x)]
    q3, q1 = quant(ctx, a, 0.99), quant(ctx, a, 0.01)
    lim = q1 - (q3 - q1) * 5
    return [i for i, x in enumerate(d) if not missing(x) and bool(x < lim)]


def collapse(ctx, flags, metric, f):
    """one cleaning per group of neighbouring candidates: the day of the largest value"""
    n = len(flags)
    cand = {i: bool(flags[i]) for i in range(f, n - f)}
    out = set()
    while True:
        on = [i for i in sorted(cand) if cand[i]]
        if not on:
            break
        a = on[0]
        b = a
        while cand.get(b + 1):
            b += 1
        if b == n - f - 1:
            break
        lo, hi = max(a - f, 0), min(b + f, n - 1)
        day = argmax(ctx, [(i, metric[i]) for i in range(lo, hi + 1)])
        out -= set(range(lo, hi + 1))
        for i in range(lo, hi + 1):
            if i in cand:
                cand[i] = False
        out.add(day)
    return sorted(out)


def forward(ctx, n, z7, events, dust, raw, noise):
    """cleanings after the filter has looked at each of them, and the steps handed to the filter"""
    ev = list(events)
    u = {}
    for i in range(n):
        if not (7 < i < n - 7 and (i in ev or i in dust)):
            continue
        loc = z7[i - 5:i + 6]
        d = [b - a for a, b in zip(loc, loc[1:])]
        j = argmax(ctx, list(enumerate(d)))
        if j == 4 or i not in ev:
            x = loc[8] - raw(i)
            if bool(x * x * 4 > noise):
                u[i] = x
            else:
                u[i] = 0
                if i in ev:
                    ev.remove(i)
        else:
            ev.remove(i)
            day = i + j - 4
            if bool(d[j] > 0) and day not in ev:
                ev = sorted(ev + [day])
            u[i] = 0
    return ev, u


def h(ctx):
    from rdtools.soiling import CODSAnalysis
    import rdtools.soiling as S
    c = ctx.cfg
    if not hasattr(CODSAnalysis, '_Kalman_filter_for_SR') or not hasattr(S, 'KalmanFilter'):
        return
    n = c['n']
    idx = pd.date_range('2020-02-10', periods=n, freq='D', tz=c.get('tz'))
    base = c['z']
    zsym = c.get('zsym', ())
    Z = [NAN if base[i] is None else ctx.real(f'z{i}', 0.5, 1.25) if i in zsym else float(base[i]) for i in range(n)]
    zs = ctx.mk_series(Z, idx, 'zs')
    keep = freeze(zs)
    sm = c.get('smooth', {})
    rt = c.get('rates', {})
    memo = {}

    def real(name, lo, hi):
        if name not in memo:
            memo[name] = ctx.real(name, lo, hi)
        return memo[name]
    ssym, rsym = c.get('ssym', ()), c.get('rsym', ())
    passes = []

    def smoothed(p, i):
        t = sm.get(p, sm.get(0))
        v = t[i] if t is not None else next((base[j] for j in range(i, -1, -1) if base[j] is not None), Fraction(1))
        return real(f's{p}_{i}', 0.5, 1.25) if i in ssym else float(v)

    def rate(p, i):
        return real(f'r{p}_{i}', -0.01, 0.01) if i in rsym else float(rt.get(p, rt.get(0, {})).get(i, Fraction(-1, 1024)))
    off = c.get('off', Fraction(1, 64))
    # state of the filter on day i: a distinct number per day
    state = lambda i: float(next((base[j] for j in range(i, -1, -1) if base[j] is not None), Fraction(1)) - off + Fraction(i + 1, 1 << 20))

    class Stub:
        def __init__(self, *a, **k):
            self.log = dict(u={}, upd=[], seg=[], start=None)
            passes.append(self)
            self.day = -1
            self.x = None

        def predict(self, u=None, *a, **k):
            if self.day < 0:
                self.log['start'] = (np.array(self.x), np.array(self.F), np.array(self.H), self.R)
                if zsym:
                    self.R = FIXED
            self.day += 1
            self.x = np.array([state(self.day), DRIFT], dtype=float)
            if u is not None:
                self.log['u'][self.day] = u

        def update(self, z, *a, **k):
            self.log['upd'].append((self.day, z))

        def rts_smoother(self, Xs, Ps, *a, **k):
            p = len(passes) - 1
            days = []
            for row in range(len(Xs)):
                v = Xs[row, 0]
                days.append(next((i for i in range(n) if bool(v == state(i))), None))
            self.log['seg'].append(days)
            out = Xs.copy()
            for row, i in enumerate(days):
                if i is None:
                    continue
                out[row, 0] = smoothed(p, i)
                out[row, 1] = rate(p, i)
            return out, Ps, None, None

    first = []

    def theil(y, *a, **k):
        first.append(list(y))
        return np.array([0.125, 0.75, 0.0, 1.0])
    kw = dict(c.get('kw', {}))
    events = c.get('events')
    pres = None
    if isinstance(events, list):
        pres = list(events)
    elif events is not None:
        pres = pd.Series([i in events for i in range(n)], index=idx)
    self = CODSAnalysis.__new__(CODSAnalysis)
    self.pm = zs
    with patched(filterpy__kalman__KalmanFilter=Stub, scipy__stats__mstats__theilslopes=theil,
                 filterpy__common__Q_discrete_white_noise=lambda *a, **k: np.zeros((2, 2))):
        df, Ps = self._Kalman_filter_for_SR(zs, prescient_cleaning_events=pres, **kw)
    ctx.unchanged(keep, zs, 'record')
    ctx.check(list(df.index) == list(idx), 'one row per day of the record')

    # ---- expected
    fwd = kw.get('ffill', True)
    z13 = fill(rolling_median(ctx, Z, 13, fwd))
    z7 = fill(rolling_median(ctx, Z, 7, fwd))
    dif = [a - b for a, b in zip(z13, Z) if not missing(b)]
    m = ctx.sum(dif) * ctx.frac(1, len(dif))
    noise = ctx.sum([(x - m) * (x - m) for x in dif]) * ctx.frac(1, len(dif) - 1)
    if isinstance(events, list) or events is not None and len(events) > 4:
        ev = sorted(events)
    else:
        fl, d = detect(ctx, Z)
        ev = collapse(ctx, fl, d, 5)
    dust = storms(ctx, Z, fwd)
    b = list(Z)
    for i in range(n - 2, -1, -1):
        if missing(b[i]):
            b[i] = b[i + 1]
    ctx.eq_series(first[0], b[:14], 'first fortnight')

    def run(k, ev):
        if not ctx.check(len(passes) > k, f'filter pass {k + 1} done'):
            raise StopIteration
        L = passes[k].log
        x, F, Hm, R = L['start']
        ctx.check([float(v) for v in x] == [0.75, 0.125], 'filter starts on the line through the first fortnight')
        ctx.check(F.tolist() == [[1, 1], [0, 1]] and Hm.tolist() == [[1, 0]], 'level and daily rate')
        ctx.eq(R, noise, 'scatter of the readings about their median')
        ev, u = forward(ctx, n, z7, ev, dust, lambda i: state(i - 1) + DRIFT, FIXED if zsym else noise)
        got = {i: scalar(v) for i, v in L['u'].items()}
        for i in sorted(set(u) | set(got)):
            ctx.eq(got.get(i, 0), u.get(i, 0), f'pass {k + 1}: step told to the filter on day {i}')
        ctx.check([i for i, _ in L['upd']] == [i for i in range(n) if not missing(Z[i])], 'filter sees every reading on its day')
        for i, z in L['upd']:
            ctx.eq(z, Z[i], f'reading of day {i}')
        cuts = sorted(set(ev) | set(dust) | {0, n - 1})
        want = [list(range(a, b)) for a, b in zip(cuts, cuts[1:])]
        ctx.check([s for s in L['seg'] if s] == want, f'pass {k + 1}: smoothed between cleanings, {L["seg"]} for {want}')
        return ev
    last = n - 1
    S_ = lambda p: [smoothed(p, i) for i in range(last)] + [state(last)]
    R_ = lambda p: [rate(p, i) for i in range(last)] + [DRIFT]
    k = 0
    ev = run(0, ev)
    for it in range(kw.get('pruning_iterations', 1)):
        old = list(ev)
        s, r = S_(k), R_(k)
        if ev:
            after = [NAN if i + 7 > n else med(ctx, s[i:i + 7]) for i in ev]
            if any(missing(x) for x in after):
                q = NAN
            else:
                q3, q1 = quant(ctx, after, 0.75), quant(ctx, after, 0.25)
                q = q1 - (q3 - q1) * (kw.get('clean_pruning_sensitivity', 0.6))
            ev = [i for i, x in zip(ev, after) if missing(q) or missing(x) or not bool(x < q)]
        big = (kw.get('max_soiling_rates', 0.0005))
        hot = [bool(x > big) for x in r]
        if sum(hot) > 1:
            ev = sorted(ev + collapse(ctx, hot, r, 4))
        again = ev != old
        if again:
            k += 1
            ev = run(k, ev)
        s, r = S_(k), R_(k)
        if kw.get('perfect_cleaning', False):
            if ev:
                ref, sr = None, []
                for i in range(n):
                    if i in ev:
                        ref = s[i]
                    sr.append(NAN if ref is None else ctx.div(s[i], ref))
                q = [ctx.div(a, b) for a, b in zip(sr, s) if not missing(a)]
                q = ctx.sum(q) * ctx.frac(1, len(q))
                for i in range(ev[0] + 1):
                    sr[i] = s[i] * q
            else:
                sr = [1.0] * n
        else:
            sr = list(s)
        if kw.get('renormalize_SR') is not None:
            q = quant(ctx, [sr[i] for i in ev], kw['renormalize_SR'])
            sr = [ctx.div(x, q) for x in sr]
        rates = [NAN] * n
        if kw.get('clip_soiling', True):
            sr = [1.0 if bool(x > 1) else x for x in sr]
            rates = [r[i] if i == 0 or not bool(sr[i] == sr[i - 1]) else 0.0 for i in range(n)]
        if not again:
            break
    ctx.check(len(passes) == k + 1, 'no further filter pass')
    ctx.check([bool(x) for x in df['cleaning_events']] == [i in ev for i in range(n)], f'cleanings {ev}')
    ctx.eq_series(df['raw_pi'], [state(i) for i in range(n)], 'filtered signal', idx)
    ctx.eq_series(df['raw_rates'], [DRIFT] * n, 'filtered rate', idx)
    ctx.eq_series(df['smooth_rates'], r, 'smoothed rate', idx)
    ctx.eq_series(df['smooth_pi'], s, 'smoothed signal', idx)
    ctx.eq_series(df['soiling_ratio'], sr, 'soiling ratio', idx)
    ctx.eq_series(df['soiling_rates'], rates, 'soiling rate', idx)
    since, k0 = [], 0
    for i in range(n):
        if i in ev:
            k0 = i
        since.append(i - k0)
    ctx.check([int(x) for x in df['days_since_ce']] == since, 'days since the last cleaning')


def h_length(ctx):
    """given cleanings must match the record day by day"""
    from rdtools.soiling import CODSAnalysis
    if not hasattr(CODSAnalysis, '_Kalman_filter_for_SR'):
        return
    n = 40
    k = ctx.choice('more', [1, -1, 3])
    idx = pd.date_range('2020-02-10', periods=n, freq='D')
    zs = pd.Series([float(x) for x in saw(n, (12, 24))], idx)
    pres = pd.Series([i % 7 == 3 for i in range(n + k)], index=pd.date_range('2020-02-10', periods=n + k, freq='D'))
    self = CODSAnalysis.__new__(CODSAnalysis)
    self.pm = zs
    ctx.expect_raises(ValueError, lambda: self._Kalman_filter_for_SR(zs, prescient_cleaning_events=pres), 'cleanings of another length refused')


def saw(n, cuts, slope=2, wob=(0, 1, -1, 2, 0, -2, 1)):
    """sawtooth record in 1/1024, clean on the days of cuts"""
    out, k = [], 0
    for i in range(n):
        if i in cuts:
            k = i
        out.append(Fraction(8 * (128 - slope * (i - k)) + wob[i % len(wob)], 1024))
    return out


def jobs(tier):
    th = tier == 'thorough'
    Z = saw(40, (12, 24))
    Z5 = saw(48, (10, 17, 24, 31, 38), slope=4)
    H = list(Z)
    H[0] = H[5] = H[17] = H[18] = H[24] = H[39] = None
    D = [x - Fraction(1, 8) if i >= 19 else x for i, x in enumerate(saw(40, (10, 30)))]
    # second cleaning incomplete
    F = [x - Fraction(3, 16) if 17 <= i < 24 else x for i, x in enumerate(Z5)]
    P, R = dict(perfect_cleaning=True), dict(renormalize_SR=0.5)
    minor = [Fraction(960, 1024)] * 20 + [Fraction(x, 1024) for x in (970, 972, 974, 976, 978, 980, 982)] + [Fraction(977 + i % 3, 1024) for i in range(13)]
    # rises spread over several days, some in a row
    rise, k = [], 960
    for i in range(48):
        k += {10: 6, 11: 9, 12: 12, 17: 20, 18: 5, 24: 30, 29: 25, 35: 4, 41: 8}.get(i, -3)
        rise.append(Fraction(k, 1024))
    G = dict(n=40, z=Z, events=[12, 24])
    hot = {0: {i: Fraction(1, 256) for i in (15, 16, 17)}, 1: {}}
    J = [('given', h, dict(G, ssym=(12, 30))),
         ('given-tz', h, dict(G, ssym=(23, 24), tz='Asia/Tokyo')),
         ('given-perfect', h, dict(G, ssym=(5, 30), kw=P)),
         ('given-perfect-24', h, dict(G, ssym=(24,), kw=dict(P, clip_soiling=False))),
         ('given-perfect-12', h, dict(G, ssym=(12,), kw=P)),
         ('given-norm', h, dict(G, ssym=(12,), kw=R)),
         ('given-norm-90', h, dict(n=48, z=Z5, events=[10, 17, 24, 31, 38], ssym=(17, 38), kw=dict(renormalize_SR=0.9, pruning_iterations=1))),
         ('given-perfect-norm', h, dict(G, ssym=(3,), kw=dict(P, **R))),
         ('given-noclip', h, dict(G, ssym=(12, 30), kw=dict(clip_soiling=False))),
         ('given-rates', h, dict(G, rsym=(15, 16, 30))),
         ('given-hot', h, dict(G, rates=hot, rsym=(16,), ssym=(20,))),
         ('given-hot-two', h, dict(G, rates={0: {i: Fraction(1, 256) for i in (15, 16, 17, 30, 31)}, 1: {}}, rsym=(15, 30), kw=dict(pruning_iterations=2))),
         ('given-flat', h, dict(G, smooth={0: [Fraction(1)] * 40}, ssym=(20, 21))),
         ('given-none', h, dict(G, events=[], ssym=(20,), kw=P)),
         ('given-none-imperfect', h, dict(G, events=[], ssym=(20, 21))),
         ('given-misplaced', h, dict(G, events=[10, 26, 35], ssym=(10,))),
         ('given-five', h, dict(n=48, z=Z5, events=(10, 17, 24, 31, 38), ssym=(20,))),
         ('given-five-off', h, dict(n=48, z=Z5, events=(10, 17, 23, 33, 38), ssym=(24,), kw=P)),
         ('given-few', h, dict(n=48, z=Z5, events=(10, 17, 23), ssym=(24,))),
         ('given-prune', h, dict(n=48, z=F, events=[10, 17, 24, 31, 38], ssym=(19, 20))),
         ('given-prune-strict', h, dict(n=48, z=F, events=[10, 17, 24, 31, 38], ssym=(19, 33), kw=dict(clean_pruning_sensitivity=0.1, perfect_cleaning=True))),
         ('given-reading', h, dict(G, zsym=(15,))),
         ('given-hole', h, dict(G, z=H, ssym=(24, 25))),
         ('given-hole-back', h, dict(G, z=H, ssym=(24, 25), kw=dict(ffill=False))),
         ('dust', h, dict(n=40, z=D, events=[10, 30], ssym=(19, 25))),
         ('dust-reading', h, dict(n=40, z=D, events=[10, 30], zsym=(19,))),
         ('given-ends', h, dict(n=40, z=saw(40, (7, 33)), events=[7, 33], ssym=(20,))),
         ('given-ends-in', h, dict(n=40, z=saw(40, (8, 32)), events=[8, 32], ssym=(20,))),
         ('given-ends-back', h, dict(n=40, z=saw(40, (8, 32)), events=[8, 32], ssym=(20,), kw=dict(ffill=False))),
         ('given-four', h, dict(n=48, z=Z5, events=(10, 17, 24, 33), ssym=(20,))),
         ('found-near', h, dict(n=48, z=saw(48, (12, 18, 25, 36), slope=6), zsym=(18,))),
         ('found-ends', h, dict(n=40, z=saw(40, (5, 20, 33), slope=4), zsym=(22,))),
         ('found-rise', h, dict(n=48, z=rise, zsym=(20,))),
         ('dust-steady', h, dict(n=40, z=saw(40, (), slope=1, wob=(0,)), events=[20], ssym=(25,))),
         ('given-minor', h, dict(n=40, z=minor, events=[20], zsym=(23,), off=0)),
         ('found', h, dict(n=40, z=Z, zsym=(20,))),
         ('found-edge', h, dict(n=40, z=Z, zsym=(12,))),
         ('found-hole', h, dict(n=40, z=H, zsym=(26,))),
         ('found-five', h, dict(n=48, z=Z5, zsym=(17,), kw=P)),
         ('found-slow', h, dict(n=40, z=saw(40, (20,), slope=1, wob=(0,)), zsym=(19,))),
         ('bad-length', h_length, {}),
         ]
    if th:
        J += [(f'found-{i}', h, dict(n=40, z=Z, zsym=(i,), kw=P if i % 2 else {})) for i in range(4, 37)]
        J += [(f'found-two-{i}', h, dict(n=40, z=Z, zsym=(i, i + 2))) for i in (11, 19, 25)]
        J += [('found-two-hole', h, dict(n=40, z=H, zsym=(11, 30)))]
        J += [(f'given-two-{i}', h, dict(G, ssym=(i, i + 1, 30), kw=P)) for i in range(10, 28, 3)]
    for _, _, d in J:
        if d.get('zsym'):
            d['sort_fork_max'] = 100
    return J
