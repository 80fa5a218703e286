"""builders and independent statements for the end-to-end analysis (TrendAnalysis)"""
from .lib import *


def bins(idx, freq):
    """bin label of every stamp and the ordered list of all labels from first to last bin"""
    if freq == 'D':
        lab = [t.normalize() for t in idx]
        nxt = lambda t: t + pd.DateOffset(days=1)
    elif freq == 'MS':
        lab = [t.normalize().replace(day=1) for t in idx]
        nxt = lambda t: t + pd.DateOffset(months=1)
    elif freq == '2D':
        o = idx[0].normalize()
        lab = [o + pd.DateOffset(days=2 * ((t.tz_localize(None).normalize() - o.tz_localize(None)).days // 2)) for t in idx]
        nxt = lambda t: t + pd.DateOffset(days=2)
    else:
        raise ValueError(freq)
    out = []
    if lab:
        t = lab[0]
        while t <= lab[-1]:
            out.append(t)
            t = nxt(t)
    return lab, out


def ref_aggregate(ctx, idx, e, w, freq):
    """[(label, weighted mean, insolation)] over all bins from the first to the last kept point"""
    lab, labels = bins(idx, freq)
    out = []
    for L in labels:
        at = [i for i in range(len(idx)) if lab[i] == L]
        good = [i for i in at if not missing(e[i]) and not missing(w[i])]
        perf = NAN
        if good:
            perf = ctx.div(ctx.sum([e[i] * w[i] for i in good]), ctx.sum([w[i] for i in good]))
        out.append((L, perf, ctx.sum([w[i] for i in at if not missing(w[i])] or [0])))
    return out


def regular(rows, freq):
    """the rows kept by the aggregated filter, on a gap-free bin grid between first and last of them"""
    if not rows:
        return []
    d = {r[0]: r for r in rows}
    _, labels = bins([r[0] for r in rows], freq)
    return [d.get(L, (L, NAN, NAN)) for L in labels]


def quiet(f, *a, **k):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)
