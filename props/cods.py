"""Stand-ins and helpers for the combined degradation and soiling analysis"""
import warnings
from .lib import *


def exact(ctx, v):
    return ctx.frac(Fraction(str(v))) if ctx.symbolic else float(v)


class method:
    """replace a method of a class (when it exists) by a stand-in"""

    def __init__(self, cls, name, new):
        self.cls, self.name, self.new = cls, name, new

    def __enter__(self):
        self.old = self.cls.__dict__.get(self.name)
        if self.old is not None:
            setattr(self.cls, self.name, self.new)
        return self

    def __exit__(self, *a):
        if self.old is not None:
            setattr(self.cls, self.name, self.old)
        return False


def wmean(ctx, vals):
    v = [x for x in vals if not missing(x)]
    return ctx.sum(v) * ctx.frac(1, len(v))


def rmse(ctx, truth, pred):
    """root mean squared error over the days both are known"""
    d = [(a - b) * (a - b) for a, b in zip(truth, pred) if not missing(a) and not missing(b)]
    return ctx.sqrt(ctx.sum(d) * ctx.frac(1, len(d)))


def quant(ctx, vals, q):
    v = [x for x in vals if not missing(x)]
    return ctx.quantile(v, Fraction(str(q)) if ctx.symbolic else q)


def _probe_period(f):
    idx = pd.date_range('2018-01-01', periods=1095, freq='D')
    v = pd.Series([(t.dayofyear * 7 % 31) / 64 + t.year % 2 for t in idx], index=idx)
    out = f(v, idx, idx)
    want = {}
    for i, t in enumerate(idx):
        if 180 <= i < 1095 - 180:
            want.setdefault(t.dayofyear, []).append(v.iloc[i])
    return all(abs(out.iloc[i] - np.median(want[idx[i].dayofyear])) < 1e-9 for i in range(0, 1095, 50))


def _probe_detect(f):
    idx = pd.date_range('2020-01-01', periods=40, freq='D')
    y = pd.Series([1 - 0.01 * (i % 20) for i in range(40)], index=idx)
    ev, metric = f(idx, y)
    return len(ev) == len(metric) == 40 and bool(ev.any()) and not bool(ev.all())


def _probe_collapse(f):
    idx = pd.date_range('2020-01-01', periods=40, freq='D')
    ev = pd.Series([i in (10, 11, 12, 30) for i in range(40)], index=idx)
    metric = pd.Series([1.0 if i in (11, 30) else 0.5 for i in range(40)], index=idx)
    out = f(ev, metric)
    return list(out[out].index) == [idx[11], idx[30]]


HELPERS = {'_force_periodicity': _probe_period, '_rolling_median_ce_detection': _probe_detect, '_collapse_cleaning_events': _probe_collapse}


def helper(S, name):
    """the module's function that does this job, whatever it is called (None when there is none)"""
    import contextlib
    import io
    import types
    if hasattr(S, name):
        return name
    for n, f in list(vars(S).items()):
        if isinstance(f, types.FunctionType) and f.__module__ == S.__name__ and n.startswith('_'):
            try:
                with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    if HELPERS[name](f):
                        return n
            except Exception:
                pass
    return None
