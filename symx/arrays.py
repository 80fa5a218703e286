"""pandas extension arrays holding symbolic reals / symbolic booleans."""
import math
import operator
import numpy as np
import pandas as pd
from pandas.api.extensions import (ExtensionArray, ExtensionDtype, register_extension_dtype,
                                   take as pd_take)
from pandas.core.dtypes.generic import ABCDataFrame, ABCIndex, ABCSeries

from . import core
from .core import (SymReal, SymBool, NAN, is_sym, is_missing, lift, lift_bool, mkbool, ite,
                   sym_sum, sym_median, sym_quantile, Unsupported)


def scalar(x):
    """normalise an element for SymArray storage"""
    if isinstance(x, SymReal):
        c = x.const()
        if c is not None:
            f = float(c)
            if core.snap(f) == c:
                return f
        return x
    if isinstance(x, SymBool):
        return x._real()
    if is_missing(x):
        return NAN
    return float(x)


def sop(op, a, b):
    """scalar operation with numpy float semantics for concrete operands"""
    if is_sym(a) or is_sym(b):
        if isinstance(a, np.generic):
            a = a.item()
        if isinstance(b, np.generic):
            b = b.item()
        r = op(a, b)
        if r is NotImplemented:
            raise Unsupported(f'{op} on {type(a)}, {type(b)}')
        return r
    with np.errstate(all='ignore'):
        return op(np.float64(a), np.float64(b))


def box(vals):
    """list of scalars -> float64 ndarray if all concrete, else SymArray"""
    vals = [scalar(v) for v in vals]
    if any(isinstance(v, SymReal) for v in vals):
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
        return SymArray(a)
    return np.array(vals, dtype=float)


def box_bool(vals):
    if any(isinstance(v, SymBool) for v in vals):
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
        return SymBoolArray(a)
    if any(is_missing(v) for v in vals):
        a = np.empty(len(vals), dtype=object)
        a[:] = vals
        return a
    return np.array([bool(v) for v in vals], dtype=bool)


def obj1d(vals):
    vals = list(vals)
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


@register_extension_dtype
class SymDtype(ExtensionDtype):
    name = 'symreal'
    type = SymReal
    kind = 'O'
    na_value = NAN
    _is_numeric = True
    _is_boolean = False

    @classmethod
    def construct_array_type(cls):
        return SymArray

    @classmethod
    def construct_from_string(cls, s):
        if s == cls.name:
            return cls()
        raise TypeError(s)

    def _get_common_dtype(self, dtypes):
        for d in dtypes:
            if isinstance(d, (SymDtype, SymBoolDtype)):
                continue
            if isinstance(d, np.dtype) and d.kind in 'fiub':
                continue
            return None
        return self


@register_extension_dtype
class SymBoolDtype(ExtensionDtype):
    name = 'symbool'
    type = SymBool
    kind = 'O'
    na_value = NAN
    _is_numeric = True
    _is_boolean = True

    @classmethod
    def construct_array_type(cls):
        return SymBoolArray

    @classmethod
    def construct_from_string(cls, s):
        if s == cls.name:
            return cls()
        raise TypeError(s)

    def _get_common_dtype(self, dtypes):
        if all(isinstance(d, SymBoolDtype) or (isinstance(d, np.dtype) and d.kind in 'b')
               for d in dtypes):
            return self
        if all(isinstance(d, (SymBoolDtype, SymDtype)) or
               (isinstance(d, np.dtype) and d.kind in 'fiub') for d in dtypes):
            return SymDtype()
        return None


class _Base(ExtensionArray):
    __array_priority__ = 2000
    ndim = 1

    def __init__(self, data):
        assert isinstance(data, np.ndarray) and data.dtype == object and data.ndim == 1
        self._d = data

    @classmethod
    def _from_sequence(cls, scalars, *, dtype=None, copy=False):
        if isinstance(scalars, _Base):
            scalars = scalars._d
        return cls(obj1d(cls._norm(x) for x in scalars))

    @classmethod
    def _from_factorized(cls, values, original):
        return cls._from_sequence(values)

    def __len__(self):
        return len(self._d)

    @property
    def size(self):
        return len(self._d)

    @property
    def shape(self):
        return (len(self._d),)

    @property
    def nbytes(self):
        return 8 * len(self._d)

    @property
    def T(self):
        return self

    def __iter__(self):
        return iter(list(self._d))

    def __getitem__(self, item):
        if isinstance(item, tuple):
            if len(item) == 2 and item[0] is Ellipsis:
                item = item[1]
            elif len(item) == 1:
                item = item[0]
            elif len(item) == 2 and item[1] is None:
                return self._d[item]
        if item is Ellipsis:
            item = slice(None)
        item = _fork_indexer(item)
        item = pd.api.indexers.check_array_indexer(self, item)
        r = self._d[item]
        if isinstance(r, np.ndarray):
            return type(self)(r)
        return r

    def __setitem__(self, key, value):
        key = _fork_indexer(key)
        key = pd.api.indexers.check_array_indexer(self, key)
        if isinstance(value, (ABCSeries, ABCIndex)):
            value = value.array
        if isinstance(value, _Base):
            value = value._d
        if isinstance(value, np.ndarray) and value.ndim == 0:
            value = value.item()
        if isinstance(value, (list, tuple, np.ndarray, ExtensionArray)):
            value = obj1d(self._norm(x) for x in value)
            if isinstance(key, (int, np.integer)) and len(value) == 1:
                value = value[0]
            elif len(value) == 1:
                value = value[0]
        else:
            value = self._norm(value)
        self._d[key] = value

    def isna(self):
        return np.array([is_missing(x) for x in self._d], dtype=bool)

    def take(self, indices, *, allow_fill=False, fill_value=None):
        if allow_fill and (fill_value is None or is_missing(fill_value)):
            fill_value = NAN
        r = pd_take(self._d, np.asarray(indices), allow_fill=allow_fill, fill_value=fill_value)
        return type(self)(r)

    def copy(self):
        return type(self)(self._d.copy())

    def view(self, dtype=None):
        if dtype is not None and dtype is not type(self):
            raise NotImplementedError(dtype)
        return type(self)(self._d)

    def ravel(self, order='C'):
        return self

    def reshape(self, *shape):
        return self._d.reshape(*shape)

    @property
    def flat(self):
        return iter(self._d)

    def tolist(self):
        return list(self._d)

    @classmethod
    def _concat_same_type(cls, to_concat):
        return cls(np.concatenate([x._d for x in to_concat]))

    def _formatter(self, boxed=False):
        return str

    def to_numpy(self, dtype=None, copy=False, na_value=pd.api.extensions.no_default):
        if dtype is not None and np.dtype(dtype) == bool:
            out = []
            for x in self._d:
                if is_missing(x):
                    out.append(bool(na_value) if na_value is not pd.api.extensions.no_default else True)
                else:
                    out.append(bool(x))
            return np.array(out, dtype=bool)
        if dtype is None or np.dtype(dtype).kind == 'f':
            return self.copy()          # as .values: numpy's object arrays would forget that these are numbers
        return self._d.copy()

    def __array__(self, dtype=None, copy=None):
        if dtype is not None:
            dt = np.dtype(dtype)
            if dt.kind == 'b':
                return self.to_numpy(bool, na_value=True)
            if dt.kind in 'fiu':
                return np.array([float(x) for x in self._d]).astype(dt)
        return self._d.copy()

    def _values_for_argsort(self):
        return self._d

    def argsort(self, *, ascending=True, kind='quicksort', na_position='last', **kwargs):
        idx = [i for i in range(len(self)) if not is_missing(self._d[i])]
        nas = [i for i in range(len(self)) if is_missing(self._d[i])]
        out = []
        for i in idx:
            j = len(out)
            while j > 0 and bool((self._d[out[j - 1]] > self._d[i]) if ascending
                                 else (self._d[out[j - 1]] < self._d[i])):
                j -= 1
            out.insert(j, i)
        out = out + nas if na_position == 'last' else nas + out
        return np.array(out, dtype=np.intp)

    def argmin(self, axis=0, skipna=True):
        return self._arg(operator.lt)

    def argmax(self, axis=0, skipna=True):
        return self._arg(operator.gt)

    def _arg(self, op):
        best = None
        for i, x in enumerate(self._d):
            if is_missing(x):
                continue
            if best is None or bool(op(x, self._d[best])):
                best = i
        return -1 if best is None else best

    def unique(self):
        out = []
        for x in self._d:
            if is_missing(x):
                if not any(is_missing(y) for y in out):
                    out.append(NAN)
            elif not any((not is_missing(y)) and bool(x == y) for y in out):
                out.append(x)
        return type(self)(obj1d(out))

    def factorize(self, use_na_sentinel=True):
        uniq, codes = [], []
        for x in self._d:
            if is_missing(x):
                codes.append(-1)
                continue
            for k, y in enumerate(uniq):
                if bool(x == y):
                    codes.append(k)
                    break
            else:
                codes.append(len(uniq))
                uniq.append(x)
        return np.array(codes, dtype=np.intp), type(self)(obj1d(uniq))

    def duplicated(self, keep='first'):
        codes, _ = self.factorize()
        return pd.Series(codes).duplicated(keep=keep).to_numpy()

    def isin(self, values):
        values = list(values)
        out = []
        for x in self._d:
            r = core.FALSE
            for v in values:
                r = core.b_or(r, lift_bool(x == v))
            out.append(mkbool(r))
        return box_bool(out)

    def equals(self, other):
        if type(self) is not type(other) or len(self) != len(other):
            return False
        for a, b in zip(self._d, other._d):
            if is_missing(a) and is_missing(b):
                continue
            if is_missing(a) != is_missing(b) or not bool(a == b):
                return False
        return True

    def fillna(self, value=None, method=None, limit=None, copy=True):
        if method is not None:
            return self._pad_or_backfill(method=method, limit=limit, copy=copy)
        out = self.copy() if copy else self
        m = self.isna()
        if isinstance(value, (ABCSeries, ABCIndex)):
            value = value.array
        if isinstance(value, (np.ndarray, list, ExtensionArray)):
            for i in np.where(m)[0]:
                out._d[i] = self._norm(value[i])
        else:
            for i in np.where(m)[0]:
                out._d[i] = self._norm(value)
        return out

    def _pad_or_backfill(self, *, method, limit=None, limit_area=None, copy=True):
        m = self.isna()
        pos = pd.Series(np.where(m, np.nan, np.arange(len(self))))
        back = method in ('bfill', 'backfill')
        f = pos.bfill(limit=limit, limit_area=limit_area) if back else \
            pos.ffill(limit=limit, limit_area=limit_area)
        out = self.copy() if copy else self
        for i, j in enumerate(f.to_numpy()):
            if m[i] and j == j:
                out._d[i] = self._d[int(j)]
        return out

    def shift(self, periods=1, fill_value=None):
        n = len(self)
        fv = NAN if fill_value is None or is_missing(fill_value) else self._norm(fill_value)
        out = [fv] * n
        for i in range(n):
            j = i - periods
            if 0 <= j < n:
                out[i] = self._d[j]
        return type(self)(obj1d(out))

    def diff(self, periods=1):
        return self - self.shift(periods)

    def _where(self, mask, value):
        """keep where mask true"""
        out = self.copy()
        mask = np.asarray(mask)
        for i in range(len(self)):
            m = mask[i]
            v = value[i] if isinstance(value, (np.ndarray, list, ExtensionArray)) else value
            if isinstance(m, SymBool):
                out._d[i] = ite(m, self._d[i], self._norm(v)) if not is_missing(v) else (
                    self._d[i] if bool(m) else NAN)
            elif not m:
                out._d[i] = self._norm(v)
        return out

    def _putmask(self, mask, value):
        mask = np.asarray(mask)
        for i in range(len(self)):
            m = mask[i]
            v = value[i] if isinstance(value, (np.ndarray, list, ExtensionArray)) else value
            if isinstance(m, SymBool):
                if is_missing(v):
                    if bool(m):
                        self._d[i] = NAN
                else:
                    self._d[i] = ite(m, self._norm(v), self._d[i])
            elif m:
                self._d[i] = self._norm(v)

    # operators ------------------------------------------------------------
    def _other(self, other):
        n = len(self)
        if isinstance(other, _Base):
            o = other._d
        elif isinstance(other, ExtensionArray):
            o = obj1d(other)
        elif isinstance(other, np.ndarray):
            if other.ndim == 0:
                return [other.item()] * n
            o = other.ravel() if other.ndim > 1 else other
        elif isinstance(other, (list, tuple, range)):
            o = other
        else:
            return [other] * n
        if len(o) == 1 and n != 1:
            return [o[0]] * n
        if len(o) != n:
            raise ValueError('Lengths must match')
        return list(o)

    def _arith_method(self, other, op):
        if isinstance(other, (ABCSeries, ABCIndex, ABCDataFrame)):
            return NotImplemented
        if op in (divmod,) or getattr(op, '__name__', '') in ('divmod', 'rdivmod'):
            raise Unsupported('divmod')
        o = self._other(other)
        res = []
        for a, b in zip(self._d, o):
            if isinstance(b, (pd.Timedelta, pd.Timestamp, np.datetime64, np.timedelta64)):
                raise Unsupported('datetime arithmetic with symbolic values')
            res.append(sop(op, _num(a), _num(b)))
        return box(res)

    def _cmp_method(self, other, op):
        if isinstance(other, (ABCSeries, ABCIndex, ABCDataFrame)):
            return NotImplemented
        o = self._other(other)
        res = []
        for a, b in zip(self._d, o):
            if isinstance(b, str) or b is None:
                res.append(op is operator.ne)
                continue
            if is_missing(a) or is_missing(b):
                res.append(op is operator.ne)
                continue
            if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)) \
                    and op in (operator.eq, operator.ne):
                t = lift_bool(a) == lift_bool(b)
                res.append(mkbool(core.z3.simplify(t if op is operator.eq else core.b_not(t))))
                continue
            r = sop(op, _num(a), _num(b))
            res.append(r)
        return box_bool(res)

    def __invert__(self):
        return box_bool([NAN if is_missing(x) else mkbool(core.b_not(lift_bool(x)))
                         for x in self._d])

    def _logical_method(self, other, op):
        if isinstance(other, (ABCSeries, ABCIndex, ABCDataFrame)):
            return NotImplemented
        o = self._other(other)
        name = op.__name__.strip('_')
        f = {'and': core.b_and, 'rand': core.b_and, 'or': core.b_or, 'ror': core.b_or,
             'rand_': core.b_and, 'and_': core.b_and, 'or_': core.b_or,
             'xor': core.z3.Xor, 'rxor': core.z3.Xor}[name]
        res = []
        for a, b in zip(self._d, o):
            res.append(mkbool(f(lift_bool(a), lift_bool(b))))
        return box_bool(res)

    def __neg__(self):
        return box([-_num(x) for x in self._d])

    def __pos__(self):
        return self

    def __abs__(self):
        return box([abs(_num(x)) for x in self._d])

    def round(self, decimals=0, *a, **k):
        return box([round(x, decimals) if not is_missing(x) else x for x in self._d])

    def clip(self, lower=None, upper=None, **k):
        from . import npx
        return npx.clip(self, lower, upper)

    # numpy reductions called as methods
    def sum(self, axis=None, **k):
        return self._reduce('sum', skipna=False)

    def mean(self, axis=None, **k):
        return self._reduce('mean', skipna=False)

    def max(self, axis=None, **k):
        return self._reduce('max', skipna=False)

    def min(self, axis=None, **k):
        return self._reduce('min', skipna=False)

    def std(self, axis=None, ddof=0, **k):
        return self._reduce('std', skipna=False, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return self._reduce('var', skipna=False, ddof=ddof)

    def prod(self, axis=None, **k):
        return self._reduce('prod', skipna=False)

    def cumsum(self, axis=None, **k):
        return self._accumulate('cumsum', skipna=False)

    def cumprod(self, axis=None, **k):
        return self._accumulate('cumprod', skipna=False)

    def any(self, *a, **k):
        return self._reduce('any')

    def all(self, *a, **k):
        return self._reduce('all')

    def _reduce(self, name, *, skipna=True, keepdims=False, **kw):
        r = self._reduce1(name, skipna=skipna, **kw)
        if keepdims:
            if name in ('any', 'all'):
                return box_bool([r])
            b = box([r])
            return b if isinstance(b, SymArray) else b
        return r

    def _reduce1(self, name, *, skipna=True, **kw):
        vals = list(self._d)
        if name in ('any', 'all'):
            f = core.b_or if name == 'any' else core.b_and
            t = core.FALSE if name == 'any' else core.TRUE
            for v in vals:
                if is_missing(v):
                    if skipna:
                        continue
                    t = f(t, core.TRUE)
                    continue
                t = f(t, lift_bool(v))
            return mkbool(t)
        if any(is_missing(v) for v in vals):
            if not skipna:
                return NAN
            vals = [v for v in vals if not is_missing(v)]
        return reduce_list(name, vals, **kw)

    def _accumulate(self, name, *, skipna=True, **kw):
        if isinstance(self, SymBoolArray) and name == 'cumsum' and not any(is_missing(v) for v in self._d):
            # running counts serve as group labels: decide every flag on this path
            return np.cumsum([int(bool(v)) for v in self._d])
        out = []
        acc = None
        bad = False
        for v in self._d:
            if bad:
                out.append(NAN)
                continue
            if is_missing(v):
                out.append(NAN)
                if not skipna:
                    bad = True
                continue
            v = _num(v)
            if acc is None:
                acc = v
            elif name == 'cumsum':
                acc = sop(operator.add, acc, v)
            elif name == 'cumprod':
                acc = sop(operator.mul, acc, v)
            elif name == 'cummax':
                acc = sop(core.smax, acc, v) if is_sym(acc) or is_sym(v) else max(acc, v)
            elif name == 'cummin':
                acc = sop(core.smin, acc, v) if is_sym(acc) or is_sym(v) else min(acc, v)
            else:
                raise Unsupported(name)
            out.append(acc)
        return SymArray(obj1d(out))

    def _quantile(self, qs, interpolation):
        vals = [_num(v) for v in self._d if not is_missing(v)]
        return SymArray(obj1d(sym_quantile(vals, q, interpolation) for q in qs))

    def _groupby_op(self, *, how, has_dropped_na, min_count, ngroups, ids, **kwargs):
        groups = [[] for _ in range(ngroups)]
        pos = [[] for _ in range(ngroups)]
        for i, g in enumerate(ids):
            if g >= 0:
                groups[g].append(self._d[i])
                pos[g].append(i)
        if how in ('cumsum', 'cumprod', 'cummin', 'cummax'):
            out = [NAN] * len(self)
            for g in range(ngroups):
                r = SymArray(obj1d(groups[g]))._accumulate(how)
                for i, v in zip(pos[g], r):
                    out[i] = v
            return SymArray(obj1d(out))
        skipna = kwargs.pop('skipna', True)
        res = []
        for vals in groups:
            if how in ('any', 'all'):
                res.append(type(self)(obj1d(vals))._reduce1(how))
                continue
            good = [_num(v) for v in vals if not is_missing(v)]
            if how in ('first', 'last'):
                res.append(NAN if len(good) < max(1, min_count) else (good[0] if how == 'first' else good[-1]))
                continue
            if how == 'rank':
                raise Unsupported('rank')
            mc = min_count
            if how in ('min', 'max', 'mean', 'median', 'std', 'var', 'sem') or how == 'ohlc':
                mc = max(1, mc)
            if len(good) < max(mc, 0):
                res.append(NAN)
                continue
            res.append(reduce_list(how, good, **{k: v for k, v in kwargs.items() if k == 'ddof'}))
        if how in ('any', 'all'):
            return box_bool(res)
        return SymArray(obj1d(scalar(v) for v in res))

    def searchsorted(self, value, side='left', sorter=None):
        raise Unsupported('searchsorted on symbolic values')

    def value_counts(self, dropna=True):
        codes, uniq = self.factorize()
        counts = np.bincount(codes[codes >= 0], minlength=len(uniq))
        return pd.Series(counts, index=pd.Index(uniq._d, dtype=object))

    def interpolate(self, *, method, axis, index, limit, limit_direction, limit_area, copy, **kw):
        if method in ('linear',) and True:
            xs = np.arange(len(self), dtype=float)
        elif method in ('time', 'index', 'values'):
            if isinstance(index, pd.DatetimeIndex):
                xs = index.view('int64').astype('float64')
                xs = index.view('int64')
            else:
                xs = np.asarray(index)
        else:
            raise Unsupported(f'interpolate {method}')
        n = len(self)
        out = list(self._d)
        good = [i for i in range(n) if not is_missing(self._d[i])]
        if good:
            # np.interp over sorted valid xs; leading NaN preserved unless direction both
            order = sorted(good, key=lambda i: xs[i])
            gx = [int(xs[i]) if float(xs[i]).is_integer() else float(xs[i]) for i in order]
            gy = [self._d[i] for i in order]
            fill = set()
            nan_idx = [i for i in range(n) if is_missing(self._d[i])]
            first, last = good[0], good[-1]
            start_nans = {i for i in nan_idx if i < first}
            end_nans = {i for i in nan_idx if i > last}
            preserve = set()
            if limit_direction == 'forward':
                preserve |= start_nans | set(_limited(nan_idx, n, self, limit, 'f'))
            elif limit_direction == 'backward':
                preserve |= end_nans | set(_limited(nan_idx, n, self, limit, 'b'))
            else:
                preserve |= set(_limited(nan_idx, n, self, limit, 'both'))
            if limit_area == 'inside':
                preserve |= start_nans | end_nans
            elif limit_area == 'outside':
                preserve |= set(nan_idx) - start_nans - end_nans
            for i in nan_idx:
                if i in preserve:
                    continue
                x = int(xs[i]) if float(xs[i]).is_integer() else float(xs[i])
                out[i] = interp1(x, gx, gy)
        r = SymArray(obj1d(scalar(v) for v in out))
        if not copy:
            self._d[:] = r._d
            return self
        return r

    # numpy protocol ------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        for x in inputs:
            if isinstance(x, (ABCSeries, ABCIndex, ABCDataFrame)):
                return NotImplemented
        from . import npx
        return npx.array_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npx
        f = getattr(npx, func.__name__, None)
        if f is not None and f is not func:
            return f(*args, **kwargs)
        args = [np.asarray(a) if isinstance(a, _Base) else a for a in args]
        kwargs = {k: (np.asarray(a) if isinstance(a, _Base) else a) for k, a in kwargs.items()}
        return func(*args, **kwargs)


def _limited(nan_idx, n, arr, limit, direction):
    if limit is None:
        return ()
    s = pd.Series([0.0 if not is_missing(x) else np.nan for x in arr._d])
    if direction == 'f':
        f = s.ffill(limit=limit)
        g = s.ffill()
        return [i for i in nan_idx if f.isna()[i] and not g.isna()[i]]
    if direction == 'b':
        f = s.bfill(limit=limit)
        g = s.bfill()
        return [i for i in nan_idx if f.isna()[i] and not g.isna()[i]]
    f = s.ffill(limit=limit).bfill(limit=limit)
    return [i for i in nan_idx if f.isna()[i]]


def interp1(x, gx, gy):
    from fractions import Fraction
    if x <= gx[0]:
        return gy[0]
    if x >= gx[-1]:
        return gy[-1]
    for k in range(len(gx) - 1):
        if gx[k] <= x <= gx[k + 1]:
            if x == gx[k]:
                return gy[k]
            if x == gx[k + 1]:
                return gy[k + 1]
            w = (Fraction(x) - Fraction(gx[k])) / (Fraction(gx[k + 1]) - Fraction(gx[k]))
            a, b = lift(gy[k]), lift(gy[k + 1])
            return a + (b - a) * w
    raise AssertionError


def _num(x):
    if isinstance(x, SymBool):
        return x._real()
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if is_missing(x):
        return NAN
    if isinstance(x, (SymReal, float)):
        return x
    if isinstance(x, (int, np.integer, np.floating)):
        return float(x) if not isinstance(x, int) else x
    return x


def reduce_list(name, vals, **kw):
    """reduction of a list of non-missing scalars"""
    vals = [_num(v) for v in vals]
    n = len(vals)
    if all(not is_sym(v) for v in vals):
        s = pd.Series(np.array(vals, dtype=float))
        kw = {k: v for k, v in kw.items() if k in ('ddof', 'min_count')}
        return getattr(s, name)(**kw)
    if name == 'sum':
        if n < kw.get('min_count', 0):
            return NAN
        return sym_sum(vals)
    if name == 'mean':
        return sym_sum(vals) / n
    if name in ('min', 'max'):
        r = vals[0]
        f = core.smin if name == 'min' else core.smax
        for v in vals[1:]:
            r = f(r, v)
        return r
    if name == 'median':
        return sym_median(vals)
    if name in ('var', 'std', 'sem'):
        ddof = kw.get('ddof', 1)
        if n - ddof <= 0:
            return NAN
        m = sym_sum(vals) / n
        v = sym_sum([(x - m) * (x - m) for x in vals]) / (n - ddof)
        if name == 'var':
            return v
        if name == 'sem':
            v = v / n
        v = lift(v)
        return v.sqrt()
    if name == 'prod':
        r = vals[0]
        for v in vals[1:]:
            r = r * v
        return r
    if name == 'count':
        return n
    raise Unsupported(f'reduction {name}')


def _fork_indexer(key):
    """symbolic boolean indexers become concrete (forking)"""
    if isinstance(key, SymBoolArray):
        return key.to_numpy(bool, na_value=False)
    if isinstance(key, ABCSeries) and isinstance(key.array, SymBoolArray):
        return key.array.to_numpy(bool, na_value=False)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, SymArray):
        return np.asarray(key)
    return key


class SymArray(_Base):
    @property
    def dtype(self):
        return SymDtype()

    @staticmethod
    def _norm(x):
        return scalar(x)

    def astype(self, dtype, copy=True):
        if isinstance(dtype, SymDtype) or dtype == 'symreal':
            return self.copy() if copy else self
        if isinstance(dtype, SymBoolDtype):
            return SymBoolArray(obj1d(mkbool(lift_bool(x)) for x in self._d))
        dt = pd.api.types.pandas_dtype(dtype)
        if isinstance(dt, np.dtype):
            if dt.kind == 'f':
                return self.copy() if copy else self
            if dt.kind == 'O':
                return self._d.copy()
            if dt.kind == 'b':
                return box_bool([True if is_missing(x) else mkbool(lift_bool(x)) for x in self._d])
            if dt.kind in 'iu':
                return box([lift(x).trunc() for x in self._d])
            if dt.kind in 'SU':
                return np.array([str(x) for x in self._d], dtype=dt)
        return super().astype(dtype, copy)


class SymBoolArray(_Base):
    @property
    def dtype(self):
        return SymBoolDtype()

    @staticmethod
    def _norm(x):
        if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
            return x if isinstance(x, SymBool) else bool(x)
        if is_missing(x):
            return NAN
        if isinstance(x, SymReal):
            return mkbool(lift_bool(x))
        if x in (0, 1):
            return bool(x)
        raise TypeError(f'not a boolean {x!r}')

    def astype(self, dtype, copy=True):
        if isinstance(dtype, SymBoolDtype) or dtype == 'symbool':
            return self.copy() if copy else self
        if isinstance(dtype, SymDtype):
            return SymArray(obj1d(scalar(x) for x in self._d))
        dt = pd.api.types.pandas_dtype(dtype)
        if isinstance(dt, np.dtype):
            if dt.kind == 'b':
                if any(is_missing(x) for x in self._d):
                    return box_bool([True if is_missing(x) else x for x in self._d])
                return self.copy() if copy else self
            if dt.kind in 'fiu':
                return box([NAN if is_missing(x) else _num(x) for x in self._d])
            if dt.kind == 'O':
                return self._d.copy()
        return super().astype(dtype, copy)

    def tolist(self):
        return list(self._d)


# operators
for _c in (SymArray, SymBoolArray):
    _c._add_arithmetic_ops = classmethod(lambda cls: None)
from pandas.core.arraylike import OpsMixin  # noqa: E402
from pandas.core import roperator  # noqa: E402


def _install_ops(cls):
    A = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow']
    for n in A:
        op = getattr(operator, n)
        rop = getattr(roperator, 'r' + n)
        setattr(cls, f'__{n}__', (lambda op: lambda self, o: self._arith_method(o, op))(op))
        setattr(cls, f'__r{n}__', (lambda op: lambda self, o: self._arith_method(o, op))(rop))
    for n in ['lt', 'le', 'gt', 'ge', 'eq', 'ne']:
        op = getattr(operator, n)
        setattr(cls, f'__{n}__', (lambda op: lambda self, o: self._cmp_method(o, op))(op))
    for n in ['and', 'or', 'xor']:
        op = getattr(operator, n + '_' if n in ('and', 'or') else n)
        setattr(cls, f'__{n}__', (lambda op: lambda self, o: self._logical_method(o, op))(op))
        rop = getattr(roperator, 'r' + n + '_' if n in ('and', 'or') else 'rxor')
        setattr(cls, f'__r{n}__', (lambda op: lambda self, o: self._logical_method(o, op))(rop))
    cls.__hash__ = None


_install_ops(_Base)
core.register_arrayish(_Base, pd.Series, pd.DataFrame, pd.Index)


def wrap_object(a):
    """object ndarray (1-d) holding symbolic scalars -> extension array"""
    if not isinstance(a, np.ndarray) or a.dtype != object or a.ndim != 1:
        return a
    has_r = has_b = False
    for x in a:
        if isinstance(x, SymReal):
            has_r = True
        elif isinstance(x, SymBool):
            has_b = True
        elif not (isinstance(x, (float, int, np.floating, np.integer, np.bool_)) or is_missing(x)):
            return a
    if not (has_r or has_b):
        return a
    if has_b and not has_r:
        if all(isinstance(x, (SymBool, bool, np.bool_)) or is_missing(x) for x in a):
            return SymBoolArray(obj1d(a))
    return SymArray(obj1d(scalar(x) for x in a))


def contains_sym(a):
    if isinstance(a, _Base):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(is_sym(x) for x in a.ravel())
    if isinstance(a, (list, tuple)):
        return any(is_sym(x) or contains_sym(x) for x in a)
    if isinstance(a, ABCSeries):
        return contains_sym(a._values)
    if isinstance(a, ABCDataFrame):
        return any(contains_sym(a.iloc[:, i]._values) for i in range(a.shape[1]))
    return is_sym(a)
