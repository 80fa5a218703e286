"""Hooks that let real pandas carry symbolic values, and the import hook that
loads rdtools' *current source* for symbolic execution."""
import ast
from fractions import Fraction
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

import numpy as np
import pandas as pd

from . import core, arrays, npx
from .core import SymReal, SymBool, is_sym, is_missing, NAN, Unsupported
from .arrays import SymArray, SymBoolArray, SymDtype, SymBoolDtype, _Base, wrap_object, obj1d, box

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _patch_pandas()
    _patch_rolling()
    _patch_cdf()


def _unscratch(a):
    if isinstance(a, np.ndarray):
        if a.dtype == object and a.ndim == 1:
            w = wrap_object(np.asarray(a))
            if isinstance(w, _Base):
                return w
        return npx.plain(a) if not isinstance(a, npx.Scratch) else (
            npx.plain(a) if not arrays.contains_sym(a) else np.asarray(a))
    if isinstance(a, (list, tuple)) and any(is_sym(x) for x in a):
        return wrap_object(obj1d(a))
    return a


def _patch_pandas():
    import pandas.core.construction as con
    import pandas.core.series as ser
    import pandas.core.frame as frm
    import pandas.core.internals.construction as icon
    import pandas.core.internals.blocks as blocks
    import pandas.core.dtypes.cast as cast
    import pandas.core.indexes.base as ib

    orig_sanitize = con.sanitize_array

    def sanitize_array(data, index, dtype=None, copy=False, *, allow_2d=False):
        d = _unscratch(data)
        if is_sym(d) and index is not None:
            d = wrap_object(obj1d([d] * len(index)))
            dtype = None
        if isinstance(d, _Base):
            if dtype is not None and not isinstance(dtype, (SymDtype, SymBoolDtype)):
                dt = pd.api.types.pandas_dtype(dtype)
                if isinstance(dt, np.dtype) and dt.kind in 'fbiu':
                    r = d.astype(dt)
                    return r
                if dt == object:
                    dtype = None
            if copy:
                d = d.copy()
            return d
        r = orig_sanitize(d, index, dtype=dtype, copy=copy, allow_2d=allow_2d)
        if isinstance(r, np.ndarray) and r.dtype == object and r.ndim == 1:
            r = wrap_object(r)
            if isinstance(r, np.ndarray) and r.dtype == object and len(r) and dtype is None and all(
                    isinstance(x, float) for x in r):
                r = r.astype(float)     # the numbers of an array that held symbolic ones elsewhere
        return r

    for m in (con, ser, frm, icon):
        if hasattr(m, 'sanitize_array'):
            m.sanitize_array = sanitize_array

    orig_frt = cast.find_result_type

    def find_result_type(left_dtype, right):
        if is_sym(right) or isinstance(right, _Base) or \
                (isinstance(right, np.ndarray) and right.dtype == object and arrays.contains_sym(right)) or \
                (isinstance(right, (list, tuple)) and any(is_sym(x) for x in right)):
            if isinstance(left_dtype, np.dtype) and left_dtype.kind in 'fiub':
                onlyb = isinstance(right, SymBool) or isinstance(right, SymBoolArray)
                if left_dtype.kind == 'b' and onlyb:
                    return SymBoolDtype()
                return SymDtype()
            if isinstance(left_dtype, np.dtype) and left_dtype.kind == 'O':
                return SymDtype()
        return orig_frt(left_dtype, right)

    cast.find_result_type = find_result_type
    blocks.find_result_type = find_result_type

    # object blocks created by enlargement / all-NaN object frames: setting symbolic values
    orig_infer = cast.infer_dtype_from_scalar

    def infer_dtype_from_scalar(val):
        if isinstance(val, SymReal):
            return SymDtype(), val
        if isinstance(val, SymBool):
            return SymBoolDtype(), val
        return orig_infer(val)

    for name, m in list(sys.modules.items()):
        if name.startswith('pandas.') and getattr(m, 'infer_dtype_from_scalar', None) is orig_infer:
            m.infer_dtype_from_scalar = infer_dtype_from_scalar

    # Series.interpolate refuses object-kind dtypes; ours is numeric
    from pandas.core.internals.blocks import ExtensionBlock

    # block-wise where/putmask on our arrays with symbolic masks
    orig_where = ExtensionBlock.where

    def where(self, other, cond, _downcast='infer', using_cow=False):
        if isinstance(self.values, _Base):
            if isinstance(cond, pd.Series):
                cond = cond._values
            cond = _flat(cond)
            other_ = _flat(other)
            return [self.make_block_same_class(self.values._where(cond, other_))]
        return orig_where(self, other, cond, _downcast=_downcast, using_cow=using_cow)

    ExtensionBlock.where = where

    orig_dfmode = pd.Series.clip

    def clip(self, lower=None, upper=None, *, axis=None, inplace=False, **kw):
        if arrays.contains_sym(self) or is_sym(lower) or is_sym(upper) or \
                arrays.contains_sym(lower) or arrays.contains_sym(upper):
            r = self
            for b, f in ((lower, core.smax), (upper, core.smin)):
                if b is None:
                    continue
                bv = b.reindex(r.index)._values if isinstance(b, pd.Series) else b
                vals = []
                src = list(r._values)
                bl = list(bv) if isinstance(bv, (np.ndarray, pd.api.extensions.ExtensionArray, list)) else [bv] * len(src)
                for v, w in zip(src, bl):
                    vals.append(v if is_missing(v) or is_missing(w) else
                                (f(v, w) if (is_sym(v) or is_sym(w)) else
                                 (max(v, w) if f is core.smax else min(v, w))))
                r = pd.Series(box(vals), index=r.index, name=r.name)
            if inplace:
                self._update_inplace(r)
                return None
            return r
        return orig_dfmode(self, lower, upper, axis=axis, inplace=inplace, **kw)

    pd.Series.clip = clip

    orig_dfclip = pd.DataFrame.clip

    def dfclip(self, lower=None, upper=None, *, axis=None, inplace=False, **kw):
        if arrays.contains_sym(self) or is_sym(lower) or is_sym(upper):
            return self.apply(lambda c: c.clip(lower, upper))
        return orig_dfclip(self, lower, upper, axis=axis, inplace=inplace, **kw)

    pd.DataFrame.clip = dfclip

    # Series.where/mask keep symbolic conditions lazily
    def _swhere(orig, neg):
        def f(self, cond, other=NAN, *a, **k):
            if callable(cond):
                cond = cond(self)
            if isinstance(self, pd.Series) and not k.get('inplace') and (
                    arrays.contains_sym(self) or arrays.contains_sym(cond) or arrays.contains_sym(other)):
                if callable(other):
                    other = other(self)
                if isinstance(cond, pd.Series):
                    cond = cond.reindex(self.index)
                    cl = list(cond._values)
                else:
                    cl = list(np.asarray(cond))
                if isinstance(other, pd.Series):
                    ol = list(other.reindex(self.index)._values)
                elif isinstance(other, (np.ndarray, list, _Base)):
                    ol = list(other)
                else:
                    ol = [other] * len(self)
                out = []
                for c, v, o in zip(cl, self._values, ol):
                    if is_missing(c):
                        c = neg
                    if neg:
                        c = (~c) if isinstance(c, SymBool) else (not c)
                    if isinstance(c, SymBool):
                        if is_missing(v) or is_missing(o):
                            out.append(v if bool(c) else o)
                        else:
                            out.append(core.ite(c, v, o))
                    else:
                        out.append(v if c else o)
                w = wrap_object(obj1d(out))
                if isinstance(w, np.ndarray):
                    w = np.array(list(w))
                return pd.Series(w, index=self.index, name=self.name)
            return orig(self, cond, other, *a, **k)
        return f

    pd.Series.where = _swhere(pd.Series.where, False)
    pd.Series.mask = _swhere(pd.Series.mask, True)

    # rank/abs etc.
    orig_abs = pd.Series.__abs__

    def sabs(self):
        if arrays.contains_sym(self):
            return pd.Series(abs(self._values), index=self.index, name=self.name)
        return orig_abs(self)
    pd.Series.__abs__ = sabs
    orig_sabs = pd.Series.abs
    pd.Series.abs = lambda self: sabs(self) if arrays.contains_sym(self) else orig_sabs(self)

    # Series.unstack / to_numpy(float)
    orig_std = pd.Series.std

    # numeric_only selection etc. rely on dtype._is_numeric -> fine

    # DataFrame.<reduction>(axis=1)
    def _dfred(name):
        orig = getattr(pd.DataFrame, name)

        def f(self, axis=0, skipna=True, numeric_only=False, **k):
            if axis in (1, 'columns') and arrays.contains_sym(self):
                out = []
                for i in range(len(self)):
                    row = [self.iloc[:, j]._values[i] for j in range(self.shape[1])]
                    if name in ('any', 'all'):
                        t = core.FALSE if name == 'any' else core.TRUE
                        fn = core.b_or if name == 'any' else core.b_and
                        for v in row:
                            if is_missing(v) and skipna:
                                continue
                            t = fn(t, core.TRUE if is_missing(v) else core.lift_bool(v))
                        out.append(core.mkbool(t))
                        continue
                    good = [v for v in row if not is_missing(v)]
                    if (not skipna and len(good) < len(row)) or len(good) < k.get('min_count', 0) or (
                            not good and name != 'sum'):
                        out.append(NAN)
                    else:
                        out.append(arrays.reduce_list(name, good) if good else 0.0)
                arr = arrays.box_bool(out) if name in ('any', 'all') else box(out)
                return pd.Series(arr, index=self.index)
            kw = dict(k)
            if numeric_only:
                kw['numeric_only'] = numeric_only
            return orig(self, axis=axis, skipna=skipna, **kw)
        return f

    for n in ('sum', 'mean', 'min', 'max', 'median', 'std', 'any', 'all'):
        setattr(pd.DataFrame, n, _dfred(n))

    # quantile of a symbolic series returns the scalar
    orig_q = pd.Series.quantile

    def quantile(self, q=0.5, interpolation='linear'):
        if arrays.contains_sym(self):
            vals = [v for v in self._values if not is_missing(v)]
            if isinstance(q, (list, tuple, np.ndarray)):
                return pd.Series(box([core.sym_quantile(vals, x, interpolation) for x in q]), index=list(q))
            return core.sym_quantile(vals, q, interpolation)
        return orig_q(self, q, interpolation)
    pd.Series.quantile = quantile

    from pandas.core.groupby.generic import SeriesGroupBy
    orig_gq = SeriesGroupBy.quantile

    def gquantile(self, q=0.5, interpolation='linear', *a, **k):
        o = self._selected_obj
        if isinstance(o, pd.Series) and isinstance(o.dtype, SymDtype) and not isinstance(q, (list, tuple)):
            keys, vals = [], []
            for key, g in self:
                keys.append(key)
                vals.append(quantile(g, q, interpolation))
            return pd.Series(box(vals), index=pd.Index(keys, name=self.grouper.names[0] if hasattr(self, 'grouper') else None),
                             name=o.name)
        return orig_gq(self, q, interpolation, *a, **k)
    SeriesGroupBy.quantile = gquantile

    # DataFrame.apply over columns may build object frames; wrap afterwards
    orig_ndm = icon.ndarray_to_mgr

    def ndarray_to_mgr(values, index, columns, dtype, copy, typ):
        v = values
        if isinstance(v, np.ndarray) and v.dtype == object and v.ndim == 2 and arrays.contains_sym(v):
            cols = {i: wrap_object(np.asarray(v[:, i])) for i in range(v.shape[1])}
            df = pd.DataFrame({i: pd.Series(c) for i, c in cols.items()})
            if index is not None:
                df.index = index
            df.columns = columns if columns is not None else pd.RangeIndex(v.shape[1])
            return df._mgr
        if isinstance(v, npx.Scratch):
            v = npx.plain(v)
        return orig_ndm(v, index, columns, dtype, copy, typ)
    icon.ndarray_to_mgr = ndarray_to_mgr
    frm.ndarray_to_mgr = ndarray_to_mgr

    # numpy reductions on plain object arrays containing symbolic bools etc. work natively


def _flat(x):
    if isinstance(x, pd.DataFrame):
        x = x.iloc[:, 0]._values
    if isinstance(x, pd.Series):
        x = x._values
    if isinstance(x, np.ndarray) and x.ndim == 2:
        x = x[:, 0] if x.shape[1] == 1 else x[0]
    if isinstance(x, SymBoolArray):
        return x._d
    return x


def _patch_rolling():
    from pandas.core.window.rolling import Rolling, RollingAndExpandingMixin, BaseWindow
    from pandas.core.window.expanding import Expanding

    def windows(self):
        obj = self._selected_obj
        if type(self) is Expanding or self.method == 'table':
            pass
        indexer = self._get_window_indexer()
        minp = self.min_periods if self.min_periods is not None else indexer.window_size
        start, end = indexer.get_window_bounds(
            num_values=len(obj), min_periods=minp, center=self.center, closed=self.closed,
            step=self.step)
        if isinstance(self.min_periods, (int, np.integer)):
            minp = self.min_periods
        return start, end, minp

    def red(name):
        orig = getattr(Rolling, name)

        def one(self, ser, kw, start, end, minp):
            vals = list(ser._values)
            out = []
            for s, e in zip(start, end):
                w = [v for v in vals[s:e] if not is_missing(v)]
                if len(w) < max(minp, 1) and name not in ('sum', 'count'):
                    out.append(NAN)
                elif len(w) < minp:
                    out.append(NAN)
                elif name == 'quantile':
                    out.append(core.sym_quantile(w, kw.get('q', kw.get('quantile', 0.5))))
                elif name in ('std', 'var'):
                    out.append(arrays.reduce_list(name, w, ddof=kw.get('ddof', 1)))
                elif name == 'count':
                    out.append(float(len(w)))
                else:
                    out.append(arrays.reduce_list(name, w) if w else 0.0)
            return pd.Series(box(out), index=ser.index[:len(out)], name=ser.name)

        def f(self, *args, **kwargs):
            obj = self._selected_obj
            if arrays.contains_sym(obj):
                kw = dict(kwargs)
                if name == 'quantile' and args:
                    kw['q'] = args[0]
                if name in ('std', 'var') and args:
                    kw['ddof'] = args[0]
                start, end, minp = windows(self)
                if isinstance(obj, pd.Series):
                    return one(self, obj, kw, start, end, minp)
                return pd.DataFrame({c: one(self, obj[c], kw, start, end, minp) for c in obj.columns})
            return orig(self, *args, **kwargs)
        return f

    for n in ('sum', 'mean', 'median', 'min', 'max', 'std', 'var', 'quantile', 'count'):
        setattr(Rolling, n, red(n))

    from pandas.core.window.rolling import Window
    orig_wmean = Window.mean

    def wmean(self, numeric_only=False, **kw):
        obj = self._selected_obj
        if not arrays.contains_sym(obj):
            return orig_wmean(self, numeric_only=numeric_only, **kw)
        if self.closed is not None or self.step not in (None, 1):
            raise core.Unsupported('weighted window options')
        wts = [float(x) for x in self._scipy_weight_generator(self.window, **kw)]
        n = len(wts)
        off = (n - 1) // 2 if self.center else 0
        minp = self.min_periods if self.min_periods is not None else n

        def one(ser):
            vals = list(ser._values)
            out = []
            for i in range(len(vals)):
                pick = [(w, vals[j]) for w, j in zip(wts, range(i + off - n + 1, i + off + 1))
                        if 0 <= j < len(vals) and not is_missing(vals[j])]
                if len(pick) < max(minp, 1):
                    out.append(NAN)
                    continue
                s = sum(Fraction(w) for w, _ in pick)
                out.append(core.sym_sum([v * core.SymReal(core.numeral(Fraction(w) / s)) for w, v in pick]))
            return pd.Series(box(out), index=ser.index, name=ser.name)
        if isinstance(obj, pd.Series):
            return one(obj)
        return pd.DataFrame({c: one(obj[c]) for c in obj.columns})
    Window.mean = wmean

    orig_apply = Rolling.apply

    def apply(self, func, raw=False, engine=None, engine_kwargs=None, args=None, kwargs=None):
        obj = self._selected_obj
        if arrays.contains_sym(obj) and isinstance(obj, pd.Series):
            start, end, minp = windows(self)
            out = []
            for s, e in zip(start, end):
                w = obj.iloc[s:e]
                if int(w.notna().sum()) < max(minp, 1):
                    out.append(NAN)
                    continue
                out.append(func(np.asarray(w._values) if raw else w, *(args or ()), **(kwargs or {})))
            return pd.Series(box(out), index=obj.index, name=obj.name)
        return orig_apply(self, func, raw=raw, engine=engine, engine_kwargs=engine_kwargs,
                          args=args, kwargs=kwargs)
    Rolling.apply = apply


def _patch_cdf():
    pass


# ----------------------------------------------------------------------------
# builtins seen by the transformed source
# ----------------------------------------------------------------------------
def sx_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return x._real()
    if isinstance(x, (np.ndarray, pd.Series)) and x.size == 1 and x.dtype == object:
        return sx_float(np.asarray(x).reshape(-1)[0])
    if type(x).__name__ == 'SymArray' and len(x) == 1:
        return sx_float(list(x)[0])
    return float(x)


def sx_int(x=0, *a):
    if isinstance(x, SymReal):
        return x.trunc()
    return int(x, *a)


def sx_round(x, n=None):
    if isinstance(x, SymReal):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def sx_isinstance(x, c):
    if isinstance(x, SymReal) and not isinstance(x, c):
        cs = c if isinstance(c, tuple) else (c,)
        return any(k in (float, np.floating, np.number, np.float64) for k in cs)
    if isinstance(x, SymBool) and not isinstance(x, c):
        cs = c if isinstance(c, tuple) else (c,)
        return any(k in (bool, np.bool_) for k in cs)
    return isinstance(x, c)


def sx_bool(x=False):
    return x if isinstance(x, SymBool) else bool(x)


BUILTINS = {'float': sx_float, 'int': sx_int, 'round': sx_round, 'isinstance': sx_isinstance,
            'bool': sx_bool}


class _Rewrite(ast.NodeTransformer):
    """calls of float()/int()/round()/isinstance() and imports of numpy go
    through the symbolic layer; everything else is the source as it stands"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in BUILTINS:
            node.func = ast.copy_location(
                ast.Name(id='_sx_' + node.func.id + '__', ctx=ast.Load()), node.func)
        return node

    def visit_Import(self, node):
        for a in node.names:
            if a.name == 'numpy':
                a.asname = a.asname or 'numpy'
                a.name = 'symx.npx'
        return node

    def visit_ImportFrom(self, node):
        if node.module == 'numpy' and not node.level:
            node.module = 'symx.npx'
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = _Rewrite().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        for k, v in BUILTINS.items():
            module.__dict__['_sx_' + k + '__'] = v
        super().exec_module(module)


REPO = os.environ.get('SYMX_REPO', '/repo')


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'rdtools' and not name.startswith('rdtools.'):
            return None
        if name.startswith('rdtools.test'):
            return None
        parts = name.split('.')
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(
                name, f, loader=_Loader(name, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


def install_loader():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
