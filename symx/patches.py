"""Teaches numpy/pandas/math the symbolic scalars of core.py.

Every patch passes through to the original function unless a symbolic value is involved.  Only the exploring process is
patched; counterexamples are replayed in a clean process.
"""
import builtins
import math
import operator
from fractions import Fraction

import numpy as np
import pandas as pd
import z3
from pandas.core import nanops
import pandas.core.dtypes.astype as pd_astype
import pandas.core.common as pd_com
import pandas.core.dtypes.common as pd_common
from pandas.tseries.holiday import Holiday, AbstractHolidayCalendar

from . import core
from .core import (Sym, SBool, SReal, SInt, STime, STd, SymOffset, EngineGap, ctx, ite, smin, smax, is_sym, has_sym,
                   isnull, EPOCH)

ORIG = {}
np_array = np.array


class SymArr(np.ndarray):
    """object ndarray holding symbolic values"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and has_sym(self):
            return sym_astype(self, dtype)
        return np.ndarray.astype(self, dtype, *a, **k)

    def __getitem__(self, key):
        if self.dtype == object and isinstance(key, (np.ndarray, pd.Index, pd.Series, list)) or is_sym(key):
            kk = key
            if type(kk) is SInt:
                return _ite_index(self, kk)
            if type(kk) is SBool:
                kk = bool(kk)
            elif has_sym(kk):
                arr = np.asarray(kk._values if isinstance(kk, (pd.Index, pd.Series)) else kk, dtype=object)
                flat = list(arr.ravel())
                if all(type(v) in (SBool, bool, np.bool_) for v in flat):
                    kk = np_array([bool(v) for v in flat]).reshape(arr.shape)
                else:
                    return mk([_ite_index(self, v) for v in flat], arr.shape)
            key = kk
            if isinstance(key, (pd.Index, pd.Series)) and key.dtype == object:
                key = np_array(list(key))
        return np.ndarray.__getitem__(self, key)

    def max(self, axis=None, *a, **k):
        if axis is None and self.dtype == object and has_sym(self):
            return _reduce1(list(self.ravel()), 'max', False)
        return np.ndarray.max(self, axis, *a, **k)

    def min(self, axis=None, *a, **k):
        if axis is None and self.dtype == object and has_sym(self):
            return _reduce1(list(self.ravel()), 'min', False)
        return np.ndarray.min(self, axis, *a, **k)


def _ite_index(arr, i):
    n = len(arr)
    if not is_sym(i):
        return arr[int(i)]
    if not bool((i >= -n) & (i < n)):
        raise IndexError('index out of bounds')
    r = arr[n - 1]
    for k in range(n - 2, -1, -1):
        r = ite((i == k) | (i == k - n), arr[k], r)
    return r


def mk(lst, shape=None):
    a = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        a[i] = v
    if shape is not None:
        a = a.reshape(shape)
    return a.view(SymArr)


def wrap(a):
    if type(a) is np.ndarray and a.dtype == object and has_sym(a):
        return a.view(SymArr)
    return a


def _is_floatdtype(dt):
    try:
        return np.dtype(dt).kind == 'f'
    except Exception:
        return False


def sym_astype(a, dtype):
    """astype for object arrays with symbolic cells"""
    try:
        dt = np.dtype(dtype)
    except TypeError:
        return a
    if dt == object:
        return a.copy()
    if dt.kind == 'f':
        out = []
        for v in a.ravel():
            if type(v) is SBool:
                v = ite(v, 1.0, 0.0)
                v = SReal(SReal.lift(v))
            elif type(v) is SInt:
                v = v.toreal()
            elif is_sym(v):
                if type(v) is not SReal:
                    raise TypeError('cannot convert %s to float' % type(v))
            else:
                v = np.float64(v)
            out.append(v)
        return mk(out, a.shape)
    if dt.kind in 'iu':
        out = []
        for v in a.ravel():
            if type(v) is SBool:
                v = SInt(SInt.lift(v))
            elif type(v) is SReal:
                v = SInt(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
            elif isnull(v):
                raise pd.errors.IntCastingNaNError('Cannot convert non-finite values (NA or inf) to integer')
            elif not is_sym(v):
                v = int(v)
            out.append(v)
        if not any(is_sym(v) for v in out):
            return np_array(out, dtype=dt).reshape(a.shape)
        return mk(out, a.shape)
    if dt.kind == 'b':
        return np_array([bool(v) for v in a.ravel()], dtype=bool).reshape(a.shape)
    if dt.kind in 'Mm':
        return a.copy()
    if dt.kind in 'US':
        return np_array([str(v) for v in a.ravel()], dtype=object).reshape(a.shape)
    raise EngineGap('astype %r' % dt)


# ---------------------------------------------------------------- reductions
def sorted_sym(vals):
    """insertion sort, forking on comparisons"""
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and bool(v < out[i - 1]):
            i -= 1
        out.insert(i, v)
    return out


def _quantile(vals, q):
    """linear interpolation quantile of a list of numbers (0<=q<=1)"""
    s = sorted_sym(vals)
    n = len(s)
    pos = Fraction(q).limit_denominator(10 ** 9) * (n - 1)
    lo = pos.numerator // pos.denominator
    fr = pos - lo
    if fr == 0 or lo + 1 >= n:
        return s[lo]
    return s[lo] + (s[lo + 1] - s[lo]) * SReal(core._num_to_z3(fr))


def _reduce1(vals, op, skipna):
    nn = [v for v in vals if not isnull(v)]
    if len(nn) < len(vals) and not skipna:
        return np.nan if not any(isinstance(v, (STime, STd)) for v in nn) else pd.NaT
    if op == 'sum':
        r = 0.0
        for v in nn:
            r = v + r
        return r
    if not nn:
        return pd.NaT if any(v is pd.NaT for v in vals) else np.nan
    if op == 'mean':
        r = nn[0]
        for v in nn[1:]:
            r = r + v
        return r / float(len(nn))
    if op == 'min':
        return smin(nn) if not any(core.SReal.special(v) for v in nn) else _fork_min(nn, operator.lt)
    if op == 'max':
        return smax(nn) if not any(core.SReal.special(v) for v in nn) else _fork_min(nn, operator.gt)
    if op == 'median':
        return _quantile(nn, Fraction(1, 2))
    raise EngineGap(op)


def _fork_min(nn, f):
    r = nn[0]
    for v in nn[1:]:
        if bool(f(v, r)):
            r = v
    return r


def _var(vals, ddof, skipna=True):
    nn = [v for v in vals if not isnull(v)]
    if len(nn) - ddof <= 0:
        return np.nan
    m = _reduce1(nn, 'mean', True)
    r = 0.0
    for v in nn:
        r = (v - m) * (v - m) + r
    return r / float(len(nn) - ddof)


def _apply_axis(a, axis, f):
    a = np.asarray(a, dtype=object)
    if axis is None or a.ndim == 1:
        return f(list(a.ravel()))
    if a.ndim != 2:
        raise EngineGap('ndim')
    lanes = a.T if axis in (0, -2) else a
    return mk([f(list(l)) for l in lanes])


def _patch(mod, name, new):
    ORIG.setdefault((mod, name), getattr(mod, name))
    setattr(mod, name, new)


def _wrap_np(name, symf, argi=0, objs=False):
    orig = getattr(np, name)

    def w(*a, **k):
        if a and (has_sym(a[argi]) or objs and isinstance(a[argi], np.ndarray) and a[argi].dtype == object):
            return symf(*a, **k)
        return orig(*a, **k)
    w.__name__ = name
    if orig in pd_com._cython_table:     # pandas recognises numpy reductions handed to agg
        pd_com._cython_table[w] = pd_com._cython_table[orig]
    _patch(np, name, w)
    return w


def _elem(f):
    def g(a, *r, **k):
        if is_sym(a):
            return f(a)
        if isinstance(a, (pd.Series, pd.Index)):
            res = g(np.asarray(a._values, dtype=object))
            return pd.Series(res, index=a.index, name=a.name) if isinstance(a, pd.Series) else res
        a = np.asarray(a, dtype=object)
        out = [f(v) for v in a.ravel()]
        if all(isinstance(v, (bool, np.bool_)) and not is_sym(v) for v in out):
            return np_array(out, dtype=bool).reshape(a.shape)
        return mk(out, a.shape)
    return g


def sym_isin(element, test_elements, *a, **k):
    if isinstance(element, (pd.Series, pd.Index)):
        element = element._values
    el = np.asarray(element, dtype=object)
    if is_sym(test_elements) or not hasattr(test_elements, '__len__'):
        tests = [(True, test_elements)]
    elif isinstance(test_elements, GuardedDates):
        tests = test_elements.items
    else:
        if isinstance(test_elements, (pd.Series, pd.Index)):
            tests = [(True, v) for v in test_elements]
        else:
            tests = [(True, v) for v in np.asarray(test_elements, dtype=object).ravel()]
    out = []
    for v in el.ravel():
        if not is_sym(v) and isinstance(v, np.datetime64):
            v = pd.Timestamp(v)
        acc = SBool(z3.BoolVal(False))
        for g, t in tests:
            if isnull(t) or isnull(v):
                continue
            r = (v == t)
            if r is NotImplemented:
                r = False
            acc = acc | (SBool(SBool.lift(r)) & SBool(SBool.lift(g)))
        e = z3.simplify(acc.e)
        out.append(True if z3.is_true(e) else False if z3.is_false(e) else SBool(e))
    if not any(is_sym(v) for v in out):
        return np_array(out, dtype=bool).reshape(el.shape)
    return mk(out, el.shape)


class GuardedDates:
    """Set of concrete dates each present under a condition (holidays between symbolic dates)."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        raise EngineGap('len of guarded dates')

    def __iter__(self):
        return iter([d for g, d in self.items if bool(SBool(SBool.lift(g)))])

    def forced(self):
        return pd.DatetimeIndex([d for d in iter(self)])

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return getattr(self.forced(), n)


def sym_arange(*a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        (start, stop), step = a, 1
    else:
        start, stop, step = a
    ex = (stop - start) / step
    if is_sym(ex):
        n = math.ceil(ex)
    else:
        n = int(math.ceil(ex))
    if n > 3000:
        ctx().abort('arange bound')
    out = [start + i * step for i in range(max(n, 0))]
    return mk([v if is_sym(v) else np.float64(v) for v in out])


def sym_percentile(a, q, axis=None, *r, **k):
    qs = np.asarray(q)
    if qs.ndim:
        return mk([sym_percentile(a, float(x), axis) for x in qs])
    f = Fraction(float(q)).limit_denominator(10 ** 6) / 100
    return _apply_axis(a._values if isinstance(a, (pd.Series, pd.Index)) else a, axis, lambda v: np.nan if any(isnull(x) for x in v) else _quantile(v, f))


def sym_heaviside(a, h):
    h = float(h)

    def f(v):
        if isnull(v):
            return np.nan
        if not is_sym(v):
            return np.float64(0.0 if v < 0 else 1.0 if v > 0 else h)
        return ite(v < 0, 0.0, ite(v > 0, 1.0, SReal(core._num_to_z3(h)))) if h not in (0.0, 1.0) else \
            SReal(SReal.lift(ite(v >= 0 if h == 1.0 else v > 0, 1.0, 0.0)))
    return _elem(f)(a)


def install_numpy():
    _wrap_np('isnan', _elem(isnull), objs=True)
    _wrap_np('isfinite', _elem(lambda v: not isnull(v) and SReal.special(v) is None), objs=True)
    _wrap_np('isinf', _elem(lambda v: SReal.special(v) in ('inf', '-inf')), objs=True)
    for nm in ('exp', 'log', 'sin', 'cos', 'sqrt', 'floor', 'ceil', 'rint', 'trunc', 'log1p', 'expm1', 'log2', 'log10', 'tanh'):
        o = getattr(np, nm)

        def un(v, _o=o, _n=nm):
            if is_sym(v):
                f = getattr(v, _n, None)
                if f is None:
                    raise EngineGap('np.%s' % _n)
                return f()
            return _o(np.float64(v))
        _wrap_np(nm, _elem(un), objs=True)
    for nm, op, skip in (('nansum', 'sum', True), ('nanmean', 'mean', True), ('nanmin', 'min', True),
                         ('nanmax', 'max', True), ('nanmedian', 'median', True), ('median', 'median', False)):
        _wrap_np(nm, lambda a, axis=None, *r, _op=op, _s=skip, **k: _apply_axis(
            a._values if isinstance(a, (pd.Series, pd.Index)) else a, axis, lambda v: _reduce1(v, _op, _s)))
    for nm, op in (('min', 'min'), ('max', 'max'), ('amin', 'min'), ('amax', 'max')):
        orig = getattr(np, nm)
        def w(a, axis=None, *r, _op=op, _o=orig, **k):
            if isinstance(a, (np.ndarray, list, tuple)) and has_sym(a):
                return _apply_axis(a, axis, lambda v: _reduce1(v, _op, False))
            return _o(a, axis, *r, **k)
        _patch(np, nm, w)
    _wrap_np('percentile', sym_percentile)
    _wrap_np('nanpercentile', lambda a, q, axis=None, *r, **k: sym_percentile(
        mk([v for v in np.asarray(a, dtype=object).ravel() if not isnull(v)]), q))
    _wrap_np('quantile', lambda a, q, axis=None, *r, **k: sym_percentile(a, np.asarray(q) * 100, axis))
    _wrap_np('var', lambda a, axis=None, dtype=None, out=None, ddof=0, **k: a.var(ddof=ddof) if isinstance(a, pd.Series) else _apply_axis(a, axis, lambda v: _var(v, ddof)))
    _wrap_np('std', lambda a, axis=None, dtype=None, out=None, ddof=0, **k: np.sqrt(_apply_axis(a, axis, lambda v: _var(v, ddof))))
    oh = np.heaviside
    def heaviside(a, h, *r, **k):
        if has_sym(a) or (isinstance(a, np.ndarray) and a.dtype == object):
            return sym_heaviside(a, h)
        return oh(a, h, *r, **k)
    _patch(np, 'heaviside', heaviside)
    for nm in ('isin', 'in1d'):
        orig = getattr(np, nm)
        def isin(el, te, *a, _o=orig, **k):
            if isinstance(te, GuardedDates) or has_sym(el) or has_sym(te):
                r = sym_isin(el, te)
                if k.get('invert'):
                    r = ~r
                return r
            return _o(el, te, *a, **k)
        _patch(np, nm, isin)
    oa = np.arange
    def arange(*a, **k):
        if any(is_sym(v) for v in a):
            return sym_arange(*a)
        return oa(*a, **k)
    _patch(np, 'arange', arange)
    for nm in ('concatenate', 'hstack', 'vstack', 'stack', 'append', 'repeat', 'cumsum', 'diff', 'where', 'tile',
               'reshape', 'ravel', 'atleast_1d', 'squeeze', 'clip', 'minimum', 'maximum', 'full'):
        orig = getattr(np, nm)
        if nm in ('minimum', 'maximum'):
            continue
        def w(*a, _o=orig, **k):
            return wrap(_o(*a, **k))
        w.__name__ = nm
        _patch(np, nm, w)
    oi = np.issubdtype
    def issubdtype(a, b):
        if isinstance(a, (pd.Series, np.ndarray, pd.Index)) and has_sym(a):
            return _kind(a) == 'num' and b in (np.float64, np.floating, np.number, float, np.inexact)
        return oi(a, b)
    _patch(np, 'issubdtype', issubdtype)
    # math
    for nm in ('log', 'exp', 'sqrt', 'sin', 'cos'):
        orig = getattr(math, nm)
        def m(x, *a, _o=orig, _n=nm):
            if is_sym(x):
                if type(x) is SFPType():
                    return getattr(x, _n)()
                if _n == 'log':
                    if not bool(x > 0):
                        raise ValueError('math domain error')
                    return x.log()
                r = getattr(x, _n)()
                if _n == 'sqrt' and isnull(r):
                    raise ValueError('math domain error')
                return r
            return _o(x, *a)
        _patch(math, nm, m)
    for nm in ('isnan', 'isinf', 'isfinite'):
        orig = getattr(math, nm)
        def m(x, _o=orig, _n=nm):
            if is_sym(x):
                if type(x) is SFPType():
                    return getattr(x, _n)()
                return _n == 'isfinite'
            return _o(x)
        _patch(math, nm, m)
    om = math.pow
    _patch(math, 'pow', lambda a, b: a ** b if is_sym(a) or is_sym(b) else om(a, b))
    of = math.fabs
    _patch(math, 'fabs', lambda a: abs(a) if is_sym(a) else of(a))


def _bcast(*arrs):
    """broadcast arguments to one shape; returns (shape, lists)"""
    al = []
    for a in arrs:
        if isinstance(a, (pd.Series, pd.Index)):
            a = a._values
        if is_sym(a):
            t = np.empty((), dtype=object)
            t[()] = a
            a = t
        al.append(np.asarray(a, dtype=object))
    bs = np.broadcast_arrays(*al)
    return bs[0].shape, [list(b.ravel()) for b in bs]


def _nonfinite(v):
    return isnull(v) or SReal.special(v) is not None


def _close1(a, b, rtol, atol, equal_nan=False):
    if isnull(a) or isnull(b):
        return bool(equal_nan and isnull(a) and isnull(b))
    if _nonfinite(a) or _nonfinite(b):
        return SReal.special(a) is not None and SReal.special(a) == SReal.special(b)
    return abs(a - b) <= atol + rtol * abs(b)


def sym_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    shape, (la, lb) = _bcast(a, b)
    out = [_close1(u, v, rtol, atol, equal_nan) for u, v in zip(la, lb)]
    return out[0] if shape == () else mk(out, shape)


def sym_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineGap('np.interp period')
    xp, fp = list(xp), list(fp)

    def f(v):
        if isnull(v):
            return np.nan
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        for i in range(len(xp) - 1):
            if bool(v < xp[i + 1]):
                return fp[i] + (v - xp[i]) * (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
        return fp[-1] if right is None or bool(v == xp[-1]) else right
    return _elem(f)(x) if not is_sym(x) else f(x)


def sym_cov(m, y=None, ddof=1):
    rows = [list(r) for r in np.atleast_2d(np.asarray(m, dtype=object))]
    if y is not None:
        rows += [list(r) for r in np.atleast_2d(np.asarray(y, dtype=object))]
    n = len(rows[0])
    ms = [sum(r) / n for r in rows]
    out = [[sum((u - ms[i]) * (v - ms[j]) for u, v in zip(rows[i], rows[j])) / (n - ddof) for j in range(len(rows))]
           for i in range(len(rows))]
    return out


def install_numpy2():
    def either(name, f, args=(0, 1)):
        orig = getattr(np, name)

        def w(*a, **k):
            if any(has_sym(a[i]) or is_sym(a[i]) for i in args if i < len(a)):
                return f(*a, **k)
            return orig(*a, **k)
        w.__name__ = name
        _patch(np, name, w)
    either('isclose', sym_isclose)
    either('allclose', lambda a, b, rtol=1e-05, atol=1e-08, equal_nan=False: all(
        bool(v) for v in np.asarray(sym_isclose(a, b, rtol, atol, equal_nan), dtype=object).ravel()))
    either('interp', sym_interp, (0, 1, 2))
    either('isposinf', _elem(lambda v: SReal.special(v) == 'inf'), (0,))
    either('isneginf', _elem(lambda v: SReal.special(v) == '-inf'), (0,))
    either('linspace', lambda start, stop, num=50, endpoint=True, **k: mk(
        [start + (stop - start) * i / max(num - (1 if endpoint else 0), 1) for i in range(num)]), (0, 1))

    def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
        r = sym_cov(m, y, ddof if ddof is not None else 0 if bias else 1)
        return mk([v for row in r for v in row], (len(r), len(r))) if len(r) > 1 else r[0][0]
    either('cov', cov)

    def corrcoef(m, y=None, *a, **k):
        r = sym_cov(m, y, 0)
        n = len(r)
        out = []
        for i in range(n):
            for j in range(n):
                d = r[i][i] * r[j][j]
                out.append(np.nan if bool(d == 0) else 1.0 if i == j else r[i][j] / (d.sqrt() if is_sym(d) else d ** .5))
        return mk(out, (n, n))
    either('corrcoef', corrcoef)

    # np.array(values, dtype=float) of symbolic values stays symbolic
    for nm in ('array', 'asarray', 'asanyarray', 'fromiter', 'ascontiguousarray'):
        orig = getattr(np, nm)

        def conv_float(o, dtype=None, *a, _o=orig, _n=nm, **k):
            if dtype is not None and type(o) in (list, tuple, SymArr, pd.Series) and _is_floatdtype(dtype) and has_sym(o):
                if type(o) is pd.Series:
                    o = o._values
                r = np_array(o, dtype=object)
                if any(isinstance(v, str) for v in r.ravel()):
                    raise EngineGap('text to float')
                return sym_astype(r.view(SymArr), np.dtype(float))
            if dtype is not None:
                return _o(o, dtype, *a, **k)
            return _o(o, *a, **k)
        conv_float.__name__ = nm
        if nm == 'fromiter':
            def fromiter(it, dtype, *a, _o=orig, **k):
                if _is_floatdtype(dtype):
                    it = list(it)
                    if has_sym(it):
                        return mk(it)
                return _o(it, dtype, *a, **k)
            conv_float = fromiter
        _patch(np, nm, conv_float)
    either('deg2rad', _elem(lambda v: v * (math.pi / 180)), (0,))
    either('radians', _elem(lambda v: v * (math.pi / 180)), (0,))
    either('tan', lambda a: np.sin(a) / np.cos(a), (0,))
    either('exp2', lambda a: np.exp(a * math.log(2)), (0,))
    either('hypot', lambda a, b: np.sqrt(np.asarray(a) * a + np.asarray(b) * b))
    mh = math.hypot
    _patch(math, 'hypot', lambda *a: math.sqrt(sum(v * v for v in a)) if any(is_sym(v) for v in a) else mh(*a))
    tn = pd.to_numeric
    _patch(pd, 'to_numeric', lambda arg, *a, **k: arg if has_sym(arg) and not any(
        isinstance(v, str) for v in (arg if hasattr(arg, '__len__') else [arg])) else tn(arg, *a, **k))
    mi = math.isclose
    _patch(math, 'isclose', lambda a, b, rel_tol=1e-09, abs_tol=0.0: bool(
        a == b or abs(a - b) <= smax([smax([abs(a), abs(b)]) * rel_tol, abs_tol])) if is_sym(a) or is_sym(b) else
        mi(a, b, rel_tol=rel_tol, abs_tol=abs_tol))
    mf = math.fsum
    def fsum(it):
        it = list(it)
        return sum(it, 0.0) if has_sym(it) else mf(it)
    _patch(math, 'fsum', fsum)
    # rolling windows of symbolic series
    from pandas.core.window.rolling import Rolling
    for nm in ('mean', 'sum', 'median', 'min', 'max', 'std', 'var'):
        orig = getattr(Rolling, nm)

        def roll(self, *a, _o=orig, _n=nm, **k):
            ob = self.obj
            if not isinstance(ob, pd.Series) or not has_sym(ob):
                return _o(self, *a, **k)
            if not isinstance(self.window, (int, np.integer)) or self.win_type is not None or self.closed is not None:
                raise EngineGap('rolling window')
            vals, n, w = list(ob._values), len(ob), int(self.window)
            off = (w - 1) // 2 if self.center else 0
            mp = w if self.min_periods is None else self.min_periods
            out = []
            for i in range(n):
                ww = [v for v in vals[max(i + off - w + 1, 0):max(i + off + 1, 0)] if not isnull(v)]
                if len(ww) < max(mp, 1):
                    out.append(np.nan)
                elif _n in ('std', 'var'):
                    v = _var(ww, k.get('ddof', 1))
                    out.append(v if _n == 'var' or isnull(v) else v.sqrt() if is_sym(v) else v ** .5)
                else:
                    out.append(_reduce1(ww, _n, True))
            return pd.Series(mk(out), index=ob.index, name=ob.name)
        _patch(Rolling, nm, roll)


def SFPType():
    from . import fp
    return fp.SFloat


def _kind(a):
    """'num', 'date', 'td', 'bool' or 'mixed' for an object container with symbolic cells"""
    vals = [v for v in np.asarray(a._values if isinstance(a, (pd.Series, pd.Index)) else a, dtype=object).ravel()
            if not isnull(v)]
    ks = set()
    for v in vals:
        t = type(v)
        if t in (SReal, SInt) or (not is_sym(v) and isinstance(v, (int, float, np.number)) and not isinstance(v, (bool, np.bool_))):
            ks.add('num')
        elif t is STime or core.is_date(v) and not isinstance(v, str):
            ks.add('date')
        elif t is STd or core.is_td(v):
            ks.add('td')
        elif t is SBool or isinstance(v, (bool, np.bool_)):
            ks.add('bool')
        else:
            ks.add('mixed')
    return ks.pop() if len(ks) == 1 else 'mixed'


# ---------------------------------------------------------------- pandas
class SymDt:
    def __init__(self, s):
        self.s = s

    def _map(self, f):
        vals = [f(v) if not isnull(v) else np.nan for v in self.s]
        return pd.Series(conv(vals), index=self.s.index, name=self.s.name)

    def __getattr__(self, n):
        if n in ('weekday', 'dayofweek', 'day_of_week'):
            return self._map(lambda v: v.weekday())
        if n in ('day', 'month', 'year', 'hour', 'minute', 'second', 'quarter', 'days', 'seconds', 'dayofyear',
                 'day_of_year', 'is_month_start', 'is_month_end', 'date', 'days_in_month', 'daysinmonth'):
            if n == 'daysinmonth':
                n = 'days_in_month'
            def g(v):
                r = getattr(v, n)
                return r() if n == 'date' else r
            return self._map(g)
        if n in ('normalize', 'total_seconds', 'strftime', 'floor'):
            return lambda *a: self._map(lambda v: getattr(v, n)(*a))
        raise EngineGap('dt.%s' % n)


def conv(vals):
    """list -> array; native dtype when nothing symbolic"""
    if any(is_sym(v) for v in vals):
        return np.asarray(mk(vals))
    return np_array(vals) if vals else np_array([], dtype=float)


def sym_date_range(start=None, end=None, periods=None, freq=None, tz=None, normalize=False, name=None, **k):
    c = ctx()
    if freq is None:
        freq = 'D'
    if isinstance(freq, STd) or core.is_td(freq):
        raise EngineGap('date_range step')
    fr = freq if isinstance(freq, str) else freq.freqstr
    s = STime.lift(start) if start is not None else None
    e = STime.lift(end) if end is not None else None
    if s is None:
        raise EngineGap('date_range without start')
    lim = 420
    out = []
    if fr in ('D', 'H') or fr.startswith('W'):
        if fr.startswith('W'):
            tgt = {'MON': 0, 'TUE': 1, 'WED': 2, 'THU': 3, 'FRI': 4, 'SAT': 5, 'SUN': 6}[fr[2:] or 'SUN']
            off = SInt((tgt - s.weekday().e) % 7)
            cur = s + SymOffset({'days': off})
            step = Fraction(7)
        else:
            cur = s
            step = Fraction(1) if fr == 'D' else Fraction(1, 24)
        span = z3.simplify(e.t - cur.t, som=True) if periods is None else None
        if span is not None and fr.startswith('W'):
            off = int(off)
            cur = s + SymOffset({'days': off})
            span = z3.simplify(e.t - s.t - off, som=True)
        if span is not None and z3.is_rational_value(span):  # fixed length
            n = math.floor(Fraction(span.numerator_as_long(), span.denominator_as_long()) / step) + 1
            if n > 6000:
                c.abort('date_range bound')
            out = [STime(cur.t + core._q(i * step)) for i in range(max(n, 0))]
            periods = 0
        while True:
            if periods is not None:
                if len(out) >= int(periods):
                    break
            elif not bool(cur <= e):
                break
            out.append(cur)
            cur = STime(cur.t + core._q(step))
            if len(out) > lim:
                c.abort('date_range bound')
    else:
        sc = s.concrete()
        if e is not None:
            hi = core.DATE_HI
            cand = ORIG[pd, 'date_range'](sc, hi, freq=freq)
            for d in cand:
                if not bool(STime.lift(d) <= e):
                    break
                out.append(STime.lift(d))
                if len(out) > lim:
                    c.abort('date_range bound')
        else:
            out = [STime.lift(d) for d in ORIG[pd, 'date_range'](sc, periods=int(periods), freq=freq)]
    return pd.Index(np.asarray(mk(out)), name=name, dtype=object)


class ClsProxy:
    """Stands for a pandas class in the code under test; calls with symbolic arguments are modelled."""

    def __init__(self, real, f):
        self.__dict__['_real'] = real
        self.__dict__['_f'] = f

    def __call__(self, *a, **k):
        if any(has_sym(v) for v in a) or any(has_sym(v) for v in k.values()):
            return self._f(*a, **k)
        return self._real(*a, **k)

    def __instancecheck__(self, x):
        if self._real is pd.DatetimeIndex and isinstance(x, pd.Index) and x.dtype == object and len(x) and \
                has_sym(x) and _kind(x) == 'date':
            return True
        return isinstance(x, self._real)

    def __subclasscheck__(self, x):
        return issubclass(x, self._real)

    def __getattr__(self, n):
        return getattr(self._real, n)

    def __eq__(self, o):
        return o is self._real or o is self

    def __hash__(self):
        return hash(self._real)


class ModProxy:
    def __init__(self, real, over):
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over

    def __getattr__(self, n):
        o = self.__dict__['_over']
        if n in o:
            return o[n]
        return getattr(self.__dict__['_real'], n)

    def __setattr__(self, n, v):
        self.__dict__['_over'][n] = v

    def __delattr__(self, n):
        self.__dict__['_over'].pop(n, None)


_TDU = {'D': Fraction(1), 'd': Fraction(1), 'days': Fraction(1), 'day': Fraction(1), 'h': Fraction(1, 24),
        'H': Fraction(1, 24), 'hours': Fraction(1, 24), 'W': Fraction(7), 'w': Fraction(7), 's': Fraction(1, 86400),
        'm': Fraction(1, 1440), 'min': Fraction(1, 1440)}


def mk_timedelta(value=None, unit=None, **kw):
    if value is None:
        return STd(SymOffset({k: v for k, v in kw.items()}).fixed_days())
    if type(value) is STd:
        return value
    if isinstance(value, (pd.Series, np.ndarray, pd.Index, list)):
        vals = [mk_timedelta(v, unit) if is_sym(v) else pd.Timedelta(v, unit=unit) for v in value]
        if isinstance(value, pd.Series):
            return pd.Series(conv(vals), index=value.index, name=value.name)
        return pd.Index(np.asarray(mk(vals)))
    m = _TDU[unit or 'D'] if unit else None
    if m is None:
        raise EngineGap('Timedelta unit')
    i = SInt.lift(value)
    if i is not None and m.denominator == 1:
        return STd(i * int(m))
    return STd(SReal.lift(value) * core._num_to_z3(m))


def to_datetime(arg, *a, **k):
    if isinstance(arg, GuardedDates):
        return arg
    if has_sym(arg):
        if isinstance(arg, (list, tuple, np.ndarray)):
            lst = [v if is_sym(v) else STime.lift(pd.Timestamp(v)) for v in arg]
            return pd.Index(np.asarray(mk(lst)), dtype=object)
        if isinstance(arg, (pd.Series, pd.Index)) and _kind(arg) == 'num':
            raise EngineGap('to_datetime of numbers')
        return arg
    return ORIG[pd, 'to_datetime'](arg, *a, **k)


def mk_datetimeindex(data=None, *a, **k):
    if isinstance(data, GuardedDates):
        return data.forced()
    vals = list(data)
    name = k.get('name', getattr(data, 'name', None))
    return pd.Index(np.asarray(mk([STime.lift(v) if not isnull(v) else pd.NaT for v in vals])), dtype=object, name=name)


def mk_timestamp(x=None, *a, **k):
    if type(x) is STime:
        return x
    raise EngineGap('Timestamp of symbolic parts')


def _interp_list(vals):
    """pandas interpolate(method='linear', limit_direction='forward')"""
    n = len(vals)
    known = [i for i in range(n) if not isnull(vals[i])]
    out = list(vals)
    if not known:
        return out
    for i in range(n):
        if isnull(vals[i]) and i > known[0]:
            nxt = [k for k in known if k > i]
            prv = max(k for k in known if k < i)
            if not nxt:
                out[i] = vals[prv]
            else:
                q = nxt[0]
                out[i] = vals[prv] + (vals[q] - vals[prv]) * SReal(core._num_to_z3(Fraction(i - prv, q - prv)))
    return out


def install_pandas():
    for cls in (SReal, SInt, SBool, STime, STd):
        import numbers
        numbers.Number.register(cls)

    # reductions
    def red(name, fn):
        orig = getattr(nanops, name)

        def w(values, *a, axis=None, skipna=True, **k):
            if isinstance(values, np.ndarray) and values.dtype == object and has_sym(values):
                return _apply_axis(values, axis, lambda v: fn(v, skipna, k))
            if name in ('nanmin', 'nanmax') and isinstance(values, np.ndarray) and values.dtype == object and values.ndim == 1 \
                    and len(values) and all(v is pd.NaT for v in values):
                return pd.NaT
            if axis is not None:
                k['axis'] = axis
            if isinstance(values, SymArr):
                values = values.view(np.ndarray)
            return orig(values, *a, skipna=skipna, **k)
        w.__name__ = name
        _patch(nanops, name, w)
    # multi-column sorts: comparisons fork instead of hashing cells
    from pandas.core import sorting as pd_sorting
    from pandas.core import frame as pd_frame
    from pandas.core.indexes import multi as pd_multi
    lex = pd_sorting.lexsort_indexer

    def lexsort_indexer(keys, orders=None, na_position='last', key=None):
        keys = list(keys)
        if not any(has_sym(k) for k in keys):
            return lex(keys, orders=orders, na_position=na_position, key=key)
        if key is not None:
            raise EngineGap('sort key function')
        cols = [list(k) for k in keys]
        n = len(cols[0])
        orders = [True] * len(cols) if orders is None else [orders] * len(cols) if isinstance(orders, (bool, np.bool_)) else list(orders)

        def less(a, b):
            for c, asc in zip(cols, orders):
                u, v = c[a], c[b]
                nu, nv = bool(isnull(u)), bool(isnull(v))
                if nu or nv:
                    if nu and nv:
                        continue
                    return nv if na_position == 'last' else nu
                if not is_sym(u) and not is_sym(v):
                    if u == v:
                        continue
                    return bool(u < v) == bool(asc)
                if bool(u < v):
                    return bool(asc)
                if bool(v < u):
                    return not asc
            return False
        out = []
        for r in range(n):
            i = len(out)
            while i > 0 and less(r, out[i - 1]):
                i -= 1
            out.insert(i, r)
        return np_array(out, dtype=np.intp)
    for m in (pd_sorting, pd_frame, pd_multi):
        _patch(m, 'lexsort_indexer', lexsort_indexer)
    from pandas.core import algorithms as pd_alg
    from pandas.core import base as pd_base
    odup = pd_alg.duplicated

    def duplicated(values, keep='first'):
        v = getattr(values, '_values', values)
        if not (isinstance(v, np.ndarray) and v.dtype == object and has_sym(v)):
            return odup(values, keep=keep)
        v = list(v)
        n = len(v)

        def same(a, b):
            na, nb = bool(isnull(a)), bool(isnull(b))
            return na and nb if na or nb else bool(a == b)
        out = [False] * n
        for i in range(n):
            others = range(i) if keep == 'first' else range(i + 1, n) if keep == 'last' else [j for j in range(n) if j != i]
            out[i] = any(same(v[j], v[i]) for j in others)
        return np_array(out, dtype=bool)
    for m in (pd_alg, pd_base):
        if hasattr(m, 'duplicated'):
            _patch(m, 'duplicated', duplicated)

    # hash tables: equality of symbolic values forks instead of hashing (the hash of a symbolic integer is its value)
    def same(a, b):
        na, nb = bool(isnull(a)), bool(isnull(b))
        return na and nb if na or nb else bool(a == b)

    def sym_objects(v):
        return isinstance(v, np.ndarray) and v.dtype == object and v.ndim == 1 and has_sym(v)
    ofa, ouw = pd_alg.factorize_array, pd_alg.unique_with_mask

    def factorize_array(values, na_sentinel=-1, size_hint=None, na_value=None, mask=None):
        if not sym_objects(values):
            return ofa(values, na_sentinel=na_sentinel, size_hint=size_hint, na_value=na_value, mask=mask)
        uniques, codes = [], []
        for i, v in enumerate(list(values)):
            if na_sentinel is not None and (bool(isnull(v)) or (mask is not None and mask[i])):
                codes.append(na_sentinel)
                continue
            for j, u in enumerate(uniques):
                if same(u, v):
                    codes.append(j)
                    break
            else:
                codes.append(len(uniques))
                uniques.append(v)
        return np_array(codes, dtype=np.intp), mk_raw(uniques)

    def mk_raw(l):
        out = np.empty(len(l), dtype=object)
        for i, v in enumerate(l):
            out[i] = v
        return out

    def unique_with_mask(values, mask=None):
        v = getattr(values, '_values', values)
        if mask is not None or not sym_objects(v):
            return ouw(values, mask)
        return factorize_array(np.asarray(v), na_sentinel=None)[1]
    _patch(pd_alg, 'factorize_array', factorize_array)
    _patch(pd_alg, 'unique_with_mask', unique_with_mask)
    for cls in (pd_base.IndexOpsMixin, pd.Index):
        oiu = cls.__dict__.get('is_unique')
        if oiu is not None:
            def is_unique(self, _o=oiu):
                if sym_objects(self._values):
                    return not duplicated(self._values).any()
                return _o.func(self) if hasattr(_o, 'func') else _o.__get__(self, type(self))
            setattr(cls, 'is_unique', property(is_unique))
    red('nansum', lambda v, s, k: _reduce1(v, 'sum', s))
    red('nanmean', lambda v, s, k: _reduce1(v, 'mean', s))
    red('nanmin', lambda v, s, k: _reduce1(v, 'min', s))
    red('nanmax', lambda v, s, k: _reduce1(v, 'max', s))
    red('nanmedian', lambda v, s, k: _reduce1(v, 'median', s))
    red('nanvar', lambda v, s, k: _var(v, k.get('ddof', 1)))

    def _nanstd(v, s, k):
        r = _var(v, k.get('ddof', 1))
        return r.sqrt() if is_sym(r) else r
    red('nanstd', _nanstd)
    corr = nanops.nancorr

    def nancorr(a, b, method='pearson', min_periods=None):
        if getattr(a, 'dtype', None) != object and getattr(b, 'dtype', None) != object:
            return corr(a, b, method=method, min_periods=min_periods)
        ps = [(u, v) for u, v in zip(list(a), list(b)) if not bool(isnull(u)) and not bool(isnull(v))]
        a, b = [np_array([p[i] for p in ps], dtype=object) for i in (0, 1)]
        if not has_sym(a) and not has_sym(b):
            return corr(a.astype(float), b.astype(float), method=method, min_periods=min_periods)
        if method != 'pearson':
            raise EngineGap('correlation ' + method)
        n = len(a)
        if n < max(min_periods or 1, 2):
            return float('nan')
        ma, mb = sum(list(a)) / n, sum(list(b)) / n
        sab = sum((u - ma) * (v - mb) for u, v in zip(a, b))
        saa, sbb = sum((u - ma) * (u - ma) for u in a), sum((v - mb) * (v - mb) for v in b)
        d = saa * sbb
        if bool(d == 0):
            return float('nan')
        return sab / (d.sqrt() if is_sym(d) else d ** 0.5)
    _patch(nanops, 'nancorr', nancorr)

    # astype
    oa = pd_astype.astype_nansafe

    def astype_nansafe(arr, dtype, copy=True, skipna=False):
        if isinstance(arr, np.ndarray) and arr.dtype == object and has_sym(arr):
            r = sym_astype(arr, dtype)
            return np.asarray(r)
        return oa(arr, dtype, copy=copy, skipna=skipna) if _accepts_skipna(oa) else oa(arr, dtype, copy)
    _patch(pd_astype, 'astype_nansafe', astype_nansafe)
    oaa = pd_astype.astype_array

    def astype_array(values, dtype, copy=False):
        if isinstance(values, np.ndarray) and values.dtype == object and has_sym(values):
            return np.asarray(sym_astype(values, dtype))
        return oaa(values, dtype, copy)
    _patch(pd_astype, 'astype_array', astype_array)

    # .dt and datetime-like attributes of object Index
    odt = pd.Series.__dict__['dt']

    class DtProp:
        def __get__(self, obj, typ=None):
            if obj is not None and obj.dtype == object and has_sym(obj):
                return SymDt(obj)
            return odt.__get__(obj, typ)
    pd.Series.dt = DtProp()

    def idx_attr(n):
        def g(self):
            if self.dtype == object and has_sym(self):
                s = getattr(SymDt(pd.Series(self._values)), n)
                return pd.Index(s._values)
            raise AttributeError(n)
        return property(g)
    for n in ('weekday', 'dayofweek', 'day', 'month', 'year', 'days', 'hour', 'quarter', 'dayofyear'):
        if n not in pd.Index.__dict__:
            setattr(pd.Index, n, idx_attr(n))
    pd.Index.normalize = lambda self: pd.Index(SymDt(pd.Series(self._values)).normalize()._values)
    pd.Index.total_seconds = lambda self: pd.Index(SymDt(pd.Series(self._values)).total_seconds()._values)

    # .values keeps the symbolic subclass
    for cls in (pd.Series, pd.Index):
        ov = cls.values
        def getv(self, _o=ov):
            return wrap(_o.fget(self))
        cls.values = property(getv)
        on = cls.to_numpy
        def to_numpy(self, *a, _o=on, **k):
            if self.dtype == object and has_sym(self):
                return wrap(np_array(self._values, dtype=object))
            return _o(self, *a, **k)
        cls.to_numpy = to_numpy

    oq = pd.Series.quantile

    def quantile(self, q=0.5, interpolation='linear'):
        if self.dtype == object and has_sym(self):
            vals = [v for v in self if not isnull(v)]
            if isinstance(q, (list, tuple, np.ndarray)):
                return pd.Series([_quantile(vals, x) for x in q], index=list(q), dtype=object)
            return _quantile(vals, q) if vals else np.nan
        return oq(self, q, interpolation)
    pd.Series.quantile = quantile

    def s_nlargest(self, n=5, keep='first'):
        if self.dtype == object and has_sym(self):
            return self.iloc[_nl(list(self), n, keep)]
        return osn(self, n, keep)

    def _nl(vals, n, keep, f=operator.gt):
        if keep != 'first':
            raise EngineGap('nlargest keep')
        idx = []
        for i, v in enumerate(vals):
            if isnull(v):
                continue
            j = len(idx)
            while j > 0 and bool(f(v, vals[idx[j - 1]])):
                j -= 1
            idx.insert(j, i)
        idx += [i for i, v in enumerate(vals) if isnull(v)]
        return idx[:n]
    osn, odn = pd.Series.nlargest, pd.DataFrame.nlargest
    pd.Series.nlargest = s_nlargest

    def d_nlargest(self, n, columns, keep='first'):
        col = columns if isinstance(columns, str) else columns[0]
        if self[col].dtype == object and has_sym(self[col]):
            return self.iloc[_nl(list(self[col]), n, keep)]
        return odn(self, n, columns, keep)
    pd.DataFrame.nlargest = d_nlargest
    # idxmax / argmax on object series
    for nm, f in (('idxmax', operator.gt), ('idxmin', operator.lt)):
        o = getattr(pd.Series, nm)
        def idx(self, axis=0, skipna=True, *a, _o=o, _f=f, **k):
            if self.dtype == object and has_sym(self):
                i = _nl(list(self), 1, 'first', _f)[0]
                return np.nan if isnull(self.iloc[i]) else self.index[i]
            return _o(self, axis, skipna, *a, **k)
        setattr(pd.Series, nm, idx)
    for nm, f in (('argmax', operator.gt), ('argmin', operator.lt)):
        o = getattr(pd.Series, nm)
        def idx(self, axis=None, skipna=True, *a, _o=o, _f=f, **k):
            if self.dtype == object and has_sym(self):
                return _nl(list(self), 1, 'first', _f)[0]
            return _o(self, axis, skipna, *a, **k)
        setattr(pd.Series, nm, idx)

    osi, odi = pd.Series.interpolate, pd.DataFrame.interpolate

    def s_interp(self, method='linear', *a, **k):
        if self.dtype == object and (has_sym(self) or _numeric_obj(self)):
            if a or k or method != 'linear':
                raise EngineGap('interpolate options')
            return pd.Series(np.asarray(mk(_interp_list(list(self)))), index=self.index, name=self.name)
        return osi(self, method, *a, **k)
    pd.Series.interpolate = s_interp

    def d_interp(self, method='linear', *a, **k):
        if any(self.iloc[:, i].dtype == object and has_sym(self.iloc[:, i]) for i in range(self.shape[1])):
            out = self.copy()
            for cn in self.columns:
                col = self[cn]
                if col.dtype == object and not (has_sym(col) or _numeric_obj(col)):
                    continue
                out[cn] = s_interp(col, method, *a, **k)
            return out
        return odi(self, method, *a, **k)
    pd.DataFrame.interpolate = d_interp

    def _numeric_obj(s):
        v = [x for x in s if not isnull(x)]
        return bool(v) and all(isinstance(x, (int, float, np.number)) and not isinstance(x, (str, bool)) for x in v)

    oshift = pd.Series.shift

    def s_shift(self, periods=1, *a, **k):
        r = oshift(self, periods, *a, **k)
        if self.dtype == object and not a and not k and not any(v is None or isinstance(v, str) for v in self):
            fill = pd.NaT if _kind(self) in ('date', 'td') else np.nan
            return pd.Series(np.asarray(mk([fill if v is None else v for v in r])), index=r.index, name=r.name)
        return r
    pd.Series.shift = s_shift

    oisin = pd.Series.isin

    def s_isin(self, values):
        if isinstance(values, GuardedDates) or has_sym(self) or has_sym(values):
            return pd.Series(np.asarray(sym_isin(self, values)), index=self.index, name=self.name)
        return oisin(self, values)
    pd.Series.isin = s_isin
    for icls in (pd.Index, pd.DatetimeIndex):
        for cls in icls.__mro__:
            if 'isin' in cls.__dict__:
                def i_isin(self, values, level=None, _o=cls.__dict__['isin']):
                    if level is None and (isinstance(values, GuardedDates) or has_sym(self) or has_sym(values)):
                        return np.asarray(sym_isin(self, values))
                    return _o(self, values, level)
                if not getattr(cls.__dict__['isin'], '_symx', False):
                    i_isin._symx = True
                    cls.isin = i_isin
                break

    # the floor of a quotient of durations: numpy hands the whole array to Timedelta, which rejects object arrays
    from pandas.core import ops as pd_ops
    oao = pd_ops.arithmetic_op

    def arithmetic_op(left, right, op):
        if isinstance(left, np.ndarray) and left.dtype == object and has_sym(left) \
                and isinstance(right, (pd.Timedelta, np.timedelta64)) and op in (operator.floordiv, operator.mod):
            right = pd.Timedelta(right)
            return mk([op(v, right) for v in left.ravel()], left.shape)
        return oao(left, right, op)
    _patch(pd_ops, 'arithmetic_op', arithmetic_op)

    # asfreq for frames/series indexed by symbolic dates
    from pandas.core.generic import NDFrame
    oas = NDFrame.asfreq

    def asfreq(self, freq, *a, **k):
        if self.index.dtype == object and has_sym(self.index):
            if a or any(v is not None for v in k.values()):
                raise EngineGap('asfreq options')
            lo = hi = self.index[0]
            for v in list(self.index)[1:]:
                if v < lo:
                    lo = v
                elif v > hi:
                    hi = v
            idx = sym_date_range(lo, hi, freq=freq)
            idx.name = self.index.name
            return self.reindex(idx)
        return oas(self, freq, *a, **k)
    NDFrame.asfreq = asfreq
    pd.DataFrame.asfreq = asfreq
    pd.Series.asfreq = asfreq

    # rolling on 0/1 columns works natively; symbolic ones are not modelled
    def holiday_dates(self, start_date, end_date, return_name=False):
        if is_sym(start_date) or is_sym(end_date):
            return _guarded(lambda a, b: ohd(self, a, b), start_date, end_date)
        return ohd(self, start_date, end_date, return_name)
    ohd = Holiday.dates
    Holiday.dates = holiday_dates
    oh = AbstractHolidayCalendar.holidays

    def cal_holidays(self, start=None, end=None, return_name=False):
        if is_sym(start) or is_sym(end):
            return _guarded(lambda a, b: oh(self, a, b), start, end)
        return oh(self, start, end, return_name)
    AbstractHolidayCalendar.holidays = cal_holidays

    def _guarded(f, start, end):
        lo, hi = ctx_window()
        if not is_sym(start) and start is not None:
            lo = max(lo, pd.Timestamp(start))
        if not is_sym(end) and end is not None:
            hi = min(hi, pd.Timestamp(end))
        hs = f(lo, hi)
        items = []
        for h in hs:
            g = SBool(z3.BoolVal(True))
            t = STime.lift(h)
            if start is not None:
                g = g & (t >= start)
            if end is not None:
                g = g & (t <= end)
            items.append((g, h))
        return GuardedDates(items)

    _patch(pd, 'date_range', _mk_date_range(pd.date_range))
    _patch(pd, 'to_datetime', to_datetime)
    ott = pd.to_timedelta
    _patch(pd, 'to_timedelta', lambda arg, unit=None, **k: mk_timedelta(arg, unit) if has_sym(arg) else ott(arg, unit=unit, **k))
    oind = pd.api.types.is_numeric_dtype

    def is_numeric_dtype(x):
        if isinstance(x, (pd.Series, pd.Index, np.ndarray)) and has_sym(x):
            return _kind(x) == 'num'
        return oind(x)
    _patch(pd.api.types, 'is_numeric_dtype', is_numeric_dtype)
    for nm in ('is_datetime64_any_dtype', 'is_datetime64_dtype', 'is_datetime64_ns_dtype'):
        o = getattr(pd.api.types, nm)
        _patch(pd.api.types, nm, (lambda x, _o=o: _kind(x) == 'date' if isinstance(
            x, (pd.Series, pd.Index, np.ndarray)) and has_sym(x) else _o(x)))


WINDOW = [pd.Timestamp('2000-01-01'), pd.Timestamp('2031-12-31')]


def ctx_window():
    return WINDOW[0], WINDOW[1]


def _accepts_skipna(f):
    import inspect
    try:
        return 'skipna' in inspect.signature(f).parameters
    except Exception:
        return False


def _mk_date_range(orig):
    def date_range(start=None, end=None, *a, **k):
        if is_sym(start) or is_sym(end):
            names = ['periods', 'freq', 'tz', 'normalize', 'name']
            for n, v in zip(names, a):
                k[n] = v
            return sym_date_range(start, end, **k)
        return orig(start, end, *a, **k)
    return date_range


# ---------------------------------------------------------------- proxies handed to the repository modules
def _objfloat(a):
    """float array -> object array of np.float64, so that symbolic values can be stored later"""
    if isinstance(a, np.ndarray) and a.dtype.kind == 'f' and a.size <= 4096:
        o = np.empty(a.shape, dtype=object)
        of = o.ravel()
        af = a.ravel()
        for i in range(af.size):
            of[i] = np.float64(af[i])
        return of.reshape(a.shape).view(SymArr)
    return wrap(a)


def make_np_proxy():
    over = {}
    for nm in ('full', 'zeros', 'ones', 'empty', 'full_like', 'zeros_like', 'ones_like', 'empty_like'):
        def w(*a, _n=nm, **k):
            return _objfloat(getattr(np, _n)(*a, **k))
        over[nm] = w

    def array(obj, *a, **k):
        if isinstance(obj, (list, tuple)) or isinstance(obj, np.ndarray) and obj.dtype == object:
            if has_sym(obj) and not (a or k):
                return wrap(np_array(obj, dtype=object))
            return _objfloat(np_array(obj, *a, **k))
        return small(np_array(obj, *a, **k))
    over['array'] = array

    def small(r):
        # a copy of a few numbers may have symbolic values stored into it
        return _objfloat(r) if isinstance(r, np.ndarray) and r.dtype.kind == 'f' and r.ndim == 1 and r.size <= 16 else r
    over['copy'] = lambda *a, **k: small(np.copy(*a, **k))
    over['where'] = lambda *a, **k: small(np.where(*a, **k))
    oas = np.asarray

    def asarray(obj, *a, **k):
        if isinstance(obj, np.ndarray) and has_sym(obj):
            return obj
        if isinstance(obj, (list, tuple)):
            return array(obj, *a, **k)
        if has_sym(obj) and isinstance(obj, (pd.Series, pd.Index)):
            return obj.values
        return oas(obj, *a, **k)
    over['asarray'] = asarray
    return ModProxy(np, over)


def make_pd_proxy():
    over = {
        'DatetimeIndex': ClsProxy(pd.DatetimeIndex, mk_datetimeindex),
        'Timestamp': ClsProxy(pd.Timestamp, mk_timestamp),
        'Timedelta': ClsProxy(pd.Timedelta, mk_timedelta),
        'DateOffset': ClsProxy(pd.DateOffset, lambda n=1, normalize=False, **k: SymOffset(k)),
    }
    return ModProxy(pd, over)


# builtins the code under test calls by name
def sym_float(x=0.0, *a):
    t = type(x)
    if t is SReal:
        return x
    if t is SInt:
        return x.toreal()
    if t is SBool:
        return SReal(SReal.lift(x))
    if issubclass(t, np.ndarray) and x.dtype == object and x.size == 1 and has_sym(x):
        return sym_float(x.item())
    return builtins.float(x, *a)


def sym_float64(x=0.0, *a):
    if type(x) in (SReal, SInt, SBool):
        return sym_float(x)
    if isinstance(x, (list, tuple, np.ndarray, pd.Series)) and has_sym(x):
        return np.asarray(x, dtype=float)
    return np.float64(x, *a)


def sym_int(x=0, *a):
    if type(x) is SReal:
        return SInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if type(x) is SInt:
        return x
    return builtins.int(x, *a)


def sym_max(*a, **k):
    if not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and any(is_sym(x) for x in xs) and not any(isnull(x) or SReal.special(x) for x in xs):
            return smax(xs)
    return builtins.max(*a, **k)


def sym_min(*a, **k):
    if not k:
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and any(is_sym(x) for x in xs) and not any(isnull(x) or SReal.special(x) for x in xs):
            return smin(xs)
    return builtins.min(*a, **k)


_installed = False


def install():
    global _installed
    if not _installed:
        _installed = True
        install_numpy()
        install_numpy2()
        install_pandas()
