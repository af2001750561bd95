"""What a harness sees.  The same harness runs symbolically (SymEnv) and on concrete values (ConcEnv, used to replay
counterexamples and to validate the symbolic layer against the real code)."""
import math
import sys
from fractions import Fraction

import numpy as np
import pandas as pd

TOL = 1e-6


class Stop(BaseException):
    """ends a harness run early (outside the stated bounds)"""


class CheckFailed(BaseException):
    pass


def frac_str(f):
    f = Fraction(f)
    return '%d/%d' % (f.numerator, f.denominator)


class BaseEnv:
    def __init__(self, params):
        self.params = params
        self.restore = []

    def patch(self, obj, name, new):
        old = getattr(obj, name)
        self.restore.append((obj, name, old, name in getattr(obj, '__dict__', {})))
        setattr(obj, name, new)

    def unpatch(self):
        for obj, name, old, had in reversed(self.restore):
            setattr(obj, name, old)
        self.restore = []

    # convenient modules
    @property
    def mu(self):
        return sys.modules['anticipy.model_utils']

    @property
    def fm(self):
        return sys.modules['anticipy.forecast_models']

    @property
    def fc(self):
        return sys.modules['anticipy.forecast']

    @property
    def fp(self):
        return sys.modules['anticipy.forecast_plot']

    def reals(self, prefix, n, lo=None, hi=None):
        return [self.real('%s%d' % (prefix, i), lo, hi) for i in range(n)]

    def all_eq(self, a, b):
        """list of conditions: element-wise equality"""
        a, b = list(a), list(b)
        if len(a) != len(b):
            return [False]
        return [self.eq(x, y) for x, y in zip(a, b)]

    def call(self, f, *a, **k):
        """run code that may legitimately raise: ('ok', value) or ('err', exception)"""
        try:
            return 'ok', f(*a, **k)
        except Exception as e:
            from .core import EngineGap
            if isinstance(e, EngineGap):
                raise
            self.last_exc = e
            return 'err', e


class ConcEnv(BaseEnv):
    sym = False

    def __init__(self, params, values, structs):
        super().__init__(params)
        self.v = values
        self.s = structs
        self.failed = []
        self.obs = {}
        self.diverged = []
        self.reached = {}
        self.missing = []
        self.skipped = False

    def _get(self, name, default):
        if name in self.v:
            return self.v[name]
        self.missing.append(name)
        return default

    def real(self, name, lo=None, hi=None, strict=False):
        d = lo if lo is not None else (min(hi, 0) if hi is not None else 0)
        v = self._get(name, d if not strict else d + 1)
        return float(Fraction(v))

    def float64(self, name, lo, hi, integral=False):
        v = Fraction(self._get(name, lo))
        return int(v) if integral else float(v)

    def int(self, name, lo, hi):
        return int(Fraction(self._get(name, lo)))

    cint = int

    def bool(self, name):
        return bool(self._get(name, False))

    sbool = bool

    def choice(self, name, options):
        options = list(options)
        if name not in self.s:
            self.missing.append(name)
        return options[self.s.get(name, 0)]

    def date(self, name, lo, hi):
        lo = pd.Timestamp(lo)
        base = (lo - pd.Timestamp('1970-01-01')).days
        return pd.Timestamp('1970-01-01') + pd.Timedelta(days=int(Fraction(self._get(name, base))))

    def td(self, name, lo, hi):
        return pd.Timedelta(days=int(Fraction(self._get(name, lo))))

    def days(self, n):
        return pd.Timedelta(days=n)

    def hours(self, n):
        return pd.Timedelta(hours=int(n))

    def minutes(self, n):
        return pd.Timedelta(minutes=int(n))

    def days_real(self, x):
        return pd.Timedelta(days=float(x))

    def assume(self, cond):
        if not bool(cond):
            self.diverged.append('assumption')
            raise Stop()

    def stop(self):
        raise Stop()

    def skip_unless(self, cond):
        """replays only: this concrete input is numerically unsuitable (overflow); no verdict"""
        if not cond:
            self.skipped = True
            raise Stop()

    def check(self, label, conds, info=None):
        self.reached[label] = self.reached.get(label, 0) + 1
        if not isinstance(conds, (list, tuple)):
            conds = [conds]
        for i, c in enumerate(conds):
            if not bool(c):
                self.failed.append((label, i, str(info() if callable(info) else info)[:2000] if info is not None else ''))
                return False
        return True

    def provable(self, cond):
        return bool(cond)

    def observe(self, name, value):
        self.obs[name] = _plain(value)

    # comparisons with tolerance
    def eq(self, a, b):
        if isnull(a) or isnull(b):
            return isnull(a) and isnull(b)
        if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
            a, b = float(a), float(b)
            if math.isinf(a) or math.isinf(b):
                return a == b
            return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))
        return bool(a == b)

    def le(self, a, b):
        a, b = float(a), float(b)
        return a <= b + TOL * max(1.0, abs(a), abs(b))

    def lt(self, a, b):
        return bool(a < b)

    def ite(self, c, a, b):
        return a if c else b

    def min(self, xs):
        return min(xs)

    def max(self, xs):
        return max(xs)

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def arr(self, lst):
        return np.array([float(v) for v in lst], dtype=float)

    def iarr(self, lst):
        return np.array([int(v) for v in lst])

    def col(self, lst):
        return self.arr(lst)

    def dates(self, lst):
        return pd.DatetimeIndex(list(lst))

    def datecol(self, lst):
        return pd.Series(pd.DatetimeIndex(list(lst)))

    def frame(self, cols, index=None):
        return pd.DataFrame({k: (v.values if isinstance(v, pd.Series) else v) for k, v in cols.items()}, index=index)

    def exp(self, x): return math.exp(x)
    def log(self, x): return math.log(x)
    def pow(self, a, b): return float(np.power(float(a), float(b)))
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)

    def floor(self, x): return math.floor(x)
    def weekday(self, d): return d.weekday()
    def is_null(self, x): return isnull(x)
    def td_days(self, x): return x / pd.Timedelta(days=1)


def isnull(x):
    return x is None or x is pd.NaT or (isinstance(x, (float, np.floating)) and math.isnan(x)) or \
        (isinstance(x, (np.datetime64, np.timedelta64)) and np.isnat(x))


def _plain(v):
    if isinstance(v, (pd.Series, pd.Index)):
        v = list(v)
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isnull(v):
        return 'null'
    if isinstance(v, (int, float, np.number)):
        f = float(v)
        if math.isinf(f):
            return 'inf' if f > 0 else '-inf'
        return f
    if isinstance(v, (pd.Timestamp, np.datetime64)):
        return 'T%.6f' % ((pd.Timestamp(v) - pd.Timestamp('1970-01-01')) / pd.Timedelta(days=1))
    return str(v)


class SymEnv(BaseEnv):
    sym = True

    def __init__(self, params, ctx, reporter):
        super().__init__(params)
        self.ctx = ctx
        self.rep = reporter        # called with (label, model candidates) on a counterexample
        self.structs = {}
        self.obs = {}
        self.reached = {}
        self.discharged = 0

    # inputs ---------------------------------------------------------------
    def _reg(self, name, typ, e):
        c = self.ctx
        if name in c.inputs:
            raise RuntimeError('duplicate input ' + name)
        c.inputs[name] = (typ, e)
        c.input_order.append(name)

    def real(self, name, lo=None, hi=None, strict=False):
        from . import core
        import z3
        e = z3.Real(name)
        self._reg(name, 'real', e)
        if lo is not None:
            self.ctx.assume(e > core._num_to_z3(lo) if strict else e >= core._num_to_z3(lo))
        if hi is not None:
            self.ctx.assume(e <= core._num_to_z3(hi))
        return core.SReal(e)

    def int(self, name, lo, hi):
        from . import core
        import z3
        e = z3.Int(name)
        self._reg(name, 'int', e)
        self.ctx.assume(z3.And(e >= lo, e <= hi))
        return core.SInt(e)

    def float64(self, name, lo, hi, integral=False):
        from . import fp
        import z3
        e = z3.FP(name, fp.F64)
        self._reg(name, 'fp', e)
        c = [z3.Not(z3.fpIsNaN(e)), z3.fpGEQ(e, z3.FPVal(float(lo), fp.F64)), z3.fpLEQ(e, z3.FPVal(float(hi), fp.F64))]
        c.append(z3.Not(z3.And(z3.fpIsZero(e), z3.fpIsNegative(e))))
        if integral:
            c.append(z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), e), e))
        self.ctx.assume(z3.And(*c))
        return fp.SFloat(e)

    def cint(self, name, lo, hi):
        return self.ctx.concretize(self.int(name, lo, hi).e)

    def bool(self, name):
        return bool(self.sbool(name))

    def sbool(self, name):
        from . import core
        import z3
        e = z3.Bool(name)
        self._reg(name, 'bool', e)
        return core.SBool(e)

    def choice(self, name, options):
        options = list(options)
        i = self.ctx.choice_int(len(options))
        self.structs[name] = i
        return options[i]

    def date(self, name, lo, hi):
        from . import core
        import z3
        e = z3.Int(name)
        self._reg(name, 'int', e)
        lo, hi = int(core.days_of(lo)), int(core.days_of(hi))
        self.ctx.assume(z3.And(e >= lo, e <= hi))
        return core.STime(e)

    def td(self, name, lo, hi):
        from . import core
        return core.STd(self.int(name, lo, hi).e)

    def days(self, n):
        from . import core
        if core.is_sym(n):
            return core.STd(n.e)
        return pd.Timedelta(days=n)

    def hours(self, n):
        from . import core
        import z3
        if core.is_sym(n):
            return core.STd(z3.ToReal(n.e) / 24)
        return pd.Timedelta(hours=n)

    def minutes(self, n):
        from . import core
        import z3
        if core.is_sym(n):
            return core.STd(z3.ToReal(n.e) / 1440)
        return pd.Timedelta(minutes=n)

    def days_real(self, x):
        from . import core
        return core.STd(core.SReal.lift(x))

    def assume(self, cond):
        self.ctx.assume(cond)

    def stop(self):
        from . import core
        self.ctx.abort('stop')

    # obligations ------------------------------------------------------------
    def check(self, label, conds, info=None):
        self.ctx._alive()
        import z3
        from . import core
        self.reached[label] = self.reached.get(label, 0) + 1
        if not isinstance(conds, (list, tuple)):
            conds = [conds]
        es, ms = [], []
        margin = False
        for c in conds:
            if type(c) is core.SBool:
                es.append(c.e)
                margin = margin or c.m is not None
                ms.append(c.m if c.m is not None else z3.Not(c.e))
            elif isinstance(c, (bool, np.bool_)):
                if not c:
                    es.append(z3.BoolVal(False))
                    ms.append(z3.BoolVal(True))
            else:
                raise RuntimeError('bad condition %r in %s' % (c, label))
        if not es:
            self.discharged += 1
            return True
        cond = z3.And(*es) if len(es) > 1 else es[0]
        ok, model = self.ctx.prove(cond)
        if ok is True:
            self.discharged += 1
            return True
        self.rep(self, label, ok, cond, z3.Or(*ms) if margin else None, info)
        return False

    def provable(self, cond):
        """does the condition hold for every input of this path (never reported)"""
        from . import core
        import z3
        e = core.SBool.lift(cond)
        return self.ctx.prove(e)[0] is True

    def observe(self, name, value):
        self.obs[name] = value

    # comparisons --------------------------------------------------------------
    def eq(self, a, b):
        from . import core
        import z3
        na, nb = core.isnull(a), core.isnull(b)
        if na or nb:
            return na and nb
        if not core.is_sym(a) and not core.is_sym(b):
            if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
                a, b = float(a), float(b)
                if math.isinf(a) or math.isinf(b):
                    return a == b
                return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
            return bool(a == b)
        ra, rb = core.SReal.lift(a), core.SReal.lift(b)
        if ra is not None and rb is not None:
            r = core.SBool(ra == rb)
            r.m = z3.Or(ra - rb > z3.Q(1, 100), rb - ra > z3.Q(1, 100))
            return r
        if core.SReal.special(a) or core.SReal.special(b):
            return False
        r = (a == b)
        return r if core.is_sym(r) else bool(r)

    def le(self, a, b):
        from . import core
        import z3
        if not core.is_sym(a) and not core.is_sym(b):
            return bool(a <= b)
        ra, rb = core.SReal.lift(a), core.SReal.lift(b)
        if ra is None or rb is None:
            return a <= b
        r = core.SBool(ra <= rb)
        r.m = ra - rb > z3.Q(1, 100)
        return r

    def lt(self, a, b):
        return a < b

    def ite(self, c, a, b):
        from . import core
        return core.ite(c, a, b)

    def min(self, xs):
        from . import core
        return core.smin(list(xs))

    def max(self, xs):
        from . import core
        return core.smax(list(xs))

    def _b(self, c):
        from . import core
        return core.SBool.lift(c)

    def and_(self, *cs):
        from . import core
        import z3
        return core.SBool(z3.And(*[self._b(c) for c in cs]))

    def or_(self, *cs):
        from . import core
        import z3
        return core.SBool(z3.Or(*[self._b(c) for c in cs]))

    def not_(self, c):
        from . import core
        import z3
        return core.SBool(z3.Not(self._b(c)))

    def implies(self, a, b):
        from . import core
        import z3
        return core.SBool(z3.Implies(self._b(a), self._b(b)))

    # containers -------------------------------------------------------------
    def arr(self, lst):
        from . import patches, core
        lst = [core.SReal(core.SReal.lift(v)) if (core.SReal.lift(v) is not None) else v for v in lst]
        return patches.mk(lst)

    def iarr(self, lst):
        from . import patches
        return patches.mk(list(lst))

    def col(self, lst):
        from . import core
        lst = list(lst)
        if lst and not any(core.is_sym(v) for v in lst):
            return np.array([float(v) for v in lst])
        return np.asarray(self.arr(lst))

    def dates(self, lst):
        from . import core, patches
        lst = list(lst)
        if not any(core.is_sym(v) for v in lst):
            return pd.DatetimeIndex(lst)
        return pd.Index(np.asarray(patches.mk([core.STime.lift(v) for v in lst])), dtype=object)

    def datecol(self, lst):
        return pd.Series(self.dates(lst))

    def frame(self, cols, index=None):
        d = {}
        for k, v in cols.items():
            if isinstance(v, pd.Series):
                v = v._values if v.dtype == object else v.values
            d[k] = v
        return pd.DataFrame(d, index=index)

    def exp(self, x): return x.exp() if not isinstance(x, float) or hasattr(x, 'exp') else math.exp(x)
    def log(self, x): return x.log() if hasattr(x, 'log') else math.log(x)

    def pow(self, a, b):
        from . import core
        if core.is_sym(a) or core.is_sym(b):
            return (a if core.is_sym(a) else core.SReal(core.SReal.lift(a))) ** b
        return float(np.power(float(a), float(b)))

    def sin(self, x): return x.sin() if hasattr(x, 'sin') else math.sin(x)
    def cos(self, x): return x.cos() if hasattr(x, 'cos') else math.cos(x)

    def floor(self, x):
        from . import core
        import z3
        if type(x) is core.SReal:
            return core.SInt(z3.ToInt(x.e))
        if type(x) is core.SInt:
            return x
        return math.floor(x)

    def weekday(self, d): return d.weekday()

    def is_null(self, x):
        from . import core
        return core.isnull(x)

    def td_days(self, x):
        return x / pd.Timedelta(days=1)
