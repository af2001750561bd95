"""Path-forking symbolic execution core: context, symbolic scalars, z3 glue.

Symbolic values are ordinary Python objects that overload the Python operators and build z3 terms.  Whenever the code
under test needs a Python truth value or an index, the context asks z3 which outcomes are feasible under the current path
condition, follows one and queues the others; so the set of explored paths covers every input within the bounds.
"""
import datetime as _dt
import math as _math
import numbers
import time
from fractions import Fraction

import numpy as np
import pandas as pd
import z3

REAL_MATH = {k: getattr(_math, k) for k in ('log', 'exp', 'sqrt', 'ceil', 'floor', 'sin', 'cos', 'isnan', 'isinf',
                                            'isfinite', 'fabs', 'pow', 'log10', 'log2', 'log1p', 'trunc')}
_isnan, _isinf = _math.isnan, _math.isinf


class PathAbort(BaseException):
    """Steers exploration: path infeasible or outside the stated bounds."""

    def __init__(self, why):
        self.why = why


class EngineGap(Exception):
    """The code did something the symbolic layer does not model."""


class Ctx:
    cur = None

    def __init__(self, prefix=(), query_timeout_ms=20000, max_decisions=4000):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []          # every decision taken on this path, forced or not
        self.alts = []               # alternative prefixes to explore
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.timeout_ms = query_timeout_ms
        self.constraints = []
        self.model = None            # a model of the current path condition, or None
        self.decided = {}
        self.aborted = None
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.fresh_n = 0
        self.max_decisions = max_decisions
        self.inputs = {}             # name -> ('real'|'int', z3 expr)
        self.input_order = []
        self.uf_apps = []       # (name, arguments, application) of the arbitrary functions used
        self.soft = []
        self.gaps = []
        self.tokens = {}
        self.axiom_terms = {}
        self.civil_cache = {}
        self.keep = []
        self.trusted_true = 0

    # -- solver ---------------------------------------------------------
    def _check(self, *extra):
        self.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', self.timeout_ms)
            s.add(*self.constraints)
            s.add(*extra)
            r = s.check()
            self.solver_s += time.time() - t
            if r == z3.unknown:
                self.unknown += 1
                return r, None
            return r, (s.model() if r == z3.sat else None)
        self.solver_s += time.time() - t
        return r, (self.solver.model() if r == z3.sat else None)

    def add(self, c):
        self.constraints.append(c)
        self.solver.add(c)
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def add_soft(self, c):
        """continue the path where c holds, if that is possible"""
        r, m = self._check(c)
        if r == z3.sat:
            self.constraints.append(c)
            self.solver.add(c)
            self.model = m

    def _alive(self):
        if self.aborted is not None:
            raise PathAbort(self.aborted)

    def abort(self, why):
        self.aborted = why
        raise PathAbort(why)

    def ensure_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                self.abort('infeasible')
            self.model = m
        return self.model

    def assume(self, cond):
        """cond: python bool / SBool / z3 Bool."""
        self._alive()
        if isinstance(cond, SBool):
            cond = cond.e
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                self.abort('assumption')
            return
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.abort('assumption')
        self.add(c)
        if self.pos >= len(self.prefix) and self.model is None:
            self.ensure_model()

    def branch(self, cond):
        self._alive()
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = z3.is_not(c)
        base = c.arg(0) if neg else c
        k = base.get_id()
        if k in self.decided:
            v = self.decided[k][0]
            return (not v) if neg else v
        if self.pos < len(self.prefix):
            take, forced = self.prefix[self.pos]
            self.pos += 1
        else:
            if len(self.decisions) > self.max_decisions:
                self.abort('decision bound')
            m = self.ensure_model()
            forced = False
            if m is None:
                take = True   # solver gave up: treat both as possible
                self.alts.append(list(self.decisions) + [(False, False)])
            else:
                take = z3.is_true(m.eval(c, model_completion=True))
                r, m2 = self._check(z3.Not(c) if take else c)
                if r == z3.unsat:
                    forced = True
                else:
                    self.alts.append(list(self.decisions) + [(not take, False)])
            self.pos += 1
            self.prefix.append((take, forced))
        self.decisions.append((take, forced))
        self.decided[k] = ((not take) if neg else take, base)
        if not forced:
            self.add(c if take else z3.Not(c))
        return take

    def concretize(self, e, what='int'):
        """Exhaustively fork on the value of an integer (or boolean) term; returns a Python int."""
        self._alive()
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            f = e.as_fraction()
            if f.denominator == 1:
                return int(f)
        n = 0
        while True:
            if self.pos < len(self.prefix):
                take, v = self.prefix[self.pos]
                self.pos += 1
            else:
                m = self.ensure_model()
                if m is None:
                    self.gaps.append('solver gave up during concretisation')
                    self.abort('unknown')
                val = m.eval(e, model_completion=True)
                v = val.as_long() if z3.is_int_value(val) else val.as_fraction()
                # prefer deterministic small alternatives: nothing to do, the recorded value makes replay exact
                r, _ = self._check(e != v)
                take = True
                if r != z3.unsat:
                    self.alts.append(list(self.decisions) + [(False, v)])
                self.pos += 1
                self.prefix.append((take, v))
            self.decisions.append((take, v))
            if take:
                self.add(e == v)
                return v
            self.add(e != v)
            n += 1
            if n > 5000:
                self.abort('concretisation bound')

    def choice_int(self, n):
        """Plain n-way fork without a solver term (structure choices); returns 0..n-1."""
        self._alive()
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            take, v = self.prefix[self.pos]
            self.pos += 1
        else:
            v = 0
            for k in range(1, n):
                self.alts.append(list(self.decisions) + [('c', k)])
            self.pos += 1
            self.prefix.append(('c', 0))
        self.decisions.append(('c', v))
        return v

    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    # -- proof obligations -------------------------------------------------
    def prove(self, cond, soft=()):
        """Returns (True, None) if cond holds for every value on this path, (False, model) with a counterexample, or
        (None, None) when the solver gave up."""
        self._alive()
        if isinstance(cond, SBool):
            cond = cond.e
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                self.trusted_true += 1
                return True, None
            cond = z3.BoolVal(False)
        c = z3.simplify(cond, som=True)
        if z3.is_true(c):
            self.queries += 1
            return True, None
        neg = z3.Not(c)
        r, m = self._check(neg)
        if r == z3.unsat:
            return True, None
        if r == z3.unknown:
            return None, None
        # look for a friendlier counterexample: small dyadic inputs
        best = m
        return False, best

    def nice_models(self, extra, limit=4):
        """Yield models of path & extra, nicer ones first."""
        reals = [e for k, (t, e) in self.inputs.items() if t == 'real']
        attempts = []
        q = []
        for i, e in enumerate(reals):
            q.append(z3.ToReal(z3.ToInt(e * 4)) == e * 4)
            q.append(e <= 64)
            q.append(e >= -64)
        attempts.append(q)
        exps = [e for k, e in self.axiom_terms.items() if k[0] == 'exp']
        if exps:
            attempts.append([z3.And(e <= 8, e >= -8) for e in exps] + [z3.And(e <= 100000, e >= -100000, z3.Or(e == 0, e >= z3.RealVal('0.001'), e <= z3.RealVal('-0.001'))) for e in reals])
        attempts.append([z3.And(e <= 1000, e >= -1000) for e in reals])
        attempts.append([z3.Or(e == 0, z3.And(e <= 1000000, e >= z3.RealVal('0.001')), z3.And(e >= -1000000, e <= z3.RealVal('-0.001'))) for e in reals])
        attempts.append([])
        n = 0
        for extra_soft in attempts:
            s = z3.Solver()
            s.set('timeout', 8000)
            s.add(*self.constraints)
            s.add(extra)
            if extra_soft:
                s.add(*extra_soft)
            t = time.time()
            r = s.check()
            self.queries += 1
            self.solver_s += time.time() - t
            if r == z3.sat:
                n += 1
                yield s.model()
                if n >= limit:
                    return

    def diverse_models(self, rng, n, seconds=6.0):
        """models of the path that differ: inputs are set at random to small numbers or (nearly) to one another"""
        t0 = time.time()
        for _ in range(n):
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*self.constraints)
            if s.check() != z3.sat:
                return
            keys = list(self.inputs)
            rng.shuffle(keys)
            seen = []
            for k in keys[:60]:
                t, e = self.inputs[k]
                cands = []
                if t == 'real':
                    cands = [e == rng.choice([0, 1, -1, 2, 3, 5, 10, 100, 1000]), e == z3.Q(rng.randint(-2000, 2000), 8)]
                    if seen:
                        o = rng.choice(seen)
                        cands += [e == o, e == o + z3.Q(1, 10 ** 9), e == o - z3.Q(1, 10 ** 7), e == -o]
                    seen.append(e)
                elif t == 'bool':
                    cands = [e, z3.Not(e)]
                elif t == 'int':
                    cands = [e == rng.randint(-3, 30), e == rng.randint(0, 5)]
                if not cands:
                    continue
                s.push()
                s.add(rng.choice(cands))
                self.queries += 1
                if s.check() != z3.sat:
                    s.pop()
                if time.time() - t0 > seconds:
                    break
            if s.check() == z3.sat:
                yield s.model()
            if time.time() - t0 > seconds:
                return

    def values(self, model):
        out = {}
        for k in self.input_order:
            t, e = self.inputs[k]
            v = model.eval(e, model_completion=True)
            out[k] = zval(v)
        return out


    def uf_values(self, model):
        """the values the model gives to the arbitrary functions at the arguments they were used with"""
        out = []
        for name, args, app in self.uf_apps[:400]:
            try:
                out.append([name, [float(zval(model.eval(a, model_completion=True))) for a in args], float(zval(model.eval(app, model_completion=True)))])
            except EngineGap:
                pass
        return out


def zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_fp(v):
        return fp_frac(v)
    raise EngineGap('model value %r' % v)


def fp_frac(v):
    s = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    import struct
    f = struct.unpack('<d', struct.pack('<Q', s))[0]
    if f != f or f in (float('inf'), float('-inf')):
        raise EngineGap('non-finite model value')
    return Fraction(f)


def ctx():
    c = Ctx.cur
    if c is None:
        raise EngineGap('no symbolic context')
    c._alive()
    return c


# ---------------------------------------------------------------- helpers
def _num_to_z3(x):
    if isinstance(x, (bool, np.bool_)) and not isinstance(x, Sym):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)) and not isinstance(x, Sym):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + '/' + str(x.denominator))
    f = Fraction(float(x))
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def is_num(x):
    t = type(x)
    return t in (int, float, bool, Fraction) or issubclass(t, (np.integer, np.floating, np.bool_, float, int))


class Sym:
    """Base class of every symbolic scalar."""
    __slots__ = ()

    def __reduce__(self):
        raise EngineGap('pickling a symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def is_sym(x):
    return issubclass(type(x), Sym)


def has_sym(a):
    """True if a (scalar, list, object array, pandas object) holds any symbolic value."""
    t = type(a)
    if issubclass(t, Sym):
        return True
    if issubclass(t, np.ndarray):
        if a.dtype != object:
            return False
        for v in a.ravel():
            if issubclass(type(v), Sym):
                return True
        return False
    if t in (list, tuple):
        for v in a:
            if issubclass(type(v), Sym) or (type(v) in (list, tuple) or issubclass(type(v), np.ndarray)) and has_sym(v):
                return True
        return False
    if issubclass(t, (pd.Series, pd.Index)):
        if a.dtype != object:
            return False
        return has_sym(np.asarray(a._values, dtype=object))
    if issubclass(t, pd.DataFrame):
        for i in range(a.shape[1]):
            if has_sym(a.iloc[:, i]):
                return True
        return False
    return False


class SBool(Sym):
    __slots__ = ('e', 'm')
    __hash__ = None

    def __init__(self, e, m=None):
        self.e = e
        self.m = m      # optional: 'violated by a clear margin'

    def __bool__(self):
        return ctx().branch(self.e)

    @staticmethod
    def lift(x):
        if type(x) is SBool:
            return x.e
        if isinstance(x, (bool, np.bool_)):
            return z3.BoolVal(bool(x))
        if type(x) in (int, float) or isinstance(x, np.number):
            return z3.BoolVal(bool(x))
        if isinstance(x, (SReal, SInt)):
            return (x != 0).e
        return None

    def __and__(self, o):
        e = SBool.lift(o)
        return NotImplemented if e is None else SBool(z3.And(self.e, e))

    __rand__ = __and__

    def __or__(self, o):
        e = SBool.lift(o)
        return NotImplemented if e is None else SBool(z3.Or(self.e, e))

    __ror__ = __or__

    def __xor__(self, o):
        e = SBool.lift(o)
        return NotImplemented if e is None else SBool(z3.Xor(self.e, e))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def logical_not(self):
        return SBool(z3.Not(self.e))

    def real(self):
        return SReal(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))

    def __eq__(self, o):
        e = SBool.lift(o)
        if e is None:
            return False
        return SBool(self.e == e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.e)) if type(r) is SBool else (not r)

    def __repr__(self):
        return token(self.e)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))


def _delegate(name):
    def f(self, *a):
        return getattr(self.real(), name)(*a)
    return f


for _n in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__lt__',
           '__le__', '__gt__', '__ge__', '__neg__', '__pow__', '__abs__'):
    setattr(SBool, _n, _delegate(_n))


def token(e):
    """Deterministic text for a term, equal for identical terms."""
    c = Ctx.cur
    e = z3.simplify(e)
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
        return repr(float(f))
    if c is None:
        return 'sym'
    k = e.get_id()
    if k not in c.tokens:
        c.tokens[k] = ('<v%d>' % len(c.tokens), e)
    return c.tokens[k][0]


def is_const(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


class SReal(Sym):
    """A real number (never NaN, never infinite)."""
    __slots__ = ('e',)
    __array_priority__ = 0

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    @staticmethod
    def lift(x):
        """-> z3 real term, or None if x is no finite number"""
        t = type(x)
        if t is SReal:
            return x.e
        if t is SInt:
            return z3.ToReal(x.e)
        if t is SBool:
            return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
        if is_num(x):
            if isinstance(x, (float, np.floating)) and (_isnan(x) or _isinf(x)):
                return None
            return _num_to_z3(x)
        if t is np.ndarray and x.ndim == 0:
            return SReal.lift(x.item())
        return None

    @staticmethod
    def special(x):
        """'nan'/'inf'/'-inf' for non-finite concrete floats, None otherwise"""
        if isinstance(x, (float, np.floating)) and not is_sym(x):
            if _isnan(x):
                return 'nan'
            if _isinf(x):
                return 'inf' if x > 0 else '-inf'
        return None

    def _bin(self, o, f, spec, refl=False):
        e = SReal.lift(o)
        if e is None:
            s = SReal.special(o)
            if s is None:
                return NotImplemented
            if s == 'nan':
                return float('nan')
            return spec(self, float(s), refl)
        return SReal(f(e, self.e) if refl else f(self.e, e))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda s, v, r: v)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, lambda s, v, r: v, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda s, v, r: v if r else -v)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, lambda s, v, r: v if r else -v, True)

    @staticmethod
    def _mulspec(s, v, r):
        if s == 0:
            return float('nan')
        return v if s > 0 else -v

    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, SReal._mulspec)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, SReal._mulspec, True)

    def __truediv__(self, o):
        e = SReal.lift(o)
        if e is None:
            s = SReal.special(o)
            if s is None:
                return NotImplemented
            return float('nan') if s == 'nan' else 0.0
        return _div(self.e, e)

    def __rtruediv__(self, o):
        e = SReal.lift(o)
        if e is None:
            s = SReal.special(o)
            if s is None:
                return NotImplemented
            return float('nan') if s == 'nan' else SReal._mulspec(self, float(s), True)
        return _div(e, self.e)

    def __floordiv__(self, o):
        d = self.__truediv__(o)
        return d if not is_sym(d) else SReal(z3.ToReal(z3.ToInt(d.e)))

    def __rfloordiv__(self, o):
        d = self.__rtruediv__(o)
        return d if not is_sym(d) else SReal(z3.ToReal(z3.ToInt(d.e)))

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __neg__(self): return SReal(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SReal(z3.If(self.e >= 0, self.e, -self.e))
    fabs = __abs__

    def _cmp(self, o, f, spec):
        e = SReal.lift(o)
        if e is None:
            s = SReal.special(o)
            if s is None:
                return NotImplemented
            if s == 'nan':
                return False
            return spec(float(s))
        return SBool(f(self.e, e))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda v: False)
        return False if r is NotImplemented and not hasattr(o, '__len__') else r

    def __ne__(self, o):
        if SReal.special(o):
            return True
        r = self._cmp(o, lambda a, b: a != b, lambda v: True)
        return True if r is NotImplemented and not hasattr(o, '__len__') else r

    def __hash__(self): return SYM_HASH

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def floor_term(self):
        return z3.ToInt(self.e)

    def __int__(self):
        # truncation towards zero
        t = z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        return ctx().concretize(t)

    def __trunc__(self): return self.__int__()
    def __floor__(self): return ctx().concretize(z3.ToInt(self.e))
    def __ceil__(self): return ctx().concretize(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is None:
            return ctx().concretize(z3.ToInt(self.e + z3.Q(1, 2)))
        k = 10 ** int(n)
        return SReal(z3.ToReal(z3.ToInt(self.e * k + z3.Q(1, 2))) / k)

    def floor(self): return SReal(z3.ToReal(z3.ToInt(self.e)))
    def ceil(self): return SReal(-z3.ToReal(z3.ToInt(-self.e)))
    def rint(self): return SReal(z3.ToReal(z3.ToInt(self.e + z3.Q(1, 2))))
    def trunc(self):
        return SReal(z3.ToReal(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))))

    def __float__(self):
        e = z3.simplify(self.e)
        if is_const(e):
            f = e.as_fraction()
            return f.numerator / f.denominator
        raise EngineGap('float() of a symbolic real')

    def is_integer(self):
        return bool(SBool(z3.ToReal(z3.ToInt(self.e)) == self.e))

    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0.0
    def item(self): return self

    def __pow__(self, o, m=None):
        if is_num(o) and not is_sym(o):
            if float(o) == int(o) and abs(int(o)) <= 6:
                n = int(o)
                if n == 0:
                    return SReal(z3.RealVal(1))
                r = self.e
                for _ in range(abs(n) - 1):
                    r = r * self.e
                return SReal(r) if n > 0 else _div(z3.RealVal(1), r)
            if float(o) == 0.5:
                return self.sqrt()
        e = SReal.lift(o)
        if e is None:
            return NotImplemented
        return uf2('pow', self.e, e)

    def __rpow__(self, o):
        e = SReal.lift(o)
        if e is None:
            return NotImplemented
        return uf2('pow', e, self.e)

    def exp(self): return uf1('exp', self.e)
    def sin(self): return uf1('sin', self.e)
    def cos(self): return uf1('cos', self.e)

    def log(self):
        c = ctx()
        if not c.branch(self.e > 0):
            if c.branch(self.e == 0):
                return float('-inf')
            return float('nan')
        return uf1('log', self.e)

    def sqrt(self):
        c = ctx()
        if not c.branch(self.e >= 0):
            return float('nan')
        r = uf1('sqrt', self.e)
        k = ('sqrtax', self.e.get_id())
        if k not in c.axiom_terms and not is_const(z3.simplify(r.e)):
            c.axiom_terms[k] = self.e
            c.add(z3.And(r.e >= 0, r.e * r.e == self.e))
        return r

    def isnan(self): return False

    def __repr__(self): return token(self.e)
    __str__ = __repr__

    def __format__(self, spec): return token(self.e)


SYM_HASH = hash('symbolic')
_UFS = {}


def _uf(name, n):
    if (name, n) not in _UFS:
        _UFS[name, n] = z3.Function('uf_' + name, *([z3.RealSort()] * (n + 1)))
    return _UFS[name, n]


def uf1(name, e):
    c = ctx()
    e = z3.simplify(e, som=True)
    if is_const(e):
        v = float(e.as_fraction())
        if name == 'exp' and v == 0:
            return SReal(z3.RealVal(1))
        if name == 'log' and v == 1:
            return SReal(z3.RealVal(0))
        if name in ('sin', 'cos') and v == 0:
            return SReal(z3.RealVal(0 if name == 'sin' else 1))
        if name == 'sqrt':
            r = REAL_MATH['sqrt'](v)
            if Fraction(r) ** 2 == e.as_fraction():
                return SReal(_num_to_z3(r))
        r = REAL_MATH[name](v)
        return SReal(_num_to_z3(r))
    f = _uf(name, 1)
    t = f(e)
    k = (name, e.get_id())
    if k not in c.axiom_terms:
        c.axiom_terms[k] = e
        prev = [x for (n2, *_), x in c.axiom_terms.items() if n2 == name and x is not e]
        if name == 'exp':
            c.add(t > 0)
            c.add(z3.And(z3.Implies(e >= 0, t >= 1 + e), z3.Implies(e < 0, t < 1)))
            for p in prev:
                c.add(z3.And((p < e) == (f(p) < t), (p == e) == (f(p) == t)))
        elif name == 'log':
            c.add(z3.And((e > 1) == (t > 0), (e == 1) == (t == 0)))
            for p in prev:
                c.add(z3.And((p < e) == (f(p) < t), (p == e) == (f(p) == t)))
        elif name in ('sin', 'cos'):
            c.add(z3.And(t <= 1, t >= -1))
    return SReal(t)


def uf2(name, a, b):
    c = ctx()
    a, b = z3.simplify(a, som=True), z3.simplify(b, som=True)
    if is_const(a) and is_const(b) and name == 'pow':
        return SReal(_num_to_z3(float(a.as_fraction()) ** float(b.as_fraction())))
    if name == 'pow':
        if is_const(b):
            v = b.as_fraction()
            if v.denominator == 1 and abs(v) <= 6:
                return SReal(a) ** int(v)
        if is_const(a) and a.as_fraction() == 1:
            return SReal(z3.RealVal(1))
    return SReal(_uf(name, 2)(a, b))


def _div(a, b):
    """Numpy float division: x/0 is +-inf or nan."""
    bs = z3.simplify(b)
    if is_const(bs):
        if bs.as_fraction() != 0:
            return SReal(a / bs)
        zero = True
    else:
        zero = ctx().branch(bs == 0)
    if not zero:
        return SReal(a / bs)
    av = SReal(a)
    if av == 0:
        return float('nan')
    return float('inf') if av > 0 else float('-inf')


class SInt(Sym):
    __slots__ = ('e',)
    __array_priority__ = 0

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    @staticmethod
    def lift(x):
        if type(x) is SInt:
            return x.e
        if isinstance(x, (int, np.integer, bool, np.bool_)) and not is_sym(x):
            return z3.IntVal(int(x))
        if type(x) is SBool:
            return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
        return None

    def _b(self, o, f, name, refl=False):
        e = SInt.lift(o)
        if e is not None:
            return SInt(f(e, self.e) if refl else f(self.e, e))
        return getattr(SReal(z3.ToReal(self.e)), name)(o)

    def __add__(self, o): return self._b(o, lambda a, b: a + b, '__add__')
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, '__radd__', True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b, '__sub__')
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, '__rsub__', True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b, '__mul__')
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, '__rmul__', True)
    def __truediv__(self, o): return SReal(z3.ToReal(self.e)).__truediv__(o)
    def __rtruediv__(self, o): return SReal(z3.ToReal(self.e)).__rtruediv__(o)

    def __floordiv__(self, o):
        if isinstance(o, (int, np.integer)) and not is_sym(o) and o > 0:
            return SInt(self.e / int(o))
        r = SReal(z3.ToReal(self.e)).__floordiv__(o)
        return SInt(z3.ToInt(r.e)) if is_sym(r) else r

    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and not is_sym(o) and o > 0:
            return SInt(self.e % int(o))
        return SReal(z3.ToReal(self.e)).__mod__(o)

    def __pow__(self, o, m=None):
        if isinstance(o, (int, np.integer)) and not is_sym(o) and 0 <= o <= 6:
            r = z3.IntVal(1)
            for _ in range(int(o)):
                r = r * self.e
            return SInt(r)
        return SReal(z3.ToReal(self.e)) ** o

    def __rpow__(self, o): return o ** SReal(z3.ToReal(self.e))
    def __neg__(self): return SInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.e >= 0, self.e, -self.e))

    def _c(self, o, f, name):
        e = SInt.lift(o)
        if e is not None:
            return SBool(f(self.e, e))
        return getattr(SReal(z3.ToReal(self.e)), name)(o)

    def __lt__(self, o): return self._c(o, lambda a, b: a < b, '__lt__')
    def __le__(self, o): return self._c(o, lambda a, b: a <= b, '__le__')
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, '__gt__')
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, '__ge__')
    def __eq__(self, o): return self._c(o, lambda a, b: a == b, '__eq__')
    def __ne__(self, o): return self._c(o, lambda a, b: a != b, '__ne__')

    def __hash__(self): return hash(ctx().concretize(self.e))
    def __index__(self): return ctx().concretize(self.e)
    __int__ = __index__
    __trunc__ = __index__

    def __float__(self): return float(ctx().concretize(self.e))
    def __bool__(self): return ctx().branch(self.e != 0)
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None): return self
    def floor(self): return self
    def ceil(self): return self
    def rint(self): return self
    def trunc(self): return self
    def fabs(self): return abs(self).toreal()
    def toreal(self): return SReal(z3.ToReal(self.e))
    def sqrt(self): return self.toreal().sqrt()
    def exp(self): return self.toreal().exp()
    def log(self): return self.toreal().log()
    def sin(self): return self.toreal().sin()
    def cos(self): return self.toreal().cos()
    def isnan(self): return False
    def is_integer(self): return True
    def conjugate(self): return self
    def item(self): return self
    def __repr__(self): return token(self.e)
    __str__ = __repr__

    def __format__(self, spec): return token(self.e)


numbers.Real.register(SReal)
numbers.Integral.register(SInt)

# ---------------------------------------------------------------- dates
EPOCH = pd.Timestamp('1970-01-01')
DATE_LO, DATE_HI = pd.Timestamp('1990-01-01'), pd.Timestamp('2045-12-31')
_MONTH_STARTS = [int((t - EPOCH).days) for t in pd.date_range('1989-01-01', '2047-01-01', freq='MS')]
_MONTH_TS = list(pd.date_range('1989-01-01', '2047-01-01', freq='MS'))


def days_of(ts):
    """exact Fraction of days since the epoch of a concrete timestamp"""
    ts = pd.Timestamp(ts)
    if ts.tzinfo is not None:
        raise EngineGap('tz-aware date')
    return Fraction(ts.value, 86400 * 10 ** 9)


def _q(f):
    f = Fraction(f)
    if f.denominator == 1:
        return z3.IntVal(f.numerator)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


def is_td(x):
    return isinstance(x, (_dt.timedelta, np.timedelta64)) and not is_sym(x)


def is_date(x):
    return (isinstance(x, (_dt.date, np.datetime64)) or isinstance(x, str)) and not is_sym(x)


def td_days(x):
    return Fraction(pd.Timedelta(x).value, 86400 * 10 ** 9)


def _is_nat(x):
    return x is pd.NaT or (isinstance(x, (np.datetime64, np.timedelta64)) and np.isnat(x)) or \
        (type(x) is float and _isnan(x))


class STd(Sym):
    """Symbolic duration, in days (z3 Int or Real term)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return pd.Timedelta

    @staticmethod
    def lift(x):
        if type(x) is STd:
            return x.t
        if is_td(x):
            return _q(td_days(x))
        if type(x) is SymOffset and x.is_fixed():
            return x.fixed_days()
        if isinstance(x, pd.offsets.Tick):
            return _q(td_days(pd.Timedelta(x)))
        return None

    def _cmp(self, o, f, nat=False):
        if _is_nat(o):
            return nat
        e = STd.lift(o)
        return NotImplemented if e is None else SBool(f(self.t, e))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return r

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True)

    def __hash__(self): return SYM_HASH

    def __add__(self, o):
        if _is_nat(o):
            return pd.NaT
        e = STd.lift(o)
        if e is not None:
            return STd(self.t + e)
        if is_date(o):
            return STime.lift(o) + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        e = STd.lift(o)
        return NotImplemented if e is None else STd(self.t - e)

    def __rsub__(self, o):
        e = STd.lift(o)
        if e is not None:
            return STd(e - self.t)
        if is_date(o):
            return STime.lift(o) - self
        return NotImplemented

    def __neg__(self): return STd(-self.t)
    def __abs__(self): return STd(z3.If(self.t >= 0, self.t, -self.t))

    def _r(self):
        return z3.ToReal(self.t) if z3.is_int(self.t) else self.t

    def __mul__(self, o):
        i = SInt.lift(o)
        if i is not None:
            return STd(self.t * i)
        e = SReal.lift(o)
        return NotImplemented if e is None else STd(self._r() * e)

    __rmul__ = __mul__

    def __truediv__(self, o):
        e = STd.lift(o)
        if e is not None:
            b = z3.ToReal(e) if z3.is_int(e) else e
            return _div(self._r(), b)
        e = SReal.lift(o)
        if e is None:
            return NotImplemented
        r = _div(self._r(), e)
        return STd(r.e) if is_sym(r) else pd.NaT

    def __rtruediv__(self, o):
        e = STd.lift(o)
        if e is None:
            return NotImplemented
        return _div(z3.ToReal(e) if z3.is_int(e) else e, self._r())

    def __floordiv__(self, o):
        r = self.__truediv__(o)
        if type(r) is SReal:
            return SInt(z3.ToInt(r.e))
        return r

    @property
    def days(self):
        return SInt(self.t if z3.is_int(self.t) else z3.ToInt(self.t))

    @property
    def seconds(self):
        if z3.is_int(self.t):
            return 0
        return SInt(z3.ToInt((self.t - z3.ToReal(z3.ToInt(self.t))) * 86400))

    def total_seconds(self):
        return SReal(self._r() * 86400)

    @property
    def value(self):
        return SInt(z3.ToInt(self._r() * (86400 * 10 ** 9)))

    def __bool__(self): return ctx().branch(self.t != 0)
    def __repr__(self): return 'td' + token(self.t)
    __str__ = __repr__

    def __format__(self, spec): return 'td' + token(self.t)
    def to_pytimedelta(self): return self


class STime(Sym):
    """Symbolic timestamp: days since the epoch (z3 Int term when at midnight, otherwise Real)."""
    __slots__ = ('t', '_day')

    def __init__(self, t, day=None):
        self.t = t
        self._day = day

    @property
    def __class__(self):
        return pd.Timestamp

    @staticmethod
    def lift(x):
        if type(x) is STime:
            return x
        if _is_nat(x):
            return None
        if is_date(x):
            try:
                f = days_of(x)
            except (ValueError, TypeError):
                return None
            return STime(_q(f), z3.IntVal(_math.floor(f)))
        return None

    @property
    def day_term(self):
        if z3.is_int(self.t):
            return self.t
        if self._day is None:
            self._day = z3.ToInt(self.t)
        return self._day

    def _cmp(self, o, f, nat=False):
        if _is_nat(o):
            return nat
        s = STime.lift(o)
        return NotImplemented if s is None else SBool(f(self.t, s.t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, True)
    def __hash__(self): return SYM_HASH

    def __add__(self, o):
        if _is_nat(o):
            return pd.NaT
        e = STd.lift(o)
        if e is not None:
            return STime(self.t + e)
        if type(o) is SymOffset:
            return o.apply(self)
        if isinstance(o, pd.offsets.BaseOffset):
            return SymOffset.from_real(o).apply(self)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if _is_nat(o):
            return pd.NaT
        e = STd.lift(o)
        if e is not None:
            return STime(self.t - e)
        s = STime.lift(o)
        if s is not None:
            return STd(self.t - s.t)
        return NotImplemented

    def __rsub__(self, o):
        if _is_nat(o):
            return pd.NaT
        s = STime.lift(o)
        return NotImplemented if s is None else STd(s.t - self.t)

    # -- calendar fields
    def weekday(self):
        return SInt((self.day_term + 3) % 7)

    @property
    def dayofweek(self): return self.weekday()
    day_of_week = dayofweek

    def isoweekday(self): return self.weekday() + 1

    def _month_idx(self):
        """fork on the civil month; returns the index into _MONTH_TS"""
        c = ctx()
        d = z3.simplify(self.day_term)
        k = d.get_id()
        if k in c.civil_cache:
            return c.civil_cache[k][0]
        lo, hi = 0, len(_MONTH_STARTS) - 1
        if z3.is_int_value(d):
            import bisect
            i = bisect.bisect_right(_MONTH_STARTS, d.as_long()) - 1
        else:
            # narrow with the current model first: decide the month of the model, queue the rest
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if c.branch(d >= _MONTH_STARTS[mid]):
                    lo = mid
                else:
                    hi = mid
            i = lo
        c.civil_cache[k] = (i, d)
        return i

    @property
    def month(self): return _MONTH_TS[self._month_idx()].month
    @property
    def year(self): return _MONTH_TS[self._month_idx()].year
    @property
    def quarter(self): return _MONTH_TS[self._month_idx()].quarter

    @property
    def day(self):
        return SInt(self.day_term - _MONTH_STARTS[self._month_idx()] + 1)

    @property
    def days_in_month(self): return _MONTH_TS[self._month_idx()].days_in_month

    @property
    def dayofyear(self):
        y0 = pd.Timestamp(self.year, 1, 1)
        return SInt(self.day_term - int((y0 - EPOCH).days) + 1)

    day_of_year = dayofyear

    @property
    def is_month_start(self): return self.day == 1
    @property
    def is_month_end(self): return self.day == self.days_in_month

    @property
    def hour(self):
        if z3.is_int(self.t):
            return 0
        return SInt(z3.ToInt((self.t - z3.ToReal(self.day_term)) * 24))

    minute = second = microsecond = nanosecond = 0
    tz = tzinfo = None
    freq = None

    def normalize(self): return STime(self.day_term)
    def date(self): return STime(self.day_term)
    def to_pydatetime(self): return self
    def to_datetime64(self): return self
    def timestamp(self):
        return SReal((z3.ToReal(self.t) if z3.is_int(self.t) else self.t) * 86400)

    @property
    def value(self):
        r = z3.ToReal(self.t) if z3.is_int(self.t) else self.t
        return SInt(z3.ToInt(r * (86400 * 10 ** 9)))

    def toordinal(self): return SInt(self.day_term + 719163)

    def concrete(self):
        """fork until this date is a concrete Timestamp"""
        d = ctx().concretize(self.day_term)
        ts = EPOCH + pd.Timedelta(days=d)
        if not z3.is_int(self.t):
            # only whole hours supported
            h = ctx().concretize(z3.ToInt((self.t - d) * 24))
            if not bool(SBool(self.t == d + z3.Q(h, 24))):
                raise EngineGap('sub-hour symbolic date')
            ts = ts + pd.Timedelta(hours=h)
        return ts

    def strftime(self, fmt): return self.concrete().strftime(fmt)
    def isoformat(self, *a): return 'T' + token(self.t)
    def replace(self, **k): return STime.lift(self.concrete().replace(**k))
    def __repr__(self): return 'T' + token(self.t)
    __str__ = __repr__

    def __format__(self, spec): return 'T' + token(self.t)
    def __bool__(self): return True


class SymOffset(Sym):
    """DateOffset whose amounts may be symbolic reals."""
    __slots__ = ('kw',)

    def __init__(self, kw):
        self.kw = dict(kw)

    @staticmethod
    def from_real(o):
        if isinstance(o, pd.offsets.Tick):
            return SymOffset({'days': td_days(pd.Timedelta(o))})
        if type(o) is pd.offsets.DateOffset:
            kw = {k: v * o.n for k, v in o.kwds.items()}
            if set(kw) <= {'days', 'weeks', 'hours', 'months', 'years'}:
                return SymOffset(kw)
        if type(o) is pd.offsets.Week and o.weekday is None:
            return SymOffset({'weeks': o.n})
        raise EngineGap('offset %r on a symbolic date' % (o,))

    def is_fixed(self): return set(self.kw) <= {'days', 'weeks', 'hours'}

    def fixed_days(self):
        t = None
        for k, v in self.kw.items():
            m = {'days': Fraction(1), 'weeks': Fraction(7), 'hours': Fraction(1, 24)}[k]
            i = SInt.lift(v)
            e = i * _q(m) if i is not None and m.denominator == 1 else SReal.lift(v) * _q(m)
            t = e if t is None else t + e
        return t

    def apply(self, st):
        if self.is_fixed():
            return STime(st.t + self.fixed_days())
        ms, years = self.kw.get('months', 0), self.kw.get('years', 0)
        for v in (ms, years):
            if type(v) is SReal and not v.is_integer() or type(v) is float and v != int(v):
                raise ValueError('Non-integer years and months are ambiguous and not currently supported.')
        n = int(ms) + 12 * int(years)
        i = st._month_idx()
        j = i + n
        if not 0 <= j < len(_MONTH_TS) - 1:
            ctx().abort('date window')
        day = st.day
        dim = _MONTH_TS[j].days_in_month
        newday = z3.If(day.e > dim, z3.IntVal(dim), day.e)
        base = z3.IntVal(_MONTH_STARTS[j]) + newday - 1
        if not z3.is_int(st.t):
            base = z3.ToReal(base) + (st.t - z3.ToReal(st.day_term))
        res = STime(base)
        rest = {k: v for k, v in self.kw.items() if k not in ('months', 'years')}
        if rest:
            res = SymOffset(rest).apply(res)
        return res

    def __radd__(self, o):
        s = STime.lift(o)
        return NotImplemented if s is None else self.apply(s)

    __add__ = __radd__
    def __repr__(self): return 'SymOffset(%r)' % self.kw


# ---------------------------------------------------------------- value-level helpers
def ite(c, a, b):
    """c: SBool/bool; a, b: numbers (symbolic or concrete finite)."""
    if not is_sym(c):
        return a if c else b
    if type(a) is STime or type(b) is STime:
        a, b = STime.lift(a), STime.lift(b)
        return STime(z3.If(c.e, a.t, b.t))
    if type(a) is STd or type(b) is STd:
        return STd(z3.If(c.e, STd.lift(a), STd.lift(b)))
    ai, bi = SInt.lift(a), SInt.lift(b)
    if ai is not None and bi is not None and not (type(a) is SBool and type(b) is SBool):
        return SInt(z3.If(c.e, ai, bi))
    if type(a) in (SBool, bool, np.bool_) and type(b) in (SBool, bool, np.bool_):
        return SBool(z3.If(c.e, SBool.lift(a), SBool.lift(b)))
    ar, br = SReal.lift(a), SReal.lift(b)
    if ar is None or br is None:
        return a if bool(c) else b
    return SReal(z3.If(c.e, ar, br))


def smin(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r


def smax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x > r, x, r)
    return r


def isnull(x):
    return x is None or x is pd.NaT or (not is_sym(x) and isinstance(x, (float, np.floating)) and _isnan(x)) \
        or (isinstance(x, (np.datetime64, np.timedelta64)) and np.isnat(x))
