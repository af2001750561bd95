"""IEEE-754 double scalar (z3 Float64), used where rounding and underflow matter."""
import math

import numpy as np
import z3

from . import core
from .core import Sym, SBool, EngineGap, ctx

F64 = z3.Float64()
RNE = z3.RNE()


class SFloat(Sym):
    __slots__ = ('e',)
    __array_priority__ = 0

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    @staticmethod
    def lift(x):
        if type(x) is SFloat:
            return x.e
        if core.is_sym(x):
            return None
        if isinstance(x, (int, float, np.number)):
            return z3.FPVal(float(x), F64)
        return None

    def _b(self, o, f, refl=False):
        e = SFloat.lift(o)
        if e is None:
            return NotImplemented
        return SFloat(f(RNE, e, self.e) if refl else f(RNE, self.e, e))

    def __add__(self, o): return self._b(o, z3.fpAdd)
    def __radd__(self, o): return self._b(o, z3.fpAdd, True)
    def __sub__(self, o): return self._b(o, z3.fpSub)
    def __rsub__(self, o): return self._b(o, z3.fpSub, True)
    def __mul__(self, o): return self._b(o, z3.fpMul)
    def __rmul__(self, o): return self._b(o, z3.fpMul, True)
    def __truediv__(self, o):
        e = SFloat.lift(o)
        if e is None:
            return NotImplemented
        if bool(SBool(z3.fpIsZero(e))):
            raise ZeroDivisionError('float division by zero')
        return SFloat(z3.fpDiv(RNE, self.e, e))

    def __rtruediv__(self, o):
        e = SFloat.lift(o)
        if e is None:
            return NotImplemented
        return SFloat(e).__truediv__(self)

    def __neg__(self): return SFloat(z3.fpNeg(self.e))
    def __pos__(self): return self
    def __abs__(self): return SFloat(z3.fpAbs(self.e))

    def __pow__(self, o):
        if type(o) is int and 1 <= o <= 4:
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        raise EngineGap('float power')

    def _c(self, o, f):
        e = SFloat.lift(o)
        return NotImplemented if e is None else SBool(f(self.e, e))

    def __lt__(self, o): return self._c(o, z3.fpLT)
    def __le__(self, o): return self._c(o, z3.fpLEQ)
    def __gt__(self, o): return self._c(o, z3.fpGT)
    def __ge__(self, o): return self._c(o, z3.fpGEQ)
    def __eq__(self, o): return self._c(o, z3.fpEQ)
    def __ne__(self, o): return self._c(o, lambda a, b: z3.Not(z3.fpEQ(a, b)))
    def __hash__(self): return core.SYM_HASH
    def __bool__(self): return ctx().branch(z3.Not(z3.fpIsZero(self.e)))
    def __float__(self): raise EngineGap('float() of a symbolic double')

    def isnan(self): return bool(SBool(z3.fpIsNaN(self.e)))
    def isinf(self): return bool(SBool(z3.fpIsInf(self.e)))
    def isfinite(self): return not (self.isnan() or self.isinf())

    def log(self):
        """math.log: domain error for <= 0, otherwise a finite double, monotone, correct sign."""
        if not bool(SBool(z3.fpGT(self.e, z3.FPVal(0.0, F64)))):
            if self.isnan():
                return SFloat(z3.fpNaN(F64))
            raise ValueError('math domain error')
        c = ctx()
        f = z3.Function('fp_log', F64, F64)
        e = z3.simplify(self.e)
        t = f(e)
        k = ('fplog', e.get_id())
        if k not in c.axiom_terms:
            one = z3.FPVal(1.0, F64)
            zero = z3.FPVal(0.0, F64)
            c.axiom_terms[k] = e
            c.add(z3.If(z3.fpIsInf(e), z3.fpIsInf(t), z3.And(
                z3.fpLEQ(t, z3.FPVal(709.79, F64)), z3.fpGEQ(t, z3.FPVal(-744.45, F64)),
                z3.Implies(z3.fpGT(e, one), z3.fpGT(t, zero)), z3.Implies(z3.fpLT(e, one), z3.fpLT(t, zero)),
                z3.Implies(z3.fpEQ(e, one), z3.fpEQ(t, zero)))))
        return SFloat(t)

    def __repr__(self): return 'fp' + str(z3.simplify(self.e))[:60]
    __str__ = __repr__
    def __format__(self, spec): return repr(self)
