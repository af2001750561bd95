"""C05: AICc is defined for every fit and ranks fits correctly."""
import math

import numpy as np
import pandas as pd

from symx.explore import Harness


def h_formula(env, k):
    n = env.int('n', 1, 2 ** 20)
    E = env.real('E', 0)
    st, v = env.call(env.mu.get_aic_c, E, n, k)
    short = bool(n <= k + 1)
    if short:
        env.check('too short is refused', st == 'err' and isinstance(v, ValueError), lambda: v)
        return
    env.check('a long enough fit has a score', st == 'ok', lambda: v)
    if bool(E > 0):
        # logarithm laws for the terms that may occur
        lE, ln = env.log(E), env.log(n * 1.0)
        env.assume(env.eq(env.log(E / n), lE - ln))
        env.assume(env.eq(env.log(n / E), ln - lE))
        spec = n * (lE - ln) + 2 * k + (2.0 * k * (k + 1)) / (n - k - 1)
        env.check('value', env.eq(v, spec), lambda: (v, spec))
        env.observe('v', v)


def h_double(env, k):
    """IEEE doubles: total on every non-negative finite error and every length"""
    n = env.float64('n', k + 2, 2 ** 20, integral=True)
    E = env.float64('E', 0.0, 1.7e308)
    st, v = env.call(env.mu.get_aic_c, E, n, k)
    env.check('defined', st == 'ok', lambda: v)


def h_zero(env, k):
    n = env.int('n', k + 2, 2 ** 20)
    E = env.real('E', 0, strict=True)
    env.assume(E >= 5e-324)
    # the logarithm of the smallest positive double bounds every other one from below
    env.assume(env.log(E) >= math.log(5e-324))
    ln = env.log(n * 1.0)
    env.assume(env.eq(env.log(E / n), env.log(E) - ln))
    st, z = env.call(env.mu.get_aic_c, 0.0, n, k)
    env.check('perfect fit has a score', st == 'ok', lambda: z)
    if st != 'ok':
        return
    v = env.mu.get_aic_c(E, n, k)
    env.check('perfect fit is never worse', z <= v, lambda: (z, v))


def h_rank(env, k):
    """same n and k: smaller error, smaller score (real arithmetic, strictly increasing logarithm)"""
    n = env.int('n', k + 2, 2 ** 20)
    a, b = env.real('Ea', 0, strict=True), env.real('Eb', 0, strict=True)
    env.assume(a < b)
    va, vb = env.mu.get_aic_c(a, n, k), env.mu.get_aic_c(b, n, k)
    la, lb = env.log(a), env.log(b)
    ln = env.log(n * 1.0)
    for e, l in ((a, la), (b, lb)):
        env.assume(env.eq(env.log(e / n), l - ln))
    env.check('order', va <= vb, lambda: (va, vb))


def h_best(env, n, labels):
    """the key of the first lowest score; null scores never win"""
    keys = {'position': list(range(n)), 'other': [7 * (n - i) for i in range(n)], 'text': ['m%d' % i for i in range(n)], 'several': [(n - i, 'a%d' % i) for i in range(n)]}[labels]
    kinds = [env.choice('kind%d' % i, ('value', 'null', '-inf')) for i in range(n)]
    v = [env.real('v%d' % i, -1e6, 1e6) if k == 'value' else float('nan') if k == 'null' else float('-inf') for i, k in enumerate(kinds)]
    if not n:
        s = pd.Series([], dtype=float)
    else:
        s = pd.Series(env.col(v), index=pd.MultiIndex.from_tuples(keys) if labels == 'several' else keys)
    st, got = env.call(env.mu.get_s_aic_c_best_result_key, s)
    env.check('has an answer', st == 'ok', lambda: got)
    if st != 'ok':
        return
    have = [i for i, k in enumerate(kinds) if k != 'null']
    if not have:
        env.check('best score', got is None, lambda: got)
        return
    lows = [i for i, k in enumerate(kinds) if k == '-inf']
    if lows:
        env.check('best score', got == keys[lows[0]], lambda: (got, v))
        return
    env.check('best score', got in keys, lambda: got)
    j = keys.index(got)
    env.check('best score', [kinds[j] == 'value'] + [env.le(v[j], v[i]) if i > j else v[j] < v[i] for i in have if i != j], lambda: (got, v))


def cases(q, t):
    return lambda tier: [dict(k=k) for k in (q if tier == 'quick' else t)]


HARNESSES = [
    Harness('formula', h_formula, cases(range(0, 13), range(0, 41)), reach=('value', 'too short is refused'),
            bounds='n in 1..2^20, every real E >= 0, k in 0..12 (quick) / 0..40; log is an uninterpreted increasing function with log(E/n)=log E-log n'),
    Harness('rank', h_rank, cases(range(0, 7), range(0, 20)), reach=('order',), bounds='n in k+2..2^20, every pair of errors'),
    Harness('double', h_double, cases((0, 1, 2, 5), range(0, 12)), reach=('defined',),
            bounds='IEEE-754 doubles: every E in [0, 1.7e308] (subnormals included), every integral n in k+2..2^20'),
    Harness('zero', h_zero, cases((0, 1, 2, 3), range(0, 10)), reach=('perfect fit is never worse',),
            bounds='n in k+2..2^20, every E at least the smallest positive double'),
    Harness('best', h_best, lambda t: [dict(n=n, labels=l) for n in range(0, 4 if t == 'quick' else 6) for l in ('position', 'other', 'text', 'several')], reach=('best score', 'has an answer'),
            validate=1, bounds='0-3 (thorough 5) scores, each any real, null or minus infinity, four kinds of labels'),
]
