"""C13: fixing parameters gives the same model with those parameters pinned."""
import itertools

import numpy as np

from symx.explore import Harness
from .common import leaf_model, builtin, bi_dates, uf_value

NAN = float('nan')


def merged(mask, fixed, free):
    free = list(free)
    return [fixed[i] if mask[i] else free.pop(0) for i in range(len(mask))]


def h_fix(env, mask, as_array):
    n = len(mask)
    m = leaf_model(env, 'm', n)
    fixed = [env.real('f%d' % i) if mask[i] else NAN for i in range(n)]
    given = env.arr(fixed) if as_array else list(fixed)
    fx = env.fm.fix_params_fmodel(m, given)
    k = n - sum(mask)
    env.check('free parameter count', fx.n_params == k)
    xs, ys = env.arr(env.reals('x', 2)), env.arr(env.reals('y', 2))
    first = None
    for rnd in range(2):
        p = env.reals('p%d_' % rnd, k)
        for mult in (False, True):
            got = fx(xs, None, env.arr(p), is_mult=mult)
            spec = m(xs, None, env.arr(merged(mask, fixed, p)), is_mult=mult)
            env.check('value', env.all_eq(got, spec), lambda: (list(got), list(spec)))
            if rnd == 0 and not mult:
                first = (list(got), list(spec))
    env.check('earlier results stay', env.all_eq(first[0], first[1]))
    for mult in (False, True):
        full = list(m.f_init_params(xs, ys, None, mult))
        gi = list(fx.f_init_params(xs, ys, None, mult))
        env.check('initial', env.all_eq(gi, [v for v, f in zip(full, mask) if not f]), lambda: (gi, full))
    lo, hi = m.f_bounds(xs, ys, None)
    glo, ghi = fx.f_bounds(xs, ys, None)
    env.check('bounds', env.all_eq(glo, [v for v, f in zip(lo, mask) if not f])
              + env.all_eq(ghi, [v for v, f in zip(hi, mask) if not f]))
    env.check('argument untouched', [env.eq(a, b) for a, b in zip(given, fixed)])


def h_fix_builtin(env, name, other, op, mask):
    ma = builtin(env, name)
    m = ma if other is None else (ma + builtin(env, other) if op == '+' else ma * builtin(env, other))
    n = m.n_params
    mask = [bool(mask[i % len(mask)]) for i in range(n)]
    fixed = [env.real('f%d' % i) if mask[i] else NAN for i in range(n)]
    fx = env.fm.fix_params_fmodel(m, list(fixed))
    xs, d = env.arr([1., 2., env.real('x2', 3, 9), 10.]), env.dates(bi_dates(4))
    for mult in (False, True):
        p = env.reals('p%d_' % mult, n - sum(mask))
        got = fx(xs, d, env.arr(p), is_mult=mult)
        spec = m(xs, d, env.arr(merged(mask, fixed, p)), is_mult=mult)
        env.check('value', env.all_eq(got, spec), lambda: (list(got), list(spec)))
    env.observe('y', got)


def h_simplify(env, n, container, infs):
    fm = env.fm
    lo, hi = [], []
    for i in range(n):
        if infs[i] == 'l':
            l, h = -float('inf'), env.real('h%d' % i)
        elif infs[i] == 'h':
            l, h = env.real('l%d' % i), float('inf')
        elif infs[i] == 'b':
            l, h = -float('inf'), float('inf')
        else:
            l, h = env.real('l%d' % i), env.real('h%d' % i)
            env.assume(l <= h)
        lo.append(l)
        hi.append(h)

    def wrap(v):
        return list(v) if container == 'list' else env.arr(v)

    base = leaf_model(env, 'm', n)
    m = fm.ForecastModel('m', n, base.f_model, base.f_init_params, lambda a_x=None, a_y=None, a_date=None: (wrap(lo), wrap(hi)))
    xs, ys = env.arr(env.reals('x', 2)), env.arr(env.reals('y', 2))
    s = fm.simplify_model(m, xs, ys, None)
    mask = [infs[i] == '-' and bool(lo[i] == hi[i]) for i in range(n)]
    k = n - sum(mask)
    env.check('fixes exactly the pinned parameters', s.n_params == k, lambda: (s.name, mask))
    if k == n:
        env.check('unchanged', s is m)
    if s.n_params == k:
        p = env.reals('p', k)
        got = s(xs, None, env.arr(p))
        spec = m(xs, None, env.arr(merged(mask, hi, p)))
        env.check('value', env.all_eq(got, spec), lambda: (list(got), list(spec)))


def h_get_fixed(env, n):
    m = leaf_model(env, 'm', n)
    p = env.arr(env.reals('p', n))
    fx = env.fm.get_fixed_model(m, p)
    xs = env.arr(env.reals('x', 2))
    env.check('no free parameters', fx.n_params == 0)
    for mult in (False, True):
        got = fx(xs, None, [], is_mult=mult)
        env.check('value', env.all_eq(got, m(xs, None, p, is_mult=mult)))
    if n:
        st, v = env.call(env.fm.get_fixed_model, m, env.arr(env.reals('q', n + 1)))
        env.check('wrong length refused', st == 'err' and isinstance(v, ValueError))


def h_fix_naive(env, name, op, mult, whole):
    """models that need the actuals go on receiving them; unusable input goes on being refused"""
    fm = env.fm
    days = bi_dates(4)
    df = env.frame(dict(date=env.datecol(days), x=np.arange(4.), y=env.col(env.reals('y', 4)), weight=np.ones(4)))
    base = builtin(env, name)
    m = base + fm.model_linear if op == '+' else base * fm.model_linear
    fixed = [env.real('f0'), env.real('f1') if whole else NAN]
    p = [] if whole else [env.real('p')]
    xs, d = np.array([2., 3., 4., 5.]), env.dates(bi_dates(6)[2:])
    spec = m(xs, d, env.arr(merged([True, whole], fixed, p)), is_mult=mult, df_actuals=df)
    for fx in [fm.fix_params_fmodel(m, list(fixed))] + ([fm.get_fixed_model(m, env.arr(fixed))] if whole else []):
        st, got = env.call(fx, xs, d, env.arr(p), is_mult=mult, df_actuals=df)
        env.check('evaluates with actuals', st == 'ok', lambda: repr(got))
        if st == 'ok':
            env.check('value', env.all_eq(got, spec), lambda: (list(got), list(spec)))


def h_valid(env, n, as_fixed):
    """a fixed model accepts the inputs the original accepts"""
    fm = env.fm
    base = leaf_model(env, 'm', n)

    def check(a_x, a_y, a_date):
        assert a_y[0] > a_x[1]

    def check2(a_x, a_y, a_date):
        return bool(a_y[1] > a_x[0])
    m = fm.ForecastModel('m', n, base.f_model, base.f_init_params, base.f_bounds, l_f_validate_input=[check, check2])
    fx = fm.get_fixed_model(m, env.arr(env.reals('f', n))) if as_fixed else fm.fix_params_fmodel(m, [env.real('f')] + [NAN] * (n - 1))
    xs, ys = env.arr(env.reals('x', 2)), env.arr(env.reals('y', 2))
    want = bool(ys[0] > xs[1]) and bool(ys[1] > xs[0])
    env.check('same inputs accepted', bool(fx.validate_input(xs, ys, None)) == want)


def fix_cases(tier):
    return [dict(mask=list(mk), as_array=a) for n in range(1, 4 if tier == 'quick' else 6)
            for mk in itertools.product([False, True], repeat=n) for a in (False, True)]


def fb_cases(tier):
    names = [('linear', None), ('step', None), ('ramp', None), ('linear', 'season_wday'), ('constant', 'calendar_uk'), ('two_steps', None),
             ('linear', 'ramp'), ('season_month', None)]
    masks = [(1, 0), (0, 1), (0, 0), (1, 1)] if tier == 'quick' else [(1, 0), (0, 1), (0, 0), (1, 1), (1, 1, 0), (0, 0, 1), (1, 0, 0)]
    return [dict(name=a, other=b, op=o, mask=list(mk)) for a, b in names for o in ('+*' if b else '+') for mk in masks]


def simp_cases(tier):
    ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    return [dict(n=n, container=c, infs=''.join(i)) for n in ns for c in ('array', 'list')
            for i in itertools.product('-lhb' if n < 3 else '-b', repeat=n)]


HARNESSES = [
    Harness('fix_naive', h_fix_naive, lambda t: [dict(name=a, op=o, mult=m, whole=w) for a in ('naive', 'snaive_wday') for o in '+*'
                                                 for m in (False, True) for w in (False, True)],
            reach=('value', 'evaluates with actuals'), bounds='sums and products of a naive and a linear model, 4 actuals, 4 samples, every value'),
    Harness('valid', h_valid, lambda t: [dict(n=n, as_fixed=a) for n in (1, 2, 3) for a in (False, True)], reach=('same inputs accepted',),
            bounds='two arbitrary validation functions, 1-3 parameters'),
    Harness('fix', h_fix, fix_cases, reach=('value', 'initial', 'bounds', 'earlier results stay'), validate=1,
            bounds='all masks over 1-3 (thorough 1-5) parameters of an arbitrary model, every value, two evaluations'),
    Harness('fix_builtin', h_fix_builtin, fb_cases, reach=('value',), validate=1, bounds='built-in and composite models, 4 samples'),
    Harness('simplify', h_simplify, simp_cases, reach=('value', 'unchanged', 'fixes exactly the pinned parameters'), validate=1,
            bounds='1-3 parameters, every finite or infinite bound'),
    Harness('get_fixed', h_get_fixed, lambda t: [dict(n=n) for n in range(0, 4)], reach=('value', 'wrong length refused'), bounds='0-3 parameters'),
]
