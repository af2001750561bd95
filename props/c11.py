"""C11: built-in models compute their documented formulas."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import builtin

K = 2.0 * np.pi / 365.25
EPOCH = pd.Timestamp('1970-01-01')


def spec_value(env, name, x, p, mult):
    one, zero = 1.0, 0.0
    base = one if mult else zero
    if name == 'constant':
        return p[0]
    if name in ('linear', 'linear_nondec'):
        return p[0] * x + p[1]
    if name == 'quasilinear':
        return p[0] * env.pow(x, p[1]) + p[2]
    if name == 'exp':
        return p[0] * env.pow(p[1], x)
    if name == 'decay':
        return p[0] * env.exp(p[1] * x) + p[2]
    if name == 'step':
        return env.ite(x >= p[0], p[1], base)
    if name == 'two_steps':
        a, b = env.ite(x >= p[0], p[1], base), env.ite(x >= p[2], p[3], base)
        return a * b if mult else a + b
    if name in ('sigmoid', 'sigmoid_step'):
        return base + (p[0] - base) / (1.0 + env.exp(-(p[2] * (x - p[1]))))
    if name == 'ramp':
        return base + env.ite(x >= p[0], (x - p[0]) * p[1], zero)
    if name == 'spike':
        return env.ite(env.and_(x >= p[1], x < p[2]), p[0], base)
    raise KeyError(name)


def tame(env, name, xs, p):
    """keep the replay away from overflow"""
    if env.sym:
        return
    if name in ('sigmoid', 'sigmoid_step'):
        env.skip_unless(all(abs(p[2] * (x - p[1])) <= 60 for x in xs) and max(abs(v) for v in p) <= 1e6)
    elif name == 'decay':
        env.skip_unless(all(abs(p[1] * x) <= 60 for x in xs) and max(abs(v) for v in p) <= 1e6)
    elif name in ('exp', 'quasilinear'):
        env.skip_unless(max([abs(v) for v in list(p) + list(xs)] or [0]) <= 20)


def h_num(env, name, n, mult):
    m = builtin(env, name)
    lo, strict = None, False
    if name in ('quasilinear',):
        lo, strict = 0, True
    if name == 'spike':
        xs = [env.real('x0', 0, 20)]
        for i in range(1, n):
            xs.append(xs[-1] + 1.0)
    else:
        xs = [env.real('x%d' % i, lo, strict=strict) for i in range(n)]
    p = [env.real('p%d' % i, 0, strict=True) if name == 'exp' and i == 1 else env.real('p%d' % i) for i in range(m.n_params)]
    if name == 'spike':
        env.assume(p[2] >= p[1])
    tame(env, name, xs, p)
    y = m(env.arr(xs), None, env.arr(p), is_mult=mult)
    env.check('length', len(y) == n)
    spec = [spec_value(env, name, x, p, mult) for x in xs]
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))
    env.observe('y', y)


def h_whole(env, name, xs, mult, dtype):
    """x given as whole numbers, as in a table read from a file; parameters given as an array or a list"""
    m = builtin(env, name)
    p = [env.real('p%d' % i, 0, strict=True) if name == 'exp' and i == 1 else env.real('p%d' % i) for i in range(m.n_params)]
    if name == 'spike':
        env.assume(p[2] >= p[1])
    tame(env, name, xs, p)
    y = m(np.array(xs, dtype=dtype), None, env.arr(p) if mult else list(p) if name not in ('two_steps',) else env.arr(p), is_mult=mult)
    spec = [spec_value(env, name, float(x), p, mult) for x in xs]
    env.check('length', len(y) == len(xs))
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))


def h_sigmoid_shape(env, mult):
    """0 (1) far below, B far above, half way at the centre, monotone between"""
    m = env.fm.model_sigmoid
    B, C, D = env.real('B'), env.real('C', -20, 20), env.real('D', 0, 5, strict=True)
    x1, x2 = env.real('x1', -20, 20), env.real('x2', -20, 20)
    env.assume(x1 < x2)
    base = 1.0 if mult else 0.0
    y = m(env.arr([x1, x2, C]), None, env.arr([B, C, D]), is_mult=mult)
    env.check('centre', env.eq(y[2], (B + base) / 2.0), lambda: list(y))
    env.check('between base and B', env.or_(env.and_(y[0] >= base, y[0] <= B), env.and_(y[0] <= base, y[0] >= B)) if env.sym
              else min(base, B) - 1e-9 <= y[0] <= max(base, B) + 1e-9)


def h_month_wday(env, name, n, lo, hi, mult):
    m = builtin(env, name)
    ds = [env.date('d%d' % i, lo, hi) for i in range(n)]
    p = env.reals('p', m.n_params)
    y = m(env.arr([0.] * n), env.dates(ds), env.arr(p), is_mult=mult)
    base = 1.0 if mult else 0.0
    spec = []
    for d in ds:
        if name == 'season_wday':
            k = env.weekday(d)
            v = base
            for j in range(6):
                v = env.ite(k == j + 1, p[j], v)
        elif name == 'season_wday_2':
            v = env.ite(env.weekday(d) < 5, base + p[0], base)
        elif name == 'dummy_month_start':
            v = env.ite(d.day == 1, base + p[0], base)
        elif name == 'dummy_christmas':
            v = env.ite(env.and_(d.month == 12, d.day == 25), base + p[0], base)
        else:
            k = d.month - 1
            v = base if k == 0 else p[k - 1]
        spec.append(v)
    env.check('length', len(y) == n)
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))
    env.observe('y', y)


def h_fourier(env, lo, days, mult):
    m = env.fm.model_season_fourier_yearly
    k = env.cint('day', 0, days)
    d0 = pd.Timestamp(lo) + pd.Timedelta(days=k)
    ds = [d0, d0 + pd.Timedelta(days=200)]
    p = env.reals('p', 20)
    y = m(env.arr([3., 4.]), pd.DatetimeIndex(ds), env.arr(p), is_mult=mult)
    env.check('length', len(y) == 2)
    spec = []
    for d in ds:
        t = (d - EPOCH).days
        v = 0.0
        for h in range(10):
            v = v + p[h] * float(np.sin(K * (h + 1) * t)) + p[10 + h] * float(np.cos(K * (h + 1) * t))
        spec.append(v)
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))


def h_clock(env, name, lo, days, mult):
    """dates with a time of day belong to their day"""
    m = env.fm.model_season_fourier_yearly if name == 'fourier' else builtin(env, name)
    k, h = env.cint('day', 0, days), env.cint('hour', 0, 23)
    mi = env.choice('minute', (0, 59))
    d0 = pd.Timestamp(lo) + pd.Timedelta(days=k)
    ds = [d0 + pd.Timedelta(hours=h, minutes=mi), d0 + pd.Timedelta(days=1)]
    p = env.reals('p', m.n_params)
    y = m(env.arr([3., 4.]), pd.DatetimeIndex(ds), env.arr(p), is_mult=mult)
    base, spec = (1.0 if mult else 0.0), []
    for d in ds:
        if name == 'fourier':
            t = (d.normalize() - EPOCH).days
            v = 0.0
            for j in range(10):
                v = v + p[j] * float(np.sin(K * (j + 1) * t)) + p[10 + j] * float(np.cos(K * (j + 1) * t))
        elif name == 'season_wday':
            v = p[d.weekday() - 1] if d.weekday() else base
        elif name == 'season_month':
            v = p[d.month - 2] if d.month > 1 else base
        elif name == 'season_wday_2':
            v = base + p[0] if d.weekday() < 5 else base
        elif name == 'dummy_month_start':
            v = base + p[0] if d.day == 1 else base
        else:
            v = base + p[0] if (d.month, d.day) == (12, 25) else base
        spec.append(v)
    env.check('value', env.all_eq(y, spec), lambda: (ds, list(y), spec))


def h_step_spike_date(env, kind, n, mult):
    fm = env.fm
    ds = [env.date('d%d' % i, '2018-01-01', '2018-12-31') for i in range(n)]
    s, e = pd.Timestamp('2018-03-05'), pd.Timestamp('2018-03-09')
    A = env.real('A')
    base = 1.0 if mult else 0.0
    if kind == 'step':
        m = fm.get_model_step_date('2018-03-05')
        spec = [env.ite(d >= s, A, base) for d in ds]
    else:
        m = fm.get_model_spike_date(s, e)
        spec = [env.ite(env.and_(d >= s, d < e), A, base) for d in ds]
    y = m(env.arr([0.] * n), env.dates(ds), env.arr([A]), is_mult=mult)
    env.check('length', len(y) == n)
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))
    env.observe('y', y)


def h_null_fixed(env, mult):
    fm = env.fm
    y = fm.model_null(env.arr([1., 2.]), None, [], is_mult=mult)
    env.check('null', env.eq(float(y), 1.0 if mult else 0.0))
    x = env.reals('x', 2)
    p = env.reals('p', 2)
    m = fm.get_fixed_model(fm.model_linear, env.arr(p))
    env.check('fixed count', m.n_params == 0)
    y = m(env.arr(x), None, [], is_mult=mult)
    env.check('fixed', env.all_eq(y, [p[0] * v + p[1] for v in x]))


NUM = ['constant', 'linear', 'linear_nondec', 'quasilinear', 'exp', 'decay', 'step', 'two_steps', 'sigmoid', 'sigmoid_step', 'ramp',
       'spike']


def num_cases(tier):
    ns = (2, 3) if tier == 'quick' else (1, 2, 3, 4, 5)
    return [dict(name=m, n=(n + 3 if m == 'spike' else n), mult=mu) for m in NUM for n in ns for mu in (False, True)]


def mw_cases(tier):
    out = []
    for mu in (False, True):
        for nm in ('season_wday', 'season_wday_2'):
            out.append(dict(name=nm, n=2, lo='2000-01-01', hi='2030-12-31', mult=mu))
        out.append(dict(name='season_month', n=1, lo='2015-01-01', hi='2020-12-31', mult=mu))
        out.append(dict(name='season_month', n=2, lo='2019-11-01', hi='2020-03-31', mult=mu))
        out.append(dict(name='dummy_month_start', n=1, lo='2015-01-01', hi='2020-12-31', mult=mu))
        out.append(dict(name='dummy_christmas', n=1, lo='2015-01-01', hi='2020-12-31', mult=mu))
        if tier != 'quick':
            out.append(dict(name='season_wday', n=3, lo='2000-01-01', hi='2030-12-31', mult=mu))
            out.append(dict(name='season_month', n=2, lo='2015-01-01', hi='2017-12-31', mult=mu))
            out.append(dict(name='season_month', n=1, lo='1995-01-01', hi='2040-12-31', mult=mu))
            out.append(dict(name='dummy_christmas', n=1, lo='1995-01-01', hi='2040-12-31', mult=mu))
    return out


B2 = [dict(mult=False), dict(mult=True)]
HARNESSES = [
    Harness('numeric', h_num, num_cases, reach=('value', 'length'), validate=2,
            bounds='2-3 samples (thorough 1-5), every real x and parameter (quasilinear x>0, exponential base>0); exp/pow uninterpreted'),
    Harness('whole', h_whole, lambda t: [dict(name=m, xs=xs, mult=mu, dtype=dt) for m in NUM for xs, dt in (((1, 2, 5), 'int64'), ((1, 2, 3, 4), 'int32')) for mu in (False, True)
                                         if not (m == 'spike' and xs[-1] == 5)],
            reach=('value',), validate=1, bounds='3-4 whole-number samples of two integer types, every parameter'),
    Harness('sigmoid_shape', h_sigmoid_shape, B2, reach=('centre', 'between base and B'), bounds='|x|,|C|<=20, 0<D<=5'),
    Harness('calendar', h_month_wday, mw_cases, reach=('value',), validate=3, bounds='1-2 dates anywhere in the stated windows'),
    Harness('fourier', h_fourier, lambda tier: [dict(lo='2016-01-01', days=60 if tier == 'quick' else 1500, mult=m) for m in (False, True)],
            reach=('value',), validate=2, bounds='every date in the window, every parameter vector'),
    Harness('clock', h_clock, lambda tier: [dict(name=nm, lo=lo, days=1 if tier == 'quick' else 10, mult=m) for nm, lo in (
        ('fourier', '2020-01-31'), ('season_wday', '2020-02-28'), ('season_month', '2020-01-31'), ('season_wday_2', '2020-02-28'),
        ('dummy_month_start', '2020-01-31'), ('dummy_christmas', '2020-12-24')) for m in (False, True)],
            reach=('value',), validate=1, bounds='two (thorough 11) days in a stated place of the calendar, every hour, the first and last minute, every parameter vector'),
    Harness('datestep', h_step_spike_date, lambda tier: [dict(kind=k, n=n, mult=m) for k in ('step', 'spike') for n in ((2,) if tier == 'quick' else (2, 3, 4)) for m in (False, True)],
            reach=('value',), validate=3, bounds='2 dates (thorough 4) anywhere in 2018'),
    Harness('fixed', h_null_fixed, B2, reach=('null', 'fixed'), bounds='2 samples'),
]
