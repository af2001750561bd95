"""C10: caching model variables never changes model output."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import builtin, bi_dates, Optimizer, stub_uniform, free_params


def get(env, spec):
    """'a', ['+', a, b], ['*', a, b], ['fix', a, mask]"""
    if isinstance(spec, str):
        return builtin(env, spec)
    if spec[0] == 'fix':
        m = get(env, spec[1])
        return env.fm.fix_params_fmodel(m, [0.5 if i in spec[2] else float('nan') for i in range(m.n_params)])
    a, b = get(env, spec[1]), get(env, spec[2])
    return a + b if spec[0] == '+' else a * b


def h_model(env, spec, n, lo, hi, mult):
    m = get(env, spec)
    ds = [env.date('d%d' % i, lo, hi) for i in range(n)]
    xs = env.arr([env.real('x%d' % i, 0, 100, strict=True) for i in range(n)])
    di = env.dates(ds)
    p = env.arr(env.reals('p', m.n_params))
    cache = m.init_cache(xs, di)
    plain = m(xs, di, p, is_mult=mult)
    cached = m(xs, di, p, is_mult=mult, **cache)
    env.check('same output', env.all_eq(plain, cached), lambda: (list(plain), list(cached)))
    again = m(xs, di, p, is_mult=mult, **cache)
    env.check('same output on reuse', env.all_eq(plain, again), lambda: (list(plain), list(again)))
    env.observe('y', plain)


def h_fourier(env, spec, days, mult):
    """Fourier terms need concrete dates: the solver forks on the date"""
    m = get(env, spec)
    k = env.cint('day', 0, days)
    di = pd.DatetimeIndex([pd.Timestamp('2016-02-01') + pd.Timedelta(days=k + j) for j in (0, 40, 7)])
    xs = env.arr([env.real('x%d' % i, 0, 100, strict=True) for i in range(3)])
    p = env.arr(env.reals('p', m.n_params))
    cache = m.init_cache(xs, di)
    plain = m(xs, di, p, is_mult=mult)
    cached = m(xs, di, p, is_mult=mult, **cache)
    env.check('same output', env.all_eq(plain, cached), lambda: (list(plain), list(cached)))


def h_fit(env, spec, n, start, dup):
    """the optimizer gets the same objective with and without cache"""
    m = get(env, spec)
    dates = bi_dates(n, start)
    if dup:
        dates[2] = dates[1]
    ys = [env.real('y%d' % i, 1, 50) for i in range(n)]
    ws = [env.real('w%d' % i, 0, 5, strict=True) for i in range(n)]
    x = [float((d - dates[0]).days) for d in dates]
    df = env.frame(dict(date=env.datecol(dates), x=np.array(x), y=env.col(ys), weight=env.col(ws)))
    stub_uniform(env, 0.5)
    p = {}

    def decide(call):
        k = len(call['x0'])
        if k not in p:
            p[k] = free_params(env, 'p%d' % k, k)
        call['obj'] = list(call['fun'](p[k]))
        return dict(x=p[k], cost=3.0, success=True)
    opt = Optimizer(env, decide)
    for c in (True, False):
        env.fc.fit_model(m, df, freq='D', source='s', df_actuals=df, use_cache=c)
    env.check('optimizer called alike', len(opt.calls) in (0, 2))
    if len(opt.calls) == 2:
        a, b = opt.calls
        env.check('same objective', env.all_eq(a['obj'], b['obj']), lambda: (a['obj'], b['obj']))
        env.check('same start', env.all_eq(a['x0'], b['x0']))


def h_reuse(env, spec, lo, hi, mult):
    """one model object for two series that agree in length, first and last date but not in between"""
    m = get(env, spec)
    a, b = env.date('a', lo, hi), env.date('b', lo, hi)
    first, last = pd.Timestamp(lo) - pd.Timedelta(days=3), pd.Timestamp(hi) + pd.Timedelta(days=3)
    xa, xb = env.real('xa', 0, 100, strict=True), env.real('xb', 0, 100, strict=True)
    p = env.arr(env.reals('p', m.n_params))
    for who, d, x in (('first', a, xa), ('second', b, xb), ('first again', a, xa)):
        di = env.dates([first, d, last])
        xs = env.arr([-7., x, 120.])
        plain = m(xs, di, p, is_mult=mult)
        cached = m(xs, di, p, is_mult=mult, **m.init_cache(xs, di))
        env.check('same output for the %s series' % who, env.all_eq(plain, cached), lambda: (list(plain), list(cached)))


def h_names(env, kind, mult):
    """parts that share a name but not their dates"""
    fm = env.fm
    ds = [env.date('d%d' % i, '2019-03-01', '2019-03-12') for i in range(2)]
    xs = env.arr([env.real('x%d' % i, 0, 10) for i in range(2)])
    di = env.dates(ds)
    if kind == 'lists':
        a, b = fm.get_model_dummy('promo', ['2019-03-04', '2019-03-09']), fm.get_model_dummy('promo', ['2019-03-06'])
    elif kind == 'numbers':
        a, b = fm.get_model_dummy('promo', [2, 3]), fm.get_model_dummy('promo', [7])
    elif kind == 'functions':
        a = fm.get_model_dummy('promo', lambda a_x, a_date, **kw: (a_date.day == 4).astype(float))
        b = fm.get_model_dummy('promo', lambda a_x, a_date, **kw: (a_date.day == 6).astype(float))
    else:
        class Cal(fm.AbstractHolidayCalendar):
            rules = [fm.Holiday('h1', month=3, day=4)]

        def other():
            class Cal(fm.AbstractHolidayCalendar):
                rules = [fm.Holiday('h2', month=3, day=6)]
            return Cal()
        if kind == 'calendars':
            a, b = fm.get_model_dummy('promo', Cal()), fm.get_model_dummy('promo', other())
        else:
            first, second = Cal(), other()
            first.name = second.name = 'Cal'
            a, b = fm.get_model_from_calendars([first, second], 'both'), None
    m = a if b is None else a * b if mult else a + b
    p = env.arr(env.reals('p', m.n_params))
    plain = m(xs, di, p, is_mult=mult)
    cached = m(xs, di, p, is_mult=mult, **m.init_cache(xs, di))
    env.check('same output', env.all_eq(plain, cached), lambda: (list(plain), list(cached)))


def h_own(env, key, with_lib, op, mult):
    """a user model with its own cached variable, whatever its name, next to a library model"""
    fm = env.fm

    def own_var(a_x, a_date):
        return env.arr([v * 2.0 + 1.0 for v in a_x])

    def f(a_x, a_date, params, is_mult=False, **kw):
        v = kw.get(key)
        if v is None:
            v = own_var(a_x, a_date)
        return env.arr([params[0] * u for u in v])
    m = fm.ForecastModel('own', 1, f, l_cache_vars=[key], dict_f_cache={key: own_var})
    if with_lib is not None:
        o = builtin(env, with_lib)
        m = {'+': lambda: m + o, '*': lambda: m * o, 'r+': lambda: o + m}[op]()
    ds = [env.date('d%d' % i, '2019-01-25', '2019-02-05') for i in range(2)]
    xs = env.arr([env.real('x%d' % i, 0, 100) for i in range(2)])
    di = env.dates(ds)
    p = env.arr(env.reals('p', m.n_params))
    plain = m(xs, di, p, is_mult=mult)
    cached = m(xs, di, p, is_mult=mult, **m.init_cache(xs, di))
    env.check('same output', env.all_eq(plain, cached), lambda: (list(plain), list(cached)))


def own_cases(tier):
    out = []
    for key in ('a_own', 'a_month', 'a_weekday', 'a_day'):
        for lib, op in ((None, '+'), ('linear', '+'), ('linear', '*'), ('season_wday', '+'), ('season_wday', 'r+'), ('season_month', '*')):
            if (key, lib) in (('a_month', 'season_month'), ('a_weekday', 'season_wday')):
                continue    # two meanings of one variable
            out.append(dict(key=key, with_lib=lib, op=op, mult=bool(len(out) % 2)))
    return out


WIN = dict(lo='2018-11-20', hi='2019-02-10')
M2 = (False, True)


def model_cases(tier):
    quick = tier == 'quick'
    single = ['season_wday', 'season_wday_2', 'season_month', 'dummy_christmas', 'dummy_month_start', 'calendar_uk', 'calendar_us',
              'calendar_ita', 'dummy_dates', 'dummy_x', 'date_list', 'step_date', 'spike_date', 'linear', 'constant', 'ramp']
    out = [dict(spec=s, n=n, mult=m, **WIN) for s in single for m in M2 for n in ((1,) if s in ('season_month', 'dummy_christmas') else (1, 2))]
    comps = [['+', 'linear', 'season_wday'], ['*', 'linear', 'season_wday'], ['*', ['+', 'linear', 'season_wday'], 'calendar_uk'],
             ['+', 'calendar_uk', 'calendar_ita'], ['*', 'calendar_us', 'calendar_uk'], ['+', 'dummy_x', 'dummy_dates'], ['*', 'season_wday', 'season_month'],
             ['+', 'season_month', 'season_wday'], ['+', ['*', 'linear', 'dummy_month_start'], ['*', 'dummy_x', 'season_wday_2']],
             ['fix', ['+', 'linear', 'season_wday'], [0, 3]], ['+', ['fix', 'calendar_uk', [1]], 'season_wday'],
             ['*', ['+', 'constant', 'season_wday'], ['+', 'constant', 'season_month']]]
    for c in comps:
        out.append(dict(spec=c, n=1, mult=False, **WIN))
        out.append(dict(spec=c, n=1, mult=True, lo='2019-03-01', hi='2019-05-10'))
        if not quick:
            for m in M2:
                out.append(dict(spec=c, n=2, mult=m, lo='2018-12-20', hi='2019-01-06'))
    if not quick:
        for s in single[:11]:
            for m in M2:
                out.append(dict(spec=s, n=1, mult=m, lo='2010-01-01', hi='2025-12-31'))
    return out


def reuse_cases(tier):
    wide = tier != 'quick'
    specs = ['season_wday', 'season_wday_2', 'dummy_month_start', 'calendar_uk', 'calendar_us', 'calendar_ita', 'dummy_x', 'dummy_dates', 'date_list',
             ['+', 'linear', 'season_wday'], ['*', 'linear', 'calendar_uk'], ['+', ['*', 'constant', 'dummy_x'], 'season_wday_2']]
    if wide:
        specs += ['season_month', 'dummy_christmas', ['*', 'season_wday', 'season_month']]
    return [dict(spec=s, lo='2018-12-22', hi='2018-12-28' if not wide else '2019-01-03', mult=m) for s in specs for m in M2]


def fourier_cases(tier):
    specs = ['season_fourier_yearly', ['+', 'linear', 'season_fourier_yearly'], ['*', 'season_wday', 'season_fourier_yearly'],
             ['*', ['+', 'linear', 'season_fourier_yearly'], 'calendar_uk']]
    return [dict(spec=s, days=12 if tier == 'quick' else 400, mult=m) for s in specs for m in M2]


def fit_cases(tier):
    specs = [['+', 'linear', 'season_wday'], ['*', 'linear', 'season_wday'], ['+', 'constant', 'calendar_uk'], ['*', 'linear', 'calendar_uk'],
             'linear', ['+', 'constant', 'dummy_x'], ['*', 'constant', ['+', 'dummy_dates', 'dummy_month_start']]]
    specs += [['+', 'naive', 'season_wday'], ['*', 'naive', 'calendar_uk'], ['*', 'snaive_wday', 'season_wday_2'], ['+', 'naive', 'linear'],
              ['fix', ['+', 'naive', 'season_wday'], [0, 3]]]
    if tier != 'quick':
        specs += [['+', 'linear', ['*', 'season_wday', 'calendar_us']], ['+', 'linear', 'season_month'], ['+', 'constant', 'date_list'],
                  ['*', ['+', 'linear', 'season_wday'], 'calendar_ita'], ['+', 'linear', 'season_fourier_yearly']]
    return [dict(spec=s, n=n, start=st, dup=d) for s in specs for n in (12,) for st in ('2018-12-20', '2019-04-15') for d in (False, True)]


HARNESSES = [
    Harness('model', h_model, model_cases, reach=('same output', 'same output on reuse'), validate=1,
            bounds='1-2 dates anywhere in a winter and a spring window (thorough: 2010-2025), every x and parameter, 16 models and 12 compositions'),
    Harness('reuse', h_reuse, reuse_cases, reach=('same output for the second series',), validate=1,
            bounds='3 samples, the middle one at any two dates and x values, the models of the first harness'),
    Harness('names', h_names, lambda t: [dict(kind=k, mult=m) for k in ('lists', 'numbers', 'functions', 'calendars', 'both') for m in M2],
            reach=('same output',), validate=1, bounds='two parts of one name, 2 samples on any of 12 dates, every parameter'),
    Harness('own', h_own, own_cases, reach=('same output',), validate=1,
            bounds='a user model with a cached variable of its own, alone and composed, 2 samples on any of 12 dates, every x and parameter'),
    Harness('fourier', h_fourier, fourier_cases, reach=('same output',), validate=1, bounds='3 dates, 13 (thorough 401) offsets'),
    Harness('fit', h_fit, fit_cases, reach=('same objective',), validate=1, bounds='12 daily samples, every value, weight and parameter vector'),
]
