"""C12: dummy, date-list and calendar models fire on exactly their dates."""
import itertools

import numpy as np
import pandas as pd

from symx.explore import Harness


def combine(env, mult, hits, params):
    """reference: sum (product) of one term per list"""
    out = 1.0 if mult else 0.0
    for h, a in zip(hits, params):
        t = env.ite(h, a + 1.0 if mult else a, 1.0 if mult else 0.0)
        out = out * t if mult else out + t
    return out


def h_numeric(env, n, k, mult, container):
    """list of x values, given as list / array / Series"""
    vals = env.reals('v', k)
    xs = env.reals('x', n)
    if container == 'list':
        lst = list(vals)
    elif container == 'array':
        lst = env.arr(vals)
    else:
        lst = pd.Series(env.col(vals))
    m = env.fm.get_model_dummy('dm', lst)
    A = env.real('A')
    y = m(env.arr(xs), None, env.arr([A]), is_mult=mult)
    env.check('length', len(y) == n)
    spec = [combine(env, mult, [env.or_(*[x == v for v in vals])], [A]) for x in xs]
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))
    env.check('one parameter', m.n_params == 1)
    env.observe('y', y)


def h_dates(env, n, lists, mult, api, hours):
    """concrete date lists, symbolic sample dates in any order, symbolic parameters"""
    fm = env.fm
    lo, hi = '2018-12-01', '2019-02-28'
    ds = [env.date('d%d' % i, lo, hi) for i in range(n)]
    if hours:
        ds = [d + env.hours(env.int('h%d' % i, 0, 23)) for i, d in enumerate(ds)]
    if api == 'dummy':
        m = fm.get_model_dummy('dm', lists[0])
    elif api == 'dummy_ts':
        m = fm.get_model_dummy('dm', [pd.Timestamp(d) for d in lists[0]])
    else:
        m = fm.get_model_from_datelist('dm', *lists)
    p = env.reals('p', len(lists))
    env.check('one parameter per list', m.n_params == len(lists))
    y = m(env.arr([0.] * n), env.dates(ds), env.arr(p), is_mult=mult)
    env.check('length', len(y) == n)
    spec = [combine(env, mult, [env.or_(*[d == pd.Timestamp(t) for t in l]) for l in lists], p) for d in ds]
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))
    init = m.f_init_params(env.arr([0.] * n), env.arr([1.] * n), env.dates(ds), mult)
    env.check('initial parameter count', len(init) == len(lists))
    env.observe('y', y)


def h_symlist(env, n, k, mult):
    """the list itself is symbolic"""
    lo, hi = '2018-01-01', '2019-12-31'
    ls = [env.date('l%d' % i, lo, hi) for i in range(k)]
    ds = [env.date('d%d' % i, lo, hi) for i in range(n)]
    m = env.fm.get_model_dummy('dm', list(ls))
    A = env.real('A')
    y = m(env.arr([0.] * n), env.dates(ds), env.arr([A]), is_mult=mult)
    spec = [combine(env, mult, [env.or_(*[d == t for t in ls])], [A]) for d in ds]
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))
    env.observe('y', y)


# -- holidays, written independently of pandas.tseries.holiday
def easter(y):
    a, b, c = y % 19, y // 100, y % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    mo, da = divmod(h + l - 7 * m + 114, 31)
    return pd.Timestamp(y, mo, da + 1)


def D(y, m, d):
    return pd.Timestamp(y, m, d)


def plus(t, n):
    return t + pd.Timedelta(days=n)


def nth(y, m, wd, n):
    """n-th (or last: n=-1) weekday wd of a month"""
    if n > 0:
        t = D(y, m, 1)
        while t.weekday() != wd:
            t = plus(t, 1)
        return plus(t, 7 * (n - 1))
    t = plus(D(y + m // 12, m % 12 + 1, 1), -1)
    while t.weekday() != wd:
        t = plus(t, -1)
    return t


def nmon(t):          # weekend -> next Monday
    return plus(t, 7 - t.weekday()) if t.weekday() >= 5 else t


def nmontue(t):       # Saturday -> Monday, Sunday or Monday after a weekend holiday -> Tuesday (pandas next_monday_or_tuesday)
    return {5: plus(t, 2), 6: plus(t, 2), 0: plus(t, 1)}.get(t.weekday(), t)


def near(t):          # Saturday -> Friday, Sunday -> Monday
    return {5: plus(t, -1), 6: plus(t, 1)}.get(t.weekday(), t)


def cal_sets(name):
    ys = range(1999, 2033)
    out = {}
    if name == 'uk':
        a = [f(D(y, m, d)) for y in ys for m, d, f in ((1, 1, nmon), (12, 25, nmon), (12, 26, nmontue))]
        b = []
        for y in ys:
            b += [plus(easter(y), -2), plus(easter(y), 1), nth(y, 5, 0, 1), nth(y, 5, 0, -1)]
            t = D(y, 8, 30)
            while t.weekday() != 0:
                t = plus(t, -1)
            b.append(t)
        return [a, b]
    if name == 'ita':
        a = [f(D(y, m, d)) for y in ys for m, d, f in ((1, 1, nmon), (12, 25, nmon), (12, 26, nmontue), (1, 6, nmon))]
        b = []
        for y in ys:
            b += [plus(easter(y), 1)] + [D(y, m, d) for m, d in ((4, 25), (5, 1), (6, 2), (8, 15), (11, 1), (12, 8))]
        return [a, b]
    a = []
    for y in ys:
        a += [near(D(y, 1, 1)), nth(y, 1, 0, 3), nth(y, 2, 0, 3), nth(y, 5, 0, -1), near(D(y, 7, 4)), nth(y, 9, 0, 1),
              nth(y, 10, 0, 2), near(D(y, 11, 11)), nth(y, 11, 3, 4), near(D(y, 12, 25))]
        if y >= 2021:
            a.append(near(D(y, 6, 19)))
    return [a]


def h_calendar(env, cal, n, lo, hi, mult):
    fm = env.fm
    m = getattr(fm, 'model_calendar_' + cal)
    ds = [env.date('d%d' % i, lo, hi) for i in range(n)]
    sets = cal_sets(cal)
    env.check('one parameter per calendar', m.n_params == len(sets))
    p = env.reals('p', len(sets))
    y = m(env.arr([0.] * n), env.dates(ds), env.arr(p), is_mult=mult)
    env.check('length', len(y) == n)
    L, H = pd.Timestamp(lo), pd.Timestamp(hi)
    spec = []
    for d in ds:
        spec.append(combine(env, mult, [env.or_(*([d == t for t in s if L <= t <= H] or [False])) for s in sets], p))
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))
    env.observe('y', y)


def h_holiday(env, kind, n, mult):
    """single rule"""
    from pandas.tseries.holiday import Holiday, GoodFriday
    if kind == 'fixed':
        rule = Holiday('Summer Day', month=7, day=3)
        hits = [D(y, 7, 3) for y in range(2014, 2021)]
    elif kind == 'leap':
        rule = Holiday('Feb end', month=2, day=28)
        hits = [D(y, 2, 28) for y in range(2014, 2021)]
    else:
        rule = GoodFriday
        hits = [plus(easter(y), -2) for y in range(2014, 2021)]
    m = env.fm.get_model_dummy('dm', rule)
    ds = [env.date('d%d' % i, '2015-01-01', '2019-12-31') for i in range(n)]
    A = env.real('A')
    y = m(env.arr([0.] * n), env.dates(ds), env.arr([A]), is_mult=mult)
    spec = [combine(env, mult, [env.or_(*[d == t for t in hits])], [A]) for d in ds]
    env.check('value', env.all_eq(y, spec), lambda: (list(y), spec))
    env.observe('y', y)


def h_function(env, n, mult):
    """a user function of x and date"""
    fm = env.fm
    t = env.real('t')
    m = fm.get_model_dummy('dm', lambda a_x, a_date: np.array([1. if v > 3 else 0. for v in a_x]))
    xs = env.reals('x', n)
    A = env.real('A')
    y = m(env.arr(xs), None, env.arr([A]), is_mult=mult)
    env.check('value', env.all_eq(y, [combine(env, mult, [x > 3], [A]) for x in xs]), lambda: list(y))


LISTS = [[['2018-12-25', '2019-01-01', '2019-02-14']],
         [['2018-12-25'], ['2019-01-01', '2018-12-26']],
         [['2018-12-25', '2018-12-26'], ['2018-12-26', '2019-01-06'], ['2019-02-01']]]
TIMED = [['2018-12-25 12:00', '2018-12-31 23:00', '2019-01-06']]
M2 = (False, True)


def date_cases(tier):
    out = [dict(n=n, lists=LISTS[0], mult=m, api=a, hours=False) for n in (1, 3) for m in M2 for a in ('dummy', 'dummy_ts')]
    out += [dict(n=n, lists=l, mult=m, api='datelist', hours=False) for n in ((2,) if tier == 'quick' else (1, 2, 3)) for l in LISTS for m in M2]
    out += [dict(n=2, lists=LISTS[0], mult=m, api='dummy', hours=True) for m in M2]
    return out


def cal_cases(tier):
    if tier == 'quick':
        return [dict(cal=c, n=n, lo=lo, hi=hi, mult=m) for c in ('uk', 'ita', 'us') for m in M2
                for n, lo, hi in ((1, '2000-01-01', '2031-12-31'), (2, '2015-01-01', '2022-12-31'))]
    return [dict(cal=c, n=n, lo='2000-01-01', hi='2031-12-31', mult=m) for c in ('uk', 'ita', 'us') for m in M2 for n in (1, 2, 3)]


HARNESSES = [
    Harness('numeric', h_numeric, lambda t: [dict(n=n, k=k, mult=m, container=c) for n in (1, 2, 3) for k in ((1, 2) if t == 'quick' else (1, 2, 3, 4))
                                             for m in M2 for c in ('list', 'array', 'series')],
            reach=('value',), validate=2, bounds='1-3 samples, lists of 1-2 (thorough 4) arbitrary real x values'),
    Harness('dates', h_dates, date_cases, reach=('value', 'one parameter per list'), validate=3,
            bounds='1-3 dates in any order in a 3-month window (any hour in one case); 1-3 lists of literal dates'),
    Harness('timed', h_dates, lambda t: [dict(n=n, lists=l, mult=m, api=a, hours=True) for n in (1, 2) for m in M2 for l, a in
                                         ((TIMED, 'dummy'), (TIMED, 'dummy_ts'), ([TIMED[0][:1], TIMED[0][1:]], 'datelist'))],
            reach=('value', 'one parameter per list'), validate=2, bounds='1-2 dates at any hour, lists with times of day'),
    Harness('symlist', h_symlist, lambda t: [dict(n=n, k=k, mult=m) for n in (1, 2) for k in (1, 2, 3) for m in M2], reach=('value',), validate=2,
            bounds='lists of 1-3 arbitrary dates in 2018-2019'),
    Harness('calendar', h_calendar, cal_cases, reach=('value', 'one parameter per calendar'), validate=3,
            bounds='every date (2: every pair of dates in any order) in 2000-2031 for the UK, Italian and US models; holidays recomputed independently'),
    Harness('holiday', h_holiday, lambda t: [dict(kind=k, n=n, mult=m) for k in ('fixed', 'leap', 'goodfriday') for n in (1, 2) for m in M2], reach=('value',), validate=2,
            bounds='single rules, 2015-2019'),
    Harness('function', h_function, lambda t: [dict(n=n, mult=m) for n in (1, 2) for m in M2], reach=('value',), validate=2, bounds='user function x>3'),
]
