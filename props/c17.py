"""C17: the sampling frequency is detected from the dates alone, as documented."""
import pandas as pd

from symx.explore import Harness

WD = ['W-MON', 'W-TUE', 'W-WED', 'W-THU', 'W-FRI', 'W-SAT', 'W-SUN']


def smallest_step(env, ds):
    """smallest positive distance between two dates, in days; None if there is none"""
    big = 10 ** 6
    best = big
    for i in range(len(ds)):
        for j in range(len(ds)):
            if i != j:
                v = env.td_days(ds[i] - ds[j])
                best = env.ite(env.and_(v > 0, v < best), v, best)
    return best


def spec_ok(env, r, ds):
    s = smallest_step(env, ds)
    hour = 1. / 24

    def near(v):
        return env.and_(s > v - 1e-9, s < v + 1e-9)

    def between(a, b):
        return env.and_(s >= a, s <= b)
    none = env.not_(s < 10 ** 5)
    if r == 'H':
        return near(hour)
    if isinstance(r, str) and r.startswith('W'):
        if r not in WD:
            return False
        first = ds[0]
        for d in ds[1:]:
            first = env.ite(d < first, d, first)
        return env.and_(near(7), env.weekday(first) == WD.index(r))
    firsts = None
    if r in ('MS', 'M', 'YS', 'Y'):
        firsts = env.and_(*[d.day == 1 for d in ds])
        if r in ('YS', 'Y'):
            firsts = env.and_(firsts, *[d.month == 1 for d in ds])
    if r in ('MS', 'M'):
        return env.and_(between(28, 31), firsts if r == 'MS' else env.not_(firsts))
    if r == 'Q':
        return between(89, 92)
    if r in ('YS', 'Y'):
        return env.and_(between(365, 366), firsts if r == 'YS' else env.not_(firsts))
    if r == 'D':
        return env.and_(env.not_(none), s >= 23 * hour - 1e-9, env.not_(near(7)), env.not_(between(28, 31)), env.not_(between(89, 92)),
                        env.not_(between(365, 366)))
    if r is None:
        return env.or_(none, env.and_(s < 23 * hour - 1e-9, env.not_(near(hour))))
    return False


def carry(env, kind, ds):
    if kind == 'series':
        return env.datecol(ds)
    if kind == 'index':
        return env.dates(ds)
    if kind == 'list':
        return list(ds)
    if kind == 'frame':
        return env.frame(dict(date=env.datecol(ds), y=env.col([1.0] * len(ds))))
    if kind == 'late':
        s = env.datecol(ds)
        s.index = [7 + 3 * i for i in range(len(ds))]
        return s


def run(env, kind, ds):
    r = env.mu.detect_freq(carry(env, kind, ds))
    env.check('documented frequency', spec_ok(env, r, ds), lambda: (r, ds))
    env.observe('freq', str(r))


def h_steps(env, n, lo, hi, span, kind, unit, repeat):
    """dates in any order: a symbolic first date, the others at symbolic whole days (or hours) around it"""
    d0 = env.date('d0', lo, hi)
    if unit == 'h0':
        d0 = d0 + env.hours(env.int('h0', 0, 23))
    ds = [d0]
    for i in range(1, n):
        k = env.int('k%d' % i, span[0], span[1])
        if unit == 'd':
            ds.append(d0 + env.days(k))
        elif unit == 'm':
            ds.append(d0 + env.minutes(k))
        else:
            ds.append(d0 + env.hours(k))
    if repeat:
        ds = ds + [ds[0]]
    run(env, kind, ds)


def h_regular(env, unit, step, n, extra, kind, lo, hi):
    """a regular series (with one sample left out) and one more date at any place"""
    d0 = env.date('d0', lo, hi)
    one = env.days if unit == 'd' else env.hours
    gap = env.choice('gap', (0, n // 2))
    ds = [d0 + one(step * i) for i in range(n) if not 0 < i == gap]
    ds.insert(env.choice('at', (0, len(ds))), d0 + one(env.int('k', extra[0], extra[1])))
    run(env, kind, ds)


def h_short(env, kind):
    """fewer than two distinct dates, or no date column"""
    d = env.date('d', '2000-01-01', '2030-01-01')
    env.check('one date', env.mu.detect_freq(carry(env, kind, [d])) is None)
    env.check('same date twice', env.mu.detect_freq(carry(env, kind, [d, d])) is None)
    env.check('no date column', env.mu.detect_freq(env.frame(dict(x=env.col([1.0, 2.0])))) is None)


KINDS = ['series', 'index', 'list', 'frame', 'late']


def step_cases(tier):
    out = []
    quick = tier == 'quick'
    for i, k in enumerate(KINDS):
        out.append(dict(n=2, lo='2015-01-01', hi='2021-12-31', span=[-20, 20], kind=k, unit='d', repeat=bool(i % 2)))
        out.append(dict(n=2, lo='2019-11-01', hi='2021-03-31', span=[-120, 120], kind=k, unit='d', repeat=bool(i % 2)))
        out.append(dict(n=2, lo='2019-12-01', hi='2020-03-05', span=[-80, 80], kind=k, unit='h0', repeat=not i % 2))
    out.append(dict(n=2, lo='2019-12-20', hi='2020-01-10', span=[330, 400], kind='series', unit='d', repeat=True))
    out.append(dict(n=2, lo='2019-12-20', hi='2021-01-10', span=[330, 800], kind='series', unit='d', repeat=True))
    out.append(dict(n=2, lo='2019-12-20', hi='2021-01-10', span=[27 * 24, 32 * 24], kind='series', unit='h', repeat=False))
    out.append(dict(n=2, lo='2019-12-20', hi='2021-01-10', span=[6 * 24, 8 * 24], kind='frame', unit='h0', repeat=False))
    out.append(dict(n=3, lo='2019-12-27', hi='2020-02-03', span=[-35, 63], kind='series', unit='d', repeat=False))
    out.append(dict(n=3, lo='2020-01-01', hi='2020-01-12', span=[-30, 30], kind='index', unit='h0', repeat=False))
    out.append(dict(n=3, lo='2019-12-31', hi='2020-01-02', span=[360, 740], kind='frame', unit='d', repeat=False))
    out.append(dict(n=3, lo='2019-12-31', hi='2020-01-02', span=[80, 190], kind='series', unit='d', repeat=False))
    out.append(dict(n=4, lo='2020-01-01', hi='2020-01-12', span=[-15, 15], kind='series', unit='d', repeat=False))
    out.append(dict(n=2, lo='2019-12-30', hi='2020-01-02', span=[-200, 200], kind='series', unit='m', repeat=True))
    out.append(dict(n=2, lo='2019-12-30', hi='2020-01-02', span=[22 * 60, 25 * 60], kind='list', unit='m', repeat=False))
    out.append(dict(n=3, lo='2019-12-30', hi='2019-12-31', span=[-63, 125], kind='frame', unit='m', repeat=False))
    if not quick:
        out.append(dict(n=2, lo='2019-12-30', hi='2020-01-02', span=[6 * 1440, 8 * 1440], kind='index', unit='m', repeat=False))
        out.append(dict(n=3, lo='2019-12-30', hi='2020-01-02', span=[-2000, 2000], kind='frame', unit='m', repeat=True))
        out.append(dict(n=3, lo='2019-11-01', hi='2021-03-31', span=[-100, 100], kind='series', unit='d', repeat=True))
        out.append(dict(n=4, lo='2020-01-01', hi='2020-03-31', span=[-65, 65], kind='frame', unit='d', repeat=False))
        out.append(dict(n=3, lo='2019-01-01', hi='2021-01-31', span=[300, 800], kind='series', unit='d', repeat=False))
        out.append(dict(n=5, lo='2020-01-01', hi='2020-01-12', span=[-15, 15], kind='index', unit='d', repeat=False))
        out.append(dict(n=3, lo='2020-01-01', hi='2020-02-12', span=[-800, 800], kind='series', unit='h0', repeat=False))
        out.append(dict(n=2, lo='1990-01-01', hi='2040-12-31', span=[-400, 400], kind='series', unit='d', repeat=True))
    return out


HARNESSES = [
    Harness('steps', h_steps, step_cases, reach=('documented frequency',), validate=3,
            bounds='2-4 (thorough 5) dates in any order, spaced by any whole number of hours or days inside the case windows (up to +-800)'),
    Harness('regular', h_regular, lambda t: [dict(unit=u, step=s, n=n, extra=e, kind=k, lo='2020-01-04' if t == 'quick' else '2019-12-29', hi='2020-01-05') for (u, s, n, e), k in zip(
        [('d', 1, 6, [-3, 9]), ('d', 7, 6, [-9, 50]), ('d', 14, 5, [-3, 70]), ('d', 30, 5, [-40, 160]), ('h', 1, 9, [-3, 12]), ('h', 24, 5, [-30, 130]), ('d', 91, 5, [-100, 470]),
         ('d', 365, 5, [-370, 1900]), ('d', 2, 12, [-5, 40])] if t == 'quick' else
        [('d', s, n, [-s - 5, s * n + 40]) for s in (1, 2, 7, 14, 28, 30, 31, 90, 91, 365) for n in (5, 8)] + [('h', s, n, [-s - 3, s * n + 30]) for s in (1, 6, 24) for n in (5, 12)],
        KINDS * 9)], reach=('documented frequency',), validate=1, bounds='5-12 evenly spaced dates, one left out, and one more date anywhere around them'),
    Harness('short', h_short, lambda t: [dict(kind=k) for k in KINDS], reach=('one date',), validate=1, bounds='any single date'),
]
