"""C02: the forecast covers the actuals plus the horizon, on the series' own grid."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import uf_value, Optimizer, stub_uniform, stub_sampling, free_params

NAN = float('nan')
WD = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN']
PER_YEAR = dict(x=100, D=365, W=52, M=12, MS=12, Q=4, Y=1, YS=1)


def add_months(d, k):
    """d moved by k months, the day cut to the length of the month"""
    y, m = divmod(d.year * 12 + d.month - 1 + k, 12)
    last = (pd.Timestamp(y + (m == 11), (m + 1) % 12 + 1, 1) - pd.Timestamp(y, m + 1, 1)).days
    return pd.Timestamp(y, m + 1, min(d.day, last))


def grid_step(freq, d, k):
    """k periods after d, for a date on a month grid"""
    n = k * dict(M=1, MS=1, Q=3, Y=12, YS=12)[freq]
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    a = pd.Timestamp(y, m + 1, 1)
    if freq in ('MS', 'YS'):
        return a
    return add_months(a, 1) - pd.Timedelta(days=1)


def check_fixed(env, got, start, end, step, horizon, k):
    """got: dates; actuals from start to end = start + k steps; horizon in days"""
    n = len(got)
    env.check('reaches the last actual', n >= k + 1, lambda: n)
    env.check('starts at the first actual and steps by the period', [env.eq(got[i], start + env.days(step * i)) for i in range(n)], lambda: got)
    over = env.td_days(got[n - 1] - end)
    env.check('stops inside the horizon', over <= horizon + 1e-6, lambda: (over, horizon))
    env.check('stops at the last grid date of the horizon', over + step > horizon - 1e-6, lambda: (over, horizon))


def horizon(env, per_unit, hi):
    """years such that the number of periods is not within rounding distance of an integer; and that number"""
    u = env.real('units', 0, hi)
    n = env.int('whole', 0, hi)
    env.assume(env.or_(u == 0, env.and_(u >= n + 0.01, u <= n + 0.99)))
    return u / per_unit, u


def h_fixed(env, freq, kmax, hi, via):
    """daily and weekly grids from any start date"""
    start = env.date('start', '2018-01-01', '2022-12-31')
    k = env.choice('k', range(kmax))
    step = 1
    name = freq
    if freq == 'W':
        step = 7
        wd = env.choice('wd', range(7))
        env.assume(start.weekday() == wd)
        name = 'W-' + WD[wd]
    end = start + env.days(step * k)
    years, units = horizon(env, PER_YEAR[freq], hi)
    x0 = env.real('x0', -100, 100)
    if via == 'series':
        s = env.mu.get_s_x_extrapolate(start, end, model=None, freq=name, extrapolate_years=years, x_start_actuals=x0)
        env.check('x follows the date', [env.eq(v, x0 + step * i) for i, v in enumerate(s.values)])
        got = list(s.index)
    else:
        m = env.fm.ForecastModel('leaf', 1, lambda a_x, a_date, params, is_mult=False, **kw: env.arr([params[0] + x for x in a_x]))
        p = env.real('p')
        r = env.fc.extrapolate_model(m, env.arr([p]), start, end, freq=name, extrapolate_years=years, x_start_actuals=x0)
        got = list(r.index)
        env.check('value per date', [env.eq(v, p + x0 + step * i) for i, v in enumerate(r['y'])])
    check_fixed(env, got, start, end, step, units * step, k)


def h_default(env, kmax):
    """no frequency given: weekly on the weekday of the first date"""
    start = env.date('start', '2018-01-01', '2022-12-31')
    k = env.choice('k', range(kmax))
    end = start + env.days(7 * k)
    years, units = horizon(env, 52, 2)
    s = env.mu.get_s_x_extrapolate(start, end, extrapolate_years=years)
    check_fixed(env, list(s.index), start, end, 7, units * 7, k)


def h_calendar(env, freq, kmax, hi, lo_date, hi_date):
    """month, quarter and year grids"""
    start = env.date('start', lo_date, hi_date)
    if freq in ('MS', 'YS'):
        env.assume(start.day == 1)
    else:
        env.assume(start.day == start.days_in_month)
    if freq in ('Y', 'YS'):
        env.assume(start.month == (12 if freq == 'Y' else 1))
    if freq == 'Q':
        env.assume(start.month in (3, 6, 9, 12))
    s0 = start.concrete() if hasattr(start, 'concrete') else start
    k = env.choice('k', range(kmax))
    end = grid_step(freq, s0, k)
    years, units = horizon(env, PER_YEAR[freq], hi)
    s = env.mu.get_s_x_extrapolate(start, end, freq=freq, extrapolate_years=years)
    got = list(s.index)
    n = len(got)
    env.check('reaches the last actual', n >= k + 1, lambda: (n, k))
    env.check('starts at the first actual and steps by the period', [env.eq(got[i], grid_step(freq, s0, i)) for i in range(n)], lambda: got)
    env.check('x follows the date', [env.eq(v, (grid_step(freq, s0, i) - s0).days) for i, v in enumerate(s.values)], lambda: list(s.values))
    whole = env.floor(units)
    per = dict(M=1, MS=1, Q=3, Y=12, YS=12)[freq]
    last, nxt = grid_step(freq, s0, n - 1), grid_step(freq, s0, n)
    for w in range(hi + 1):
        lim = add_months(end, w * per)
        env.check('stops inside the horizon', env.implies(whole == w, last <= lim), lambda: (last, lim))
        env.check('stops at the last grid date of the horizon', env.implies(whole == w, nxt > lim), lambda: (nxt, lim))


def h_years(env, freq, years, k):
    """whole years: the forecast ends exactly at the last grid date of the horizon"""
    per = PER_YEAR[freq] * years
    if freq == 'x':
        start = env.int('a', -50, 50)
        s = env.mu.get_s_x_extrapolate(start, start + k, extrapolate_years=years, x_start_actuals=0.)
        want = k + per + 1
        last = start + k + per
    elif freq in 'DW':
        step = 7 if freq == 'W' else 1
        start = env.date('start', '2019-02-25', '2019-03-03')
        if freq == 'W':
            wd = env.choice('wd', range(7))
            env.assume(start.weekday() == wd)
        s = env.mu.get_s_x_extrapolate(start, start + env.days(step * k), freq='D' if freq == 'D' else 'W-' + WD[wd], extrapolate_years=years)
        want = k + per + 1
        last = start + env.days(step * (k + per))
    else:
        start = dict(MS=pd.Timestamp('2019-12-01'), M=pd.Timestamp('2020-01-31'), Q=pd.Timestamp('2019-12-31'), YS=pd.Timestamp('2020-01-01'),
                     Y=pd.Timestamp('2019-12-31'))[freq]
        s = env.mu.get_s_x_extrapolate(start, grid_step(freq, start, k), freq=freq, extrapolate_years=years)
        want = k + per + 1
        last = grid_step(freq, start, k + per)
    got = list(s.index)
    env.check('ends with the horizon', len(got) == want and env.eq(got[-1], last), lambda: (len(got), want, got[-1], last))
    env.check('starts at the first actual', env.eq(got[0], start))


def h_numeric(env, kmax, hi, integral):
    a = env.real('a', -50, 50)
    if integral:
        a = env.int('ai', -50, 50)
    k = env.choice('k', range(kmax))
    years, units = horizon(env, 100, hi)
    x0 = env.real('x0', -50, 50)
    s = env.mu.get_s_x_extrapolate(a, a + k, extrapolate_years=years, x_start_actuals=x0)
    got, val = list(s.index), list(s.values)
    n = len(got)
    env.check('every integer step from the first actual', [env.eq(got[i], a + i) for i in range(n)], lambda: got)
    env.check('one per step', n - 1 <= k + units + 1e-6 and n > k + units - 1e-6 if not env.sym else env.and_(n - 1 <= k + units, n > k + units), lambda: (n, units))
    env.check('x follows the index', [env.eq(val[i], x0 + i) for i in range(n)], lambda: val)


# ---------------------------------------------------------------- whole forecasts
def h_run(env, freq, n, start, periods, weighted, nulls, custom, order):
    """run_forecast: dates of the forecast rows"""
    fc = env.fc
    s0 = pd.Timestamp(start) if freq != 'x' else float(start)
    # actuals: every pattern of gaps
    gaps = [0]
    for i in range(1, n):
        gaps.append(gaps[-1] + (1 if i == 1 else env.choice('g%d' % i, (1, 2))))
    if freq == 'D':
        at = [s0 + pd.Timedelta(days=g) for g in gaps]
    elif freq == 'W':
        at = [s0 + pd.Timedelta(days=7 * g) for g in gaps]
    elif freq == 'x':
        at = [s0 + g for g in gaps]
    else:
        at = [grid_step(freq, s0, g) for g in gaps]
    ys, ws = [], []
    for i in range(n):
        ys.append(NAN if i in nulls else env.real('y%d' % i))
        ws.append(0. if weighted and env.bool('zero%d' % i) else env.real('w%d' % i, 0, 5, strict=True) if weighted else 1.)
    pos = [i for i in range(n) if not weighted or not (isinstance(ws[i], float) and ws[i] == 0)]
    if len([i for i in pos if i not in nulls]) < 3:
        env.stop()
    idx = list(range(n)) if order == 'sorted' else [(2 * i + 1) % n for i in range(n)] if n % 2 else list(range(n))[::-1]
    cols = {('when' if freq != 'x' else 'pos') if custom else ('date' if freq != 'x' else 'x'):
            env.datecol([at[i] for i in idx]) if freq != 'x' else np.array([at[i] for i in idx]),
            'y': env.col([ys[i] for i in idx])}
    if weighted:
        cols['weight'] = env.col([ws[i] for i in idx])
    df = env.frame(cols)
    stub_uniform(env, 0.5)
    stub_sampling(env)
    Optimizer(env, lambda call: dict(x=env.arr([env.real('p')]), cost=2.0, success=True))
    m = env.fm.ForecastModel('leaf', 1, lambda a_x, a_date, params, is_mult=False, **kw: env.arr([params[0] + 2 * x for x in a_x]),
                             lambda a_x=None, a_y=None, a_date=None, is_mult=False: np.array([0.5]))
    per = 100 if freq == 'x' else PER_YEAR[freq]
    years = (periods + 0.5) / per
    kw = dict(col_name_date='when', col_name_x='pos') if custom else {}
    r = fc.run_forecast(df, l_model_trend=[m], l_model_season=[], l_model_naive=[], extrapolate_years=years, simplify_output=False, **kw)
    first = at[pos[0]]
    for tab in ('data', 'forecast'):
        t = r[tab]
        got = list(t.loc[~t['is_actuals'].astype(bool), 'date'])
        # expected grid
        want = []
        i = 0
        while True:
            d = (first + i if freq == 'x' else first + pd.Timedelta(days=i * (7 if freq == 'W' else 1)) if freq in 'DW' else grid_step(freq, first, i))
            if freq == 'x':
                lim = at[-1] + 100 * years
            elif freq in 'DW':
                lim = at[-1] + pd.Timedelta(days=(periods + .5) * (7 if freq == 'W' else 1))
            else:
                lim = add_months(at[-1], periods * dict(M=1, MS=1, Q=3, Y=12, YS=12)[freq])
            if d > lim:
                break
            want.append(d)
            i += 1
        env.check('dates of the forecast', len(got) == len(want) and [g == w for g, w in zip(got, want)], lambda: (got, want))
        env.check('contains every actual in range', all(at[i] in got for i in range(n) if at[i] >= first))


def fixed_cases(tier):
    q = tier == 'quick'
    return [dict(freq=f, kmax=3 if q else 8, hi=4 if q else 12, via=v) for f in 'DW' for v in ('series', 'model')]


def calendar_cases(tier):
    q = tier == 'quick'
    out = []
    for f in ('MS', 'M'):
        out.append(dict(freq=f, kmax=3 if q else 6, hi=3 if q else 14, lo_date='2019-11-01', hi_date='2021-03-31' if q else '2024-03-31'))
    out.append(dict(freq='Q', kmax=3, hi=2 if q else 6, lo_date='2019-11-01', hi_date='2021-03-31'))
    for f in ('YS', 'Y'):
        out.append(dict(freq=f, kmax=2 if q else 4, hi=2 if q else 4, lo_date='2017-12-31', hi_date='2021-01-01' if q else '2025-01-01'))
    return out


def years_cases(tier):
    ys = (1, 2, 3, 4, 5, 8) if tier == 'quick' else tuple(range(1, 13)) + (16, 20)
    return [dict(freq=f, years=y, k=0 if y % 2 else 2) for f in ('D', 'W', 'MS', 'M', 'Q', 'YS', 'Y', 'x') for y in ys if f != 'D' or y <= 12]


def run_cases(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for f, st in (('D', '2020-02-27'), ('W', '2019-12-26'), ('MS', '2019-12-01'), ('M', '2019-11-30'), ('YS', '2018-01-01'), ('Y', '2018-12-31'),
                  ('Q', '2019-12-31'), ('x', 0), ('x', 7), ('x', -2.5), ('D', '2020-12-30')):
        for n in (4,) if q else (4, 5, 6):
            for weighted in (False, True):
                for periods in (0, 2) if q else (0, 1, 3):
                    k += 1
                    out.append(dict(freq=f, n=n, start=st, periods=periods, weighted=weighted, nulls=[] if k % 2 else [k % n],
                                    custom=bool(k % 3 == 0), order='sorted' if k % 4 < 2 else 'mixed'))
    return out


HARNESSES = [
    Harness('fixed', h_fixed, fixed_cases, reach=('stops at the last grid date of the horizon',), validate=2,
            bounds='any first date 2018-2022, 1-3 (thorough 8) actuals, any horizon up to 4 (12) periods'),
    Harness('default', h_default, [dict(kmax=3)], reach=('stops inside the horizon',), validate=2, bounds='no frequency given, any first date'),
    Harness('calendar', h_calendar, calendar_cases, reach=('stops at the last grid date of the horizon',), validate=1,
            bounds='month, quarter and year grids from any start in a 17-month window (years 4), any horizon up to 3 (14) periods'),
    Harness('numeric', h_numeric, lambda t: [dict(kmax=3 if t == 'quick' else 6, hi=4 if t == 'quick' else 12, integral=i) for i in (False, True)],
            reach=('one per step',), validate=2, bounds='any first x in +-50, any horizon up to 4 (12) samples'),
    Harness('years', h_years, years_cases, reach=('ends with the horizon',), validate=1,
            bounds='horizons of 1-5 and 8 (thorough up to 20) whole years on every grid, any first day of a week around a leap day, 1 or 3 actuals'),
    Harness('run', h_run, run_cases, reach=('dates of the forecast',), validate=1,
            bounds='4 (thorough 6) actuals with every gap and zero-weight pattern on each grid, every value'),
]
ASSUMPTIONS = ['the horizon in periods is 0 or at least 0.01 away from a whole number, so that rounding of doubles cannot decide a date']
