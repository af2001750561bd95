"""C16: gap filling adds only the missing steps and keeps every sample."""
import numpy as np
import pandas as pd

from symx.explore import Harness

NAN = float('nan')


def grid_dates(env, kind, n, start):
    """the first n dates of a regular grid"""
    if kind in ('D', 'W', 'H'):
        step = {'D': env.days(1), 'W': env.days(7), 'H': env.hours(1)}[kind]
        out = [start]
        for i in range(n - 1):
            out.append(out[-1] + step)
        return out
    y, m = start.year, start.month
    out = []
    for i in range(n):
        if kind in ('MS', 'M'):
            yy, mm = y + (m - 1 + i) // 12, (m - 1 + i) % 12 + 1
            d = pd.Timestamp(yy, mm, 1)
            out.append(d if kind == 'MS' else d + pd.Timedelta(days=d.days_in_month - 1))
        else:
            out.append(pd.Timestamp(y + i, 1, 1) if kind == 'YS' else pd.Timestamp(y + i, 12, 31))
    return out


def line(env, pos, vals):
    """straight line between known neighbours by position; the last known value after them"""
    out = list(vals)
    known = [i for i, v in enumerate(vals) if not env.is_null(v)]
    for i in range(len(vals)):
        if env.is_null(vals[i]):
            a = [k for k in known if k < i]
            b = [k for k in known if k > i]
            if a and b:
                p, q = a[-1], b[0]
                out[i] = vals[p] + (vals[q] - vals[p]) * ((i - p) / (q - p))
            elif a:
                out[i] = vals[a[-1]]
    return out


def body(env, kind, n, start, weekday_hint, nulls, interp, mask, extra, dup, xcol, order='sorted', gaps=(1, 2, 3)):
    steps = [0]
    for i in range(1, n):
        steps.append(steps[-1] + env.choice('gap%d' % i, gaps))
    # the smallest distance must be one step, otherwise the grid is another one
    if min([b - a for a, b in zip(steps, steps[1:])]) != 1 and kind not in ('D',):
        if kind != 'x':
            env.stop()
    ys = []
    for i in range(n):
        ys.append(NAN if nulls and env.bool('null%d' % i) else env.real('y%d' % i))
    rows = list(range(n))
    if dup:
        rows = rows + [0] if dup == 'far' else [0] + rows
    if order == 'reversed':
        rows = rows[::-1]
    elif order == 'mixed':
        rows = rows[1::2] + rows[0::2]
    cols = {}
    if kind == 'x':
        all_keys = [start + i for i in range(steps[-1] + 1)]
    else:
        all_keys = grid_dates(env, kind, steps[-1] + 1, start)
        cols['date'] = env.datecol([all_keys[steps[i]] for i in rows])
    if kind == 'x':
        cols['x'] = np.array([all_keys[steps[i]] + 0. if weekday_hint else int(all_keys[steps[i]]) for i in rows])
    elif xcol:
        f = {'D': 1, 'W': 7, 'H': 1}.get(kind, None)
        xs = [5 + f * s if f else 5 + (all_keys[s] - all_keys[0]).days for s in steps]
        cols['x'] = np.array([xs[i] for i in rows])
    cols['y'] = env.col([ys[i] for i in rows])
    ws = [env.real('w%d' % i) for i in range(n)]
    if extra:
        cols['weight'] = env.col([ws[i] for i in rows])
    df = env.frame(cols)
    if mask:        # the caller's index labels carry no meaning
        df.index = [i // 2 for i in range(len(df))]
    diffs = set(b - a for a, b in zip(steps, steps[1:]))
    constant = len(diffs) <= 1
    if kind == 'D' and diffs in ({7}, {28}, {29}, {30}, {31}):
        env.stop()
    gapped = not constant or (kind == 'D' and diffs and diffs != {1})
    st, res = env.call(env.mu.interpolate_df, df, include_mask=mask, interpolate_y=interp)
    if dup and gapped:
        env.check('duplicates refused', st == 'err' and isinstance(res, ValueError), lambda: (st, res))
        return
    env.check('no error', st == 'ok', lambda: res)
    key = 'x' if kind == 'x' else 'date'
    if not gapped:
        env.check('gap-free unchanged', len(res) == len(df) and [c for c in res.columns if c != 'is_gap_filled'] == list(df.columns)
                  and (mask or order != 'sorted' or list(res.index) == list(df.index)))
        if len(res) != len(df):
            return
        if order != 'sorted':       # the rows may come out in order
            key = 'x' if kind == 'x' else 'date'
            res, df = [d.sort_values(key, kind='stable') for d in (res, df)]
        for c in df.columns:
            keep = [True] * len(df)
            if c == 'y' and interp and (kind in ('MS', 'M', 'YS', 'Y') or order == 'mixed'):
                keep = [not env.is_null(v) for v in df[c]]
            env.check('gap-free unchanged', [env.eq(a, b) for a, b, k in zip(res[c], df[c], keep) if k])
        return
    env.check('every step once, in order', env.all_eq(list(res[key]), all_keys), lambda: (list(res[key]), all_keys))
    vals = [ys[steps.index(s)] if s in steps else NAN for s in range(steps[-1] + 1)]
    got = list(res['y'])
    if interp:
        spec = line(env, None, vals)
        env.check('samples kept', [env.eq(got[s], v) for s, v in enumerate(vals) if not env.is_null(v)])
        env.check('straight line', env.all_eq(got, spec), lambda: (got, spec))
    else:
        env.check('samples kept', [env.eq(got[s], v) for s, v in enumerate(vals) if s in steps], lambda: (got, vals))
        env.check('added rows are null', [env.is_null(got[s]) for s in range(len(vals)) if s not in steps])
        if extra:
            gw = list(res['weight'])
            env.check('weights kept', [env.eq(gw[s], ws[i]) for i, s in enumerate(steps)])
    if 'x' in cols and kind != 'x':
        gx = list(res['x'])
        env.check('x kept', [env.eq(gx[s], int(xs[i])) for i, s in enumerate(steps)])
        if kind in ('D', 'W'):
            env.check('x of added rows', env.all_eq(gx, [5 + f * s for s in range(len(gx))]))
        else:
            env.check('x increases', [env.le(a, b) for a, b in zip(gx, gx[1:])])
    if mask and 'x' in cols:
        env.check('added rows flagged', [bool(v) == (s not in steps) for s, v in enumerate(res['is_gap_filled'])], lambda: list(res['is_gap_filled']))


def h_dates(env, kind, n, window, nulls, interp, mask, extra, dup, xcol, order='sorted', gaps=(1, 2, 3)):
    start = env.date('start', *window)
    body(env, kind, n, start, None, nulls, interp, mask, extra, dup, xcol, order, gaps)


def h_month(env, kind, n, starts, nulls, interp, mask, extra, dup, xcol):
    start = pd.Timestamp(env.choice('start', starts))
    body(env, kind, n, start, None, nulls, interp, mask, extra, dup, xcol)


def h_x(env, n, starts, flt, nulls, interp, mask, extra, dup, order='sorted', gaps=(1, 2, 3)):
    start = env.choice('start', starts)
    body(env, 'x', n, start, flt, nulls, interp, mask, extra, dup, True, order, gaps)


def h_offgrid(env, pattern, n, xcol):
    """dates that are on no regular grid: nothing is lost"""
    start = pd.Timestamp(env.choice('start', ['2019-11-15', '2020-01-06']))
    ds = [start]
    for i in range(1, n):
        if pattern == 'midmonth':
            k = env.choice('m%d' % i, (1, 2))
            ds.append(ds[-1] + pd.DateOffset(months=k))
        elif pattern == 'week':
            ds.append(ds[-1] + pd.Timedelta(days=7 if i == 1 else env.choice('m%d' % i, (7, 8, 10, 14))))
        else:
            ds.append(ds[-1] + pd.Timedelta(hours=env.choice('m%d' % i, (6, 12, 18))))
    ys = [env.real('y%d' % i) for i in range(n)]
    cols = dict(date=env.datecol(ds), y=env.col(ys))
    if xcol:
        cols['x'] = np.array([3 + (d - start).days for d in ds])
    df = env.frame(cols)
    st, res = env.call(env.mu.interpolate_df, df, include_mask=False, interpolate_y=False)
    env.check('no error', st == 'ok', lambda: res)
    got = [(d, v) for d, v in zip(res['date'], res['y']) if d in ds]
    env.check('samples kept', [d for d, v in got] == ds, lambda: (got, ds))
    env.check('samples kept', env.all_eq([v for d, v in got], ys))
    env.check('other rows null', [env.is_null(v) for d, v in zip(res['date'], res['y']) if d not in ds])


def h_offgrid_x(env, n, start, order):
    """x that are no whole number of steps apart: nothing is lost"""
    xs = [start]
    for i in range(1, n):
        xs.append(xs[-1] + env.choice('m%d' % i, (.5, .75, 1, 2.5)))
    rows = list(range(n))[::{'sorted': 1, 'reversed': -1}[order]]
    ys = [env.real('y%d' % i) for i in range(n)]
    df = env.frame(dict(x=np.array([xs[i] for i in rows]), y=env.col([ys[i] for i in rows])))
    st, res = env.call(env.mu.interpolate_df, df, include_mask=False, interpolate_y=False)
    env.check('no error', st == 'ok', lambda: res)
    got = sorted([(x, i) for i, x in enumerate(res['x']) if x in xs])
    env.check('samples kept', [x for x, i in got] == xs, lambda: (got, xs))
    env.check('samples kept', env.all_eq([res['y'].iloc[i] for x, i in got], ys))
    env.check('other rows null', [env.is_null(v) for x, v in zip(res['x'], res['y']) if x not in xs])


def opts(tier):
    out = []
    for interp in (False, True):
        for dup in (False, True):
            for i, (nulls, mask, extra, xcol) in enumerate(((True, True, False, True), (False, True, True, True), (False, False, False, False))):
                if dup and i == 2:
                    continue
                out.append(dict(nulls=nulls, interp=interp, mask=mask, extra=extra, dup=dup, xcol=xcol))
    return out


def date_cases(tier):
    big = tier != 'quick'
    return [dict(kind=k, n=n, window=['2019-12-25', '2020-03-05'], **o) for k in ('D', 'W') for n in ((2, 3, 4) if big else (2, 3)) for o in opts(tier)] + \
        [dict(kind='H', n=3, window=['2020-02-28', '2020-03-01'], **o) for o in opts(tier)] + \
        [dict(kind=k, n=3, window=['2020-02-26', '2020-02-28'], **dict(o, dup='far')) for k in ('D', 'W') for o in opts(tier) if o['dup']] + \
        [dict(kind='D', n=4 if order == 'mixed' else 3, window=['2020-02-26', '2020-02-28'], order=order, **o) for o in opts(tier) for order in ('mixed', 'reversed')] + \
        [dict(kind=k, n=3, window=['2020-02-26', '2020-02-27'], gaps=(1, 40 if k == 'D' else 12), **o) for k in ('D', 'W', 'H') for o in opts(tier) if not o['dup']]


def month_cases(tier):
    big = tier != 'quick'
    m = ['2019-11-15', '2020-01-15'] + (['2018-%02d-15' % i for i in range(1, 13)] if big else [])
    return [dict(kind=k, n=n, starts=m, **o) for k in ('MS', 'M') for n in ((2, 3, 4) if big else (2, 3)) for o in opts(tier)] + \
        [dict(kind=k, n=3, starts=['2015-01-01', '2016-05-01'], **o) for k in ('YS', 'Y') for o in opts(tier)]


def x_cases(tier):
    out = []
    for o in opts(tier):
        o.pop('xcol')
        for n in (2, 3) if tier == 'quick' else (2, 3, 4, 5):
            for flt in (False, True):
                out.append(dict(n=n, starts=[0, 7, -3] + ([.5, -2.25] if flt else []), flt=flt, **o))
        out.append(dict(n=3, starts=[0, -7], flt=False, gaps=(1, 40), **o))
        if o['dup']:
            for order in ('sorted', 'mixed'):
                out.append(dict(n=3, starts=[0, -3], flt=True, order=order, **dict(o, dup='far')))
        for order in ('mixed', 'reversed'):
            out.append(dict(n=4, starts=[0, -3], flt=order == 'mixed', order=order, **o))
    return out


HARNESSES = [
    Harness('dates', h_dates, date_cases, reach=('samples kept', 'gap-free unchanged', 'duplicates refused', 'straight line'), validate=1,
            bounds='2-3 (thorough 4) samples, 1-3 (or 12-40) steps apart, on daily, weekly and hourly grids from any start date of the window; every value, null pattern'),
    Harness('months', h_month, month_cases, reach=('samples kept',), validate=1, bounds='2-3 (thorough 4) samples at month or year start or end'),
    Harness('offgrid', h_offgrid, lambda t: [dict(pattern=p, n=n, xcol=x) for p in ('midmonth', 'week', 'hours') for n in (2, 3, 4) for x in (True, False)],
            reach=('samples kept',), validate=1, bounds='2-4 samples whose dates are on no regular grid'),
    Harness('offgrid_x', h_offgrid_x, lambda t: [dict(n=n, start=s, order=o) for n in (2, 3, 4) for s in (0, -1.5) for o in ('sorted', 'reversed')],
            reach=('samples kept',), validate=1, bounds='2-4 samples at fractional x'),
    Harness('x', h_x, x_cases, reach=('samples kept',), validate=1, bounds='2-3 (thorough 5) samples whole steps apart from five origins, rows in any of three orders'),
]
