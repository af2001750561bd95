"""C19: the naive models repeat the last known comparable value (full pipeline and direct calls, independent reference)."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import patch_everywhere
from .pipe import Series, Leaf, stubs, NAN, DAY, grid

YEARS = dict(D=365., W=52., x=100., MS=12.)


def isnull(v):
    return isinstance(v, float) and v != v


def naive_ref(known, d):
    """known: [(date, value)] in order, usable samples only"""
    prev = [v for t, v in known if t < d]
    return prev[-1] if prev else known[0][1]


def wday_ref(known, d):
    prev = [v for t, v in known if t < d and t.weekday() == d.weekday()]
    return prev[-1] if prev else NAN


def no_score(env):
    """scores play no role here and their logarithm is costly"""
    cnt = [0]

    def score(*a, **k):
        cnt[0] += 1
        return 10. - cnt[0]
    patch_everywhere(env, env.mu, 'get_aic_c', score)


def h_pipeline(env, n, freq, start, gaps, order, zero, null, request, model, horizon, weighted, extra_model):
    s = Series(env, n, freq, start, gaps=gaps, zero=zero, null=null, order=order, weighted=weighted)
    req = None if request is None else s.at[request]
    use = s.usable(req)
    if len(use) < (2 if not extra_model else 3):
        env.stop()
    known = [(s.at[i], s.y[i]) for i in use]
    leaf = Leaf(env, 'pa', 1)
    stubs(env, lambda call: dict(x=env.arr([env.real('p%d' % call['no'], -50, 50)]), cost=3.0, success=True))
    m = env.fm.model_naive if model == 'naive' else env.fm.model_snaive_wday
    no_score(env)
    r = env.fc.run_forecast(s.frame(), simplify_output=False, l_model_trend=[leaf.model] if extra_model else [], l_model_season=[], l_model_naive=[m],
                            extrapolate_years=horizon / YEARS[freq], date_start_actuals=req, include_all_fits=True)
    d = r['data']
    col = 'date'  # holds x for a numeric series
    f = d.loc[(~d['is_actuals'].astype(bool)) & (d['model'] == m.name)]
    first = min(s.at[i] for i in range(n) if not s.iszero(i) and (req is None or s.at[i] >= req))
    ref = naive_ref if model == 'naive' else wday_ref
    got = list(zip(list(f[col]), list(f['y'])))
    last = max(s.at)
    exp, k, after = [], 0, 0
    while True:
        t = first + k * {'D': DAY, 'W': 7 * DAY, 'x': 1}[freq] if freq != 'MS' else grid('MS', first, k)
        after += t > last
        if after > horizon:
            break
        v = ref(known, t)
        if not isnull(v):
            exp.append((t, v))
        k += 1
    env.check('one row per step that has a last comparable value', [a[0] for a in got] == [b[0] for b in exp], lambda: (got, exp))
    env.check('forecast repeats the last comparable value', [env.eq(a[1], b[1]) for a, b in zip(got, exp)], lambda: (got, exp))


def h_direct(env, n, freq, start, gaps, null, model, ask, ahead):
    """the model function itself, evaluated at some of the known samples and beyond"""
    s = Series(env, n, freq, start, gaps=gaps, null=null, weighted=False)
    use = s.usable()
    if not use or model == 'naive' and use == [n - 1] and n < 2:
        env.stop()
    known = [(s.at[i], s.y[i]) for i in use]
    last = s.at[-1]
    want = [s.at[i] for i in ask]
    step = 1 if freq == 'x' else DAY if freq == 'D' else 7 * DAY
    want += [last + step * j for j in ahead]
    xs = [float(w - s.at[0]) if freq == 'x' else float((w - s.at[0]) / DAY) for w in want]
    if freq == 'x':
        df = env.frame(dict(x=np.array([a - s.at[0] for a in s.at]), y=env.col(s.y)))
        a_date = None
    else:
        df = env.frame(dict(date=env.datecol(s.at), x=np.array([float((a - s.at[0]) / DAY) for a in s.at]), y=env.col(s.y)))
        a_date = pd.DatetimeIndex(want)
    m = env.fm.model_naive if model == 'naive' else env.fm.model_snaive_wday
    got = list(m(np.array(xs), a_date, [], df_actuals=df))
    ref = naive_ref if model == 'naive' else wday_ref
    exp = [ref(known, w) for w in want]
    env.check('one value per requested sample', len(got) == len(want), lambda: (got, want))
    env.check('values', [env.eq(a, b) for a, b in zip(got, exp)], lambda: (got, exp))


def h_sparse(env, days, null, ask, model, away=()):
    """actuals on irregular dates, asked for at the given days after the first one"""
    n = len(days)
    d0 = pd.Timestamp('2020-01-06') + pd.Timedelta(days=env.choice('shift', range(3)))
    at = [d0 + pd.Timedelta(days=d) for d in days]
    y = [NAN if i in away or i in null and env.bool('null%d' % i) else env.real('y%d' % i, -1000, 1000) for i in range(n)]
    known = [(a, v) for a, v in zip(at, y) if not isnull(v)]
    if not known:
        env.stop()
    df = env.frame(dict(date=env.datecol(at), x=np.array(days, dtype=float), y=env.col(y)))
    m = env.fm.model_naive if model == 'naive' else env.fm.model_snaive_wday
    got = list(m(np.array(ask, dtype=float), pd.DatetimeIndex([d0 + pd.Timedelta(days=d) for d in ask]), [], df_actuals=df))
    ref = naive_ref if model == 'naive' else wday_ref
    exp = [ref(known, d0 + pd.Timedelta(days=d)) for d in ask]
    env.check('one value per requested sample', len(got) == len(ask), lambda: (got, ask))
    env.check('values', [env.eq(a, b) for a, b in zip(got, exp)], lambda: (got, exp))


def h_cost(env, n, null, zero, model):
    s = Series(env, n, 'D', '2020-02-26', null=null, weighted=False)
    s.w = [0. if i in zero and env.bool('zz%d' % i) else (1., 2., .5)[i % 3] for i in range(n)]
    s.weighted = True
    use = s.usable()
    if len(use) < 2:
        env.stop()
    no_score(env)
    df = env.fc.normalize_df(s.frame())
    known = env.col([s.y[i] if i in use else NAN for i in range(n)])
    act = env.frame(dict(date=env.datecol(s.at), x=np.array(list(df['x'])), y=known))
    m = env.fm.model_naive if model == 'naive' else env.fm.model_snaive_wday
    md = env.fc.fit_model(m, df, freq='D', source='a', df_actuals=act)['metadata']
    ref = naive_ref if model == 'naive' else wday_ref
    kn = [(s.at[i], s.y[i]) for i in use]
    cost = 0.
    for i in use:
        e = ref(kn, s.at[i])
        if not isnull(e):
            cost = cost + (s.y[i] - e) * (s.y[i] - e) * s.w[i] ** 2 / 2
    env.check('fitted', bool(md['is_fit'].iloc[0]))
    env.check('cost', env.eq(md['cost'].iloc[0], cost), lambda: (md['cost'].iloc[0], cost))


def cases_pipeline(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for model in ('naive', 'wday'):
        for freq, start in (('D', '2020-02-26'), ('W', '2020-01-02'), ('x', 0), ('x', 7), ('x', .5), ('MS', '2019-11-01')):
            if freq == 'x' and model == 'wday':
                continue
            for pat in ('null', 'zero', 'gap', 'request', 'lead', 'tail'):
                for horizon in (0, 3, 9):
                    k += 1
                    if horizon == 0 and pat not in ('null', 'gap') or q and freq in ('W', 'MS') and horizon == 9:
                        continue
                    n = 5
                    if model == 'wday' and freq == 'D':
                        n = 10 if q else 16
                    elif not q:
                        n = 7
                    d = dict(n=n, freq=freq, start=start, gaps=(1,), order=('sorted', 'mixed', 'reversed')[k % 3], zero=(), null=(), request=None,
                             model=model, horizon=horizon, weighted=bool(k % 2) or pat not in ('null', 'gap'), extra_model=bool(k % 3 == 1))
                    if pat == 'null':
                        d.update(null=(0, 1, 3, n - 1) if q else (0, 1, 3, 4, n - 2, n - 1))
                    elif pat == 'zero':
                        d.update(zero=(1, n - 2), null=(n - 1, 2))
                    elif pat == 'gap':
                        d.update(gaps=(1, 2), null=(2,), n=min(n, 5 if q else 6))
                        if model == 'wday' and freq == 'D':
                            d.update(gaps=(1, 7), n=5, null=(1,))
                    elif pat == 'request':
                        d.update(request=2, null=(2, n - 1))
                    elif pat == 'lead':
                        d.update(zero=(0, 1), null=(2,))
                    elif pat == 'tail':
                        d.update(zero=(n - 1, n - 2), null=(n - 3,))
                    out.append(d)
    return out


def cases_direct(tier):
    q = tier == 'quick'
    out = []
    days = range(24, 31) if not q else (24, 27, 29)
    for day in days:
        for n, null in ((9, (0, 2, 7)), (15, (1, 7, 8, 14))) if q else ((9, (0, 1, 2, 7, 8)), (16, (0, 1, 7, 8, 14, 15))):
            for ask, ahead in (((), (1, 2, 7, 9)), ((0, 1, 2, n - 1), ()), (tuple(range(n)), (1, 2, 3, 4, 5, 6, 7, 8)), ((2, n - 2), (3,))):
                out.append(dict(n=n, freq='D', start='2020-02-%02d' % day if day < 30 else '2020-03-01', gaps=(1,), null=null, model='wday', ask=ask, ahead=ahead))
    for freq in ('D', 'x', 'W'):
        for start in ('2020-02-27',):
            for n, null in ((4, (0, 1, 3)), (6, (0, 2, 3, 5))):
                for ask, ahead in (((), (1, 3)), ((0, 2), ()), (tuple(range(n)), (1, 2)), ((1, n - 1), (4,))):
                    out.append(dict(n=n, freq=freq, start=start if freq != 'x' else 0, gaps=(1, 2), null=null, model='naive', ask=ask, ahead=ahead))
    return out


def cases_sparse(tier):
    a = (0, 1, 2, 7, 8, 9, 14, 15, 16, 17, 21, 22, 24, 25, 28, 29)
    b = (0, 3, 4, 7, 10, 11, 14, 17, 18, 21, 24, 25, 28, 31, 32, 35, 38)
    c = (5, 6, 7, 28, 30, 32, 35, 37, 39, 42, 44, 46, 49)
    d = (0, 1, 2, 3, 4, 5, 6, 60, 67, 74, 81, 88, 95, 102, 109)
    out = []
    e = tuple(range(7)) + tuple(range(70, 77)) + (84, 126)        # weeks without a sample
    f = tuple(7 * i for i in range(12)) + (80, 81)                # weekly, with nulls for many weeks
    for days in (a, b, c, d, e):
        last = days[-1]
        for null in ((), (len(days) - 1, len(days) - 3), (2, 5)):
            for ask in (tuple(range(last + 1, last + 9)), (days[3], days[-2]), (days[-1], last + 3, last + 15)):
                out.append(dict(days=days, null=null, ask=ask, model='wday'))
            if tier != 'quick':
                out.append(dict(days=days, null=null + (0,), ask=tuple(days) + tuple(range(last + 1, last + 9)), model='wday'))
                out.append(dict(days=days, null=null + (0,), ask=tuple(days) + tuple(range(last + 1, last + 9)), model='naive'))
        out.append(dict(days=days, null=(0, 2), ask=(days[2], days[-1], last + 1, last + 2, last + 9), model='naive'))
    for m in ('wday', 'naive'):
        for k in (2, 6):
            out.append(dict(days=f, null=(k,), ask=(f[k], 77, 81, 84, 88), model=m, away=tuple(range(1, 11))))
            out.append(dict(days=f, null=(k,), ask=(f[k], 77, 81, 84, 88), model=m, away=tuple(range(0, 9))))
    return out


HARNESSES = [
    Harness('cost', h_cost, lambda t: [dict(n=n, null=null, zero=zero, model=m) for m, n, null, zero in
                                       (('naive', 4, (1, 3), ()), ('naive', 4, (), (0, 2)), ('naive', 3, (), ()), ('wday', 9, (0, 1), ()), ('wday', 10, (9,), (1,)))],
            reach=('cost',), validate=1, bounds='3-10 samples, any values, weights 1, 2 and 1/2'),
    Harness('pipeline', h_pipeline, cases_pipeline, reach=('forecast repeats the last comparable value', 'one row per step that has a last comparable value'), validate=1,
            bounds='5-16 samples, any values and weights, null / zero-weight / gap / start-date patterns, horizons of 0-9 periods, daily, weekly, monthly, numeric'),
    Harness('sparse', h_sparse, cases_sparse, reach=('one value per requested sample', 'values'), validate=1,
            bounds='8-18 actuals on irregular dates (weekdays without a recent value, long gaps), any values, null patterns, up to 24 requested days'),
    Harness('direct', h_direct, cases_direct, reach=('one value per requested sample', 'values'), validate=1,
            bounds='4-16 samples with any null pattern at the listed positions, every first weekday, up to 9 steps beyond the actuals'),
]
