"""C06: samples that must be ignored cannot influence the forecast (two runs on inputs that differ only there)."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import same_table
from .pipe import Series, Leaf, stubs, NAN, daynum

META = ['source', 'model', 'weights', 'actuals_x_range', 'freq', 'is_fit', 'cost', 'aic_c', 'status', 'source_long', 'add_mult', 'is_best_fit']


def one_run(env, df, leaves, sols, kw):
    """run_forecast; returns everything that must not depend on ignored samples"""
    problems = []

    def decide(call):
        k = call['no']
        if k not in sols:
            sols[k] = [env.real('p%d_%d' % (k, i), -50, 50) for i in range(len(call['x0']))]
        p = env.arr(sols[k])
        problems.append((list(call['x0']), [list(b) for b in call['bounds']], list(call['fun'](p))))
        return dict(x=p, cost=3.0 - k, success=True)
    opt, rec = stubs(env, decide)
    for l in leaves:
        del l.calls[:]
    r = env.fc.run_forecast(df, simplify_output=False, **kw)
    return r, problems, rec['residuals'], [c for l in leaves for c in l.calls]


def flat(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return [v.item()]
    if isinstance(v, (list, tuple, np.ndarray)):
        return [y for x in v for y in flat(x)]
    return [v]


def same_list(env, a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and env.and_(True, *env.all_eq(a, b))


def compare(env, one, two):
    (r1, p1, s1, c1), (r2, p2, s2, c2) = one, two
    env.check('same number of fits', len(p1) == len(p2))
    for a, b in zip(p1, p2):
        env.check('same fitting problem', [same_list(env, x, y) for x, y in zip(a, b)], lambda: (a, b))
    env.check('same samples seen by the models', len(c1) == len(c2) and [same_list(env, x[0], y[0]) for x, y in zip(c1, c2)] +
              [[d for d in x[1]] == [d for d in y[1]] for x, y in zip(c1, c2)])
    env.check('same residuals', same_list(env, s1, s2), lambda: (s1, s2))
    m1, m2 = r1['metadata'], r2['metadata']
    env.check('same metadata', same_table(env, m1[META], m2[META]) + [same_list(env, list(m1['params']), list(m2['params']))], lambda: (m1[META], m2[META]))
    for t in ('data', 'forecast'):
        a, b = [x[t].loc[~x[t]['is_actuals'].astype(bool)] for x in (r1, r2)]
        env.check('same ' + t, same_table(env, a.reset_index(drop=True), b.reset_index(drop=True)), lambda: (a, b))
    o1, o2 = r1['optimize_info'], r2['optimize_info']
    cols = ['source', 'success', 'cost', 'status', 'message']
    env.check('same optimizer report', same_table(env, o1[cols], o2[cols]))


def h_two_runs(env, n, freq, start, gaps, order, zero, null, dup, request, naive, models, all_fits, wipe, mode, wnull=(), weighted=True):
    s = Series(env, n, freq, start, gaps=gaps, zero=zero, null=null, order=order, dup=dup, wnull=wnull, weighted=weighted)
    req = None if request is None else s.at[request]
    ignored = [i for i in range(n) if s.iszero(i) or (req is not None and s.at[i] < req)]
    if not ignored or len(s.usable(req)) < 3:
        env.stop()
    df1 = s.frame()
    keep = list(s.y)
    for i in ignored:
        if wipe == 'null' or wipe == 'mixed' and i % 2:
            s.y[i] = NAN if not s.isnull(i) else 7.0
        else:
            s.y[i] = env.real('other%d' % i, -1000, 1000)
    df2 = s.frame()
    s.y = keep
    leaves = [Leaf(env, 'pa', 1), Leaf(env, 'pb', 2)][:models]
    kw = dict(l_model_trend=[l.model for l in leaves], l_model_season=[], extrapolate_years=2.5 / dict(D=365., W=52., x=100., MS=12.)[freq],
              date_start_actuals=req, include_all_fits=all_fits)
    if mode:
        kw['season_add_mult'] = mode
    fm = env.fm
    kw['l_model_naive'] = [] if naive is None else {'naive': [fm.model_naive], 'wday': [fm.model_snaive_wday], 'both': [fm.model_naive, fm.model_snaive_wday]}[naive]
    sols = {}
    one = one_run(env, df1, leaves, sols, kw)
    two = one_run(env, df2, leaves, sols, kw)
    compare(env, one, two)


def h_removal(env, n, freq, order, zero, null, dup, n_params, naive, use_cache, wnull=()):
    """fit_model on the data with and without the ignored samples"""
    s = Series(env, n, freq, None if freq != 'x' else 0, zero=zero, null=null, order=order, dup=dup, wnull=wnull)
    df = env.fc.normalize_df(s.frame())
    drop = [i for i in range(n) if s.isnull(i) or s.iszero(i)]
    if not drop:
        env.stop()
    keep = [not (env.is_null(y) or env.is_null(w) or isinstance(w, float) and w == 0) for y, w in zip(df['y'], df['weight'])]
    df2 = df.loc[keep].reset_index(drop=True)
    leaf = Leaf(env, 'pa', n_params)
    sols = {}
    out = []
    for d in (df, df2):
        problems = []

        def decide(call):
            if 0 not in sols:
                sols[0] = [env.real('p%d' % i, -50, 50) for i in range(len(call['x0']))]
            p = env.arr(sols[0])
            problems.append((list(call['x0']), [list(b) for b in call['bounds']], list(call['fun'](p))))
            return dict(x=p, cost=2.0, success=True)
        stubs(env, decide)
        m = env.fm.model_naive if naive else leaf.model
        r = env.fc.fit_model(m, d, freq='D', source='a', df_actuals=df, use_cache=use_cache)
        out.append((r['metadata'].iloc[0], problems))
    (m1, p1), (m2, p2) = out
    env.check('same fitting problem', same_list(env, p1, p2), lambda: (p1, p2))
    cols = ['source', 'model', 'actuals_x_range', 'freq', 'is_fit', 'cost', 'aic_c', 'status', 'params']
    env.check('same metadata', [same_list(env, [m1[c]], [m2[c]]) for c in cols], lambda: (m1, m2))


def h_auto(env, n, ign, seed, step, how='zero', whole=False):
    """the choice between additive and multiplicative composition"""
    base = [float(10 + (7 * i * i + seed * i) % 23) for i in range(n)]
    dates = [pd.Timestamp('2020-01-05') + pd.Timedelta(days=step * i) for i in range(n)]
    none = {'zero': 0., 'null': NAN, 'both': 0.}[how]
    ws = [(NAN if how == 'both' and i == ign[0] else none) if i in ign else 1. for i in range(n)]
    res = []
    stubs(env, lambda call: dict(x=np.array([0.3, 9.0]), cost=2.0, success=True))
    for r in (0, 1):
        y = [env.real('v%d_%d' % (r, i), -20, 200) if i in ign else base[i] for i in range(n)]
        if r == 1:
            for i in ign[1:]:
                y[i] = NAN
        df = env.frame(dict(date=env.datecol(dates), y=env.col(y), weight=np.array(ws)))
        if whole:       # all of run_forecast: which candidates are composed, and how
            one, two = [env.fm.ForecastModel(m, 1, lambda a_x, a_date, params, is_mult=False, **k: np.full(len(a_x), params[0])) for m in ('one', 'two')]
            stubs(env, lambda call: dict(x=np.array([0.3, 9.0][:len(call['x0'])]), cost=2.0, success=True))
            md = env.fc.run_forecast(df, l_model_trend=[one], l_model_season=[two], l_model_naive=[], season_add_mult='auto', extrapolate_years=.01, simplify_output=False, include_all_fits=True)['metadata']
            res.append(sorted(md['model']))
        else:
            res.append(bool(env.mu.is_multiplicative(env.fc.normalize_df(df))))
    env.check('same composition mode', res[0] == res[1], lambda: res)


def run_cases(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for freq, start in (('D', '2020-02-27'), ('W', '2020-01-02'), ('x', 0), ('x', 4), ('MS', '2019-11-01')):
        for pat in ('zero', 'zeronull', 'lead', 'tail', 'gap', 'dup', 'request', 'requestzero', 'all', 'wnull', 'noweight'):
            for naive in (None, 'naive', 'wday', 'both'):
                if freq == 'x' and naive in ('wday', 'both'):
                    continue
                k += 1
                if freq == 'MS' and naive == 'both' or q and (naive == 'both' and pat not in ('zero', 'gap') or freq in ('W', 'MS') and k % 2 or k % 3 == 2 and pat not in ('wnull', 'noweight')):
                    continue
                n = 5 if q else 6
                d = dict(n=n, freq=freq, start=start, gaps=(1,), order=('sorted', 'mixed', 'reversed')[k % 3], zero=(), null=(), dup=(), request=None,
                         naive=naive, models=1 + k % 2, all_fits=bool(k % 4 < 2), wipe=('real', 'null', 'mixed')[(k // 2) % 3], mode='auto' if k % 5 == 0 and freq == 'D' else None)
                if pat == 'zero':
                    d.update(zero=(1, 3) if q else (0, 1, 3))
                elif pat == 'zeronull':
                    d.update(zero=(1, 2), null=(2, 3))
                elif pat == 'lead':
                    d.update(zero=(0, 1))
                elif pat == 'tail':
                    d.update(zero=(n - 1, n - 2))
                elif pat == 'gap':
                    d.update(gaps=(1, 2), zero=(2,))
                elif pat == 'dup':
                    d.update(dup=(2,), zero=(1, 2))
                elif pat == 'request':
                    d.update(request=2)
                elif pat == 'requestzero':
                    d.update(request=1, zero=(2, n - 1))
                elif pat == 'wnull':
                    d.update(wnull=(1, 3), null=(3,))
                elif pat == 'noweight':
                    d.update(weighted=False, request=2, null=(1,))
                elif pat == 'all':
                    d.update(zero=tuple(range(n)))
                out.append(d)
    return out


def removal_cases(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for freq in ('D', 'x'):
        for order in ('sorted', 'mixed'):
            for zero, null, dup in (((0, 2), (1, 3), ()), ((4,), (0, 4), ()), ((1, 2), (), (2,)), ((), (0, 1, 2), (1, 3))):
                for naive in (False, True):
                    k += 1
                    out.append(dict(n=5 if q else 7, freq=freq, order=order, zero=zero, null=null, dup=dup, n_params=1 + k % 2, naive=naive, use_cache=bool(k % 3), wnull=(3,) if k % 2 else ()))
    return out


HARNESSES = [
    Harness('two_runs', h_two_runs, run_cases, reach=('same fitting problem', 'same residuals', 'same forecast', 'same metadata'), validate=1,
            bounds='5-6 samples, every value in both runs, every weight, zero-weight / null / gap / duplicate / start-date patterns, naive and user models'),
    Harness('removal', h_removal, removal_cases, reach=('same fitting problem',), validate=1, bounds='5-7 samples, every null and zero-weight pattern'),
    Harness('auto', h_auto, lambda t: [dict(n=n, ign=ign, seed=s, step=st, how=how, whole=wh) for n, st in ((12, 9), (6, 20)) for ign in ([2], [0, 5], [3, 4])
                                       for s in ((3,) if t == 'quick' else (3, 5, 11)) for how in ('zero', 'null', 'both') for wh in (False, True)],
            reach=('same composition mode',), validate=1, bounds='fixed used values, any ignored values in [-20,200]'),
]
ASSUMPTIONS = ['optimizer outcome is a function of the order of the fits; without find_outliers']
