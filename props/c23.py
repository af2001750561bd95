"""C23: unusable input is reported as a status, never as a crash."""
import numpy as np
import pandas as pd
from numpy.linalg import LinAlgError

from symx.explore import Harness
from .pipe import Series
from .common import uf_value, builtin, Optimizer, stub_uniform, stub_sampling, free_params

NAN = float('nan')


def user_model(env, name, n, accept):
    fm = env.fm

    def f_model(a_x, a_date, params, is_mult=False, **kwargs):
        return env.arr([uf_value(env, name, [x] + list([] if params is None else params)) for x in a_x])

    def f_valid(a_x, a_y, a_date):
        # a check may answer with a truth value, or with an assertion and no answer
        if accept in ('yes', 'no'):
            return accept == 'yes'
        if accept == 'npno':
            return np.all(np.array([True, False]))
        assert accept
    return fm.ForecastModel(name, n, f_model, lambda a_x=None, a_y=None, a_date=None, is_mult=False: np.full(n, 0.25),
                            l_f_validate_input=f_valid)


def series(env, n, dated, weighted, dup):
    ys, ws, usable = [], [], 0
    for i in range(n):
        null = env.bool('null%d' % i)
        ys.append(NAN if null else env.real('y%d' % i))
        k = 's'
        if weighted:
            k = env.choice('wk%d' % i, 'szn')
        ws.append(env.real('w%d' % i, 0, None, strict=True) if k == 's' else 0. if k == 'z' else NAN)
        usable += not null and k == 's'
    xs = [float(i) for i in range(n)]
    if dup and n > 2:
        xs[1] = xs[0]
    cols = dict(x=np.array(xs), y=env.col(ys))
    if dated:
        cols['date'] = env.datecol([pd.Timestamp('2019-12-30') + pd.Timedelta(days=int(x)) for x in xs])
    if weighted:
        cols['weight'] = env.col(ws)
    return env.frame(cols), usable


def h_status(env, n, n_params, dated, weighted, dup, accept, outcome):
    df, usable = series(env, n, dated, weighted, dup)
    m = user_model(env, 'm', n_params, accept)
    p = free_params(env, 'p', n_params)

    def decide(call):
        if outcome == 'linalg':
            raise LinAlgError('no convergence')
        return dict(x=p, cost=2.0, success=outcome == 'ok')
    opt = Optimizer(env, decide)
    r = env.fc.fit_model(m, df, freq='D', source='src', df_actuals=df)
    env.check('both tables', set(r) == {'metadata', 'optimize_info'} and len(r['metadata']) == 1 and len(r['optimize_info']) == 1)
    md = r['metadata'].iloc[0]
    want = ('EMPTY_TS' if usable == 0 else 'TS_TOO_SHORT' if usable < n_params + 2 else 'INPUT_ERR' if accept not in (True, 'yes')
            else 'FIT' if outcome == 'ok' or n_params == 0 else 'NO-FIT')
    env.check('status', md['status'] == want, lambda: (md['status'], want, usable))
    env.check('is_fit only for FIT', bool(md['is_fit']) == (want == 'FIT'))
    env.check('names', md['source'] == 'src' and md['model'] == 'm')
    env.check('optimizer only used for usable input', len(opt.calls) == (1 if want in ('FIT', 'NO-FIT') and n_params else 0))
    if want == 'FIT' and n_params:
        env.check('parameters', env.all_eq(list(md['params']), list(p)))
    if want in ('EMPTY_TS', 'TS_TOO_SHORT', 'INPUT_ERR'):
        env.check('no fit figures', [env.is_null(md['cost']), env.is_null(md['aic_c'])])


def h_builtin(env, spec, n, dated):
    """built-in models over short series"""
    m = builtin(env, spec)
    df, usable = series(env, n, dated, False, False)
    stub_uniform(env, 0.5)
    Optimizer(env, lambda call: dict(x=env.arr(list(call['x0'])), cost=2.0, success=True))
    md = env.fc.fit_model(m, df, freq='D', source='src', df_actuals=df)['metadata'].iloc[0]
    if usable == 0:
        env.check('empty', md['status'] == 'EMPTY_TS')
    elif usable < m.n_params + 2:
        env.check('too short', md['status'] == 'TS_TOO_SHORT')
    else:
        env.check('fitted or rejected', md['status'] in ('FIT', 'INPUT_ERR'))


def h_run(env, n, dated, weighted, naive, outcome, accept, include_all):
    """run_forecast where nothing fits"""
    df, usable = series(env, n, dated, weighted, False)
    stub_uniform(env, 0.5)
    stub_sampling(env)

    def decide(call):
        if outcome == 'linalg':
            raise LinAlgError('x')
        return dict(x=free_params(env, 'p', 2), cost=2.0, success=outcome == 'ok')
    Optimizer(env, decide)
    kw = dict(l_model_trend=[user_model(env, 'm', 2, accept)], l_model_season=[], extrapolate_years=0.02, simplify_output=False,
              include_all_fits=include_all)
    if not naive:
        kw['l_model_naive'] = []
    elif usable >= 2:
        env.stop()
    r = env.fc.run_forecast(df, **kw)
    data = r['data']
    env.check('only actuals', [bool(v) for v in data['is_actuals']])
    env.check('all actuals', len(data) == n)
    env.check('values', env.all_eq(list(data['y']), list(df['y'])))
    env.check('dates', env.all_eq(list(data['date']), list(df['date'] if dated else df['x'])))
    fc = r['forecast']
    keep = [v for v in df['y'] if not env.is_null(v)]
    env.check('forecast table has the actuals', env.all_eq(list(fc['y']), keep), lambda: (list(fc['y']), keep))
    env.check('nothing selected', not any(bool(v) for v in r['metadata']['is_best_fit']))
    if include_all:
        env.check('attempts reported', len(r['metadata']) == (2 if naive else 1)
                  and not any(bool(v) for v in r['metadata']['is_fit']))


def h_ended(env, n, dated, weighted, start, other, opts, default):
    """the requested start leaves a source with few or no samples"""
    t0 = pd.Timestamp('2019-12-30')
    df = Series(env, n, 'D' if dated else 'x', t0 if dated else 0, null=(0, n - 1), zero=(1,), weighted=weighted).frame()
    if not dated:
        df['x'] = np.arange(n, dtype=float)
    late = start >= n
    req = t0 + pd.Timedelta(days=start) if dated else float(start)
    if other:      # a second source that goes on
        more = dict(x=np.arange(n, dtype=float) + start, y=env.col([env.real('z%d' % i) for i in range(n)]))
        if dated:
            more['date'] = env.datecol([t0 + pd.Timedelta(days=start + i) for i in range(n)])
        if weighted:
            more['weight'] = env.col([1.] * n)
        df = pd.concat([df.assign(source='ended'), env.frame(more).assign(source='going')], ignore_index=True)
    stub_uniform(env, 0.5)
    stub_sampling(env)
    Optimizer(env, lambda call: dict(x=env.arr([.5] * len(call['x0'])), cost=2.0, success=True))
    kw = dict(opts)
    if not default:
        kw.update(l_model_trend=[user_model(env, 'm', 1, True)], l_model_season=[])
    st, r = env.call(env.fc.run_forecast, df, date_start_actuals=req, extrapolate_years=.01, simplify_output=False, **kw)
    env.check('completes', st == 'ok', lambda: repr(r))
    if st != 'ok':
        return
    d = r['data']
    if other:
        if not default:
            env.check('the other source has its forecast', (d['source'] == 'going').sum() > n and 'FIT' in set(r['metadata'].loc[r['metadata']['source'] == 'going', 'status']))
        d = d.loc[d['source'] == 'ended']
    a = d.loc[d['is_actuals'].astype(bool)]
    env.check('actuals from the start on', len(a) == max(n - start, 0))
    if late:
        env.check('nothing invented', len(d) == 0)
        md = r['metadata']
        md = md.loc[md['source'] == 'ended'] if other else md
        env.check('reported empty', all(s == 'EMPTY_TS' for s in md['status']) and not any(bool(b) for b in md['is_best_fit']))
        f = r['forecast']
        env.check('no interval invented', len(f.loc[f['source'] == 'ended'] if other else f) == 0)
        st, r = env.call(env.fc.run_forecast, df, date_start_actuals=req, extrapolate_years=.01, **kw)
        env.check('simplified output completes', st == 'ok', lambda: repr(r))


def ended_cases(tier):
    out, k = [], 0
    for dated in (True, False):
        for other in (False, True):
            for start in (3, 4, 9, 2):
                for opts in (dict(), dict(include_all_fits=True), dict(find_outliers=True), dict(season_add_mult='auto'), dict(season_add_mult='both', l_model_naive=[])):
                    k += 1
                    n = 4 if k % 4 == 0 and start == 4 else 3
                    if start < n and (opts.get('find_outliers') or other):
                        continue
                    out.append(dict(n=n, dated=dated, weighted=bool(k % 3 == 0), start=start, other=other, opts=opts, default=bool(k % 2)))
    return out


def status_cases(tier):
    out = []
    quick = tier == 'quick'
    for n, k in ((1, 0), (2, 0), (3, 1), (4, 2), (2, 1)) + (() if quick else ((5, 2), (5, 3), (6, 4))):
        for dated in (True, False):
            for weighted in ((False, True) if n < 5 else (False,)):
                for dup in (False, True):
                    for acc, oc in ((True, 'ok'), (True, 'fail'), (True, 'linalg'), (False, 'ok'), ('yes', 'ok'), ('no', 'ok'), ('npno', 'fail')):
                        if quick and isinstance(acc, str) and (dup or n == 2):
                            continue
                        if quick and n == 4 and weighted and (dup or not dated):
                            continue
                        out.append(dict(n=n, n_params=k, dated=dated, weighted=weighted, dup=dup, accept=acc, outcome=oc))
    return out


def builtin_cases(tier):
    out = [dict(spec=s, n=n, dated=d) for s in ('constant', 'linear', 'linear_nondec', 'step', 'ramp', 'sigmoid_step', 'sigmoid', 'decay', 'quasilinear',
                                              'exp', 'spike') for n in ((3, 4) if tier == 'quick' else (3, 4, 5)) for d in (False, True)]
    return out + [dict(spec=s, n=4, dated=True) for s in ('season_wday_2', 'calendar_uk', 'dummy_christmas', 'season_wday', 'season_month',
                                                          'season_fourier_yearly', 'spike_date', 'step_date', 'date_list')]


def run_cases(tier):
    out = []
    for n in (1, 2, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for dated in (True, False):
            for weighted in (False, True):
                if weighted and n > 3:
                    continue
                for naive in (False, True):
                    for oc, acc in (('fail', True), ('linalg', True), ('fail', False), ('ok', 'no')):
                        out.append(dict(n=n, dated=dated, weighted=weighted, naive=naive, outcome=oc, accept=acc, include_all=bool(n % 2)))
    return out


HARNESSES = [
    Harness('status', h_status, status_cases, reach=('status',), validate=1,
            bounds='1-4 (thorough 6) samples, every value and weight, every null / zero-weight / null-weight pattern, 0-4 parameters, three optimizer outcomes'),
    Harness('builtin', h_builtin, builtin_cases, reach=('empty', 'too short', 'fitted or rejected'), validate=1, bounds='3-5 samples with every null pattern'),
    Harness('ended', h_ended, ended_cases, reach=('completes', 'nothing invented', 'reported empty', 'the other source has its forecast'), validate=1,
            bounds='3-4 samples with nulls and a zero weight, alone or next to a source that goes on, requested starts around and after the last sample, five option sets'),
    Harness('run', h_run, run_cases, reach=('all actuals',), validate=1, bounds='1-5 samples with every null / zero-weight pattern'),
]
ASSUMPTIONS = ['least_squares is replaced by a given outcome (success, failure or LinAlgError); the random sampling behind intervals is replaced by a fixed choice.']
