"""C30: the metadata describe each fit, and the output options only select from the same results."""
import numpy as np
import pandas as pd
from numpy.linalg import LinAlgError

from symx.explore import Harness
from .common import same_table, builtin
from .pipe import Series, Leaf, stubs, NAN
from .c06 import META, same_list

NAMES = ('pa', 'pb', 'pc', 'pd')
WEIGHTS = (2., .5, 3., 1., 4., 1.5)


def outcome(env, kinds, log, anycost=True):
    """one arbitrary optimizer answer per candidate, whatever the run"""
    def decide(call):
        name = call['model'].name
        if name not in log:
            kind = kinds[len(log) % len(kinds)]
            k = len(call['x0'])
            log[name] = (kind, [env.real('p_%s_%d' % (name.split('_fixed')[0], j), -50, 50) for j in range(k)], env.real('cost_%s' % name.split('_fixed')[0], .25, 1000) if anycost else 3. + 7 * len(log) % 5)
        kind, p, c = log[name]
        if kind == 'linalg':
            raise LinAlgError('no convergence')
        return dict(x=env.arr(p), cost=c, success=kind == 'ok')
    return decide


def span(s, used):
    if not used:
        return 'NaT::NaT'
    a, b = min(s.at[i] for i in used), max(s.at[i] for i in used)
    return '{}::{}'.format(*((a, b) if s.freq == 'x' else (a.date(), b.date())))


def describe(env, row, source, status, sol, used, k, s, weights, freq):
    env.check('source', row['source'] == source)
    env.check('status', row['status'] == status and bool(row['is_fit']) == (status == 'FIT'), lambda: (row['model'], row['status'], status))
    env.check('range of the samples used', row['actuals_x_range'] == span(s, used), lambda: (row['model'], row['actuals_x_range'], span(s, used)))
    env.check('frequency', row['freq'] == freq or (freq is None and row['freq'] is None))
    env.check('range of weights', row['weights'] == weights, lambda: (row['weights'], weights))
    env.check('model object', row['model_obj'].name == row['model'])
    if sol is None:
        env.check('no result', [env.is_null(row['cost']), env.is_null(row['aic_c']), len(list(row['params'])) == 0])
        return
    kind, p, c = sol
    if kind == 'linalg':
        env.check('no result', [env.is_null(row['cost']), len(list(row['params'])) == 0])
        return
    env.check('cost and parameters', [env.eq(row['cost'], c), same_list(env, list(row['params']), p)], lambda: (row['cost'], row['params']))
    if len(used) > k + 1:
        env.check('score of that cost, sample and parameter count', env.eq(row['aic_c'], env.mu.get_aic_c(c, len(used), k)), lambda: (row['model'], row['aic_c']))


def h_run(env, n, freq, start, params, kinds, reject, season, mode, naive, zero, null, dup, request, order, weighted, sources, scaled, comp=None):
    leaves = [Leaf(env, NAMES[i], k) for i, k in enumerate(params)]
    trend = [l.model for l in leaves]
    count = {l.name: l.n_params for l in leaves}
    if scaled:
        trend.append(builtin(env, 'sigmoid'))
        count[trend[-1].name] = trend[-1].n_params
    if comp is not None:        # a trend that is itself a composition
        a, b = Leaf(env, 'ta', 1).model, Leaf(env, 'tb', 1).model
        trend.append(a + b if comp == '+' else a * b)
        count[trend[-1].name] = 2
    refused = set()
    if reject is not None:
        def refuse(a_x, a_y, a_date):
            raise AssertionError('not for me')
        leaves[reject].model.l_f_validate_input = [refuse]
        refused.add(leaves[reject].name)
    seas = []
    if season:
        sl = Leaf(env, 'ps', 1)
        seas = [sl.model, env.fm.model_null]
        base = dict(count)
        for sym in {'add': '+', 'mult': '*', 'both': '+*'}[mode]:
            for m, k in base.items():
                count['(%s%s%s)' % (m, sym, 'ps')] = k + 1
                if m in refused:
                    refused.add('(%s%s%s)' % (m, sym, 'ps'))
    ss = [Series(env, n, freq, start, zero=zero, null=null, dup=dup, order=order, weighted='unit' if weighted else False, tag='s%d' % j) for j in range(sources)]
    for s in ss:
        s.w = [0. if s.iszero(i) else WEIGHTS[i % 6] if weighted else 1. for i in range(n)]
        s.weighted = weighted
    ids = ['src'] if sources == 1 else ['src%d' % j for j in range(sources)]
    df = pd.concat([s.frame(source=i if sources > 1 else None) for s, i in zip(ss, ids)], ignore_index=True)
    req = None if request is None else ss[0].at[request]
    log = {}
    kw = dict(l_model_trend=trend, l_model_season=seas, l_model_naive=[env.fm.model_naive] if naive else [], season_add_mult=mode, date_start_actuals=req,
              extrapolate_years=1.5 / dict(D=365., W=52., MS=12., x=100.)[freq])
    opt, rec = stubs(env, outcome(env, kinds, log, len(count) * sources <= 3))
    st, r = env.call(env.fc.run_forecast, df.copy(), simplify_output=False, include_all_fits=True, **kw)
    env.check('completes', st == 'ok', lambda: repr(r))
    if st != 'ok':
        return
    fit = set()
    for s, source in zip(ss, ids):
        md, d, oi = [r[t].loc[r[t]['source'] == source].reset_index(drop=True) for t in ('metadata', 'data', 'optimize_info')]
        rows = [i for i in range(n) if req is None or s.at[i] >= req]
        used = s.usable(req)
        weights = '{}-{}'.format(min(s.w[i] for i in rows), max(s.w[i] for i in rows)) if weighted else '1'
        detected = env.mu.detect_freq(s.frame()['date']) if freq != 'x' else None
        names = dict(count, naive=0) if naive else count
        env.check('one row per candidate', sorted(md['model']) == sorted(names), lambda: (list(md['model']), sorted(names)))
        env.check('one optimizer report per candidate', [m.name for m in oi['model']] == list(md['model']), lambda: (list(oi['model']), list(md['model'])))
        if sorted(md['model']) != sorted(names) or len(oi) != len(md):
            return
        for i in range(len(md)):
            row, o = md.iloc[i], oi.iloc[i]
            m = row['model']
            k = names[m]
            if not used:
                status, sol = 'EMPTY_TS', None
            elif len(used) < k + 2:
                status, sol = 'TS_TOO_SHORT', None
            elif m in refused:
                status, sol = 'INPUT_ERR', None
            elif m == 'naive':
                status, sol = 'FIT', 'naive'
            else:
                env.check('was fitted', m in log, lambda: (m, list(log)))
                status, sol = ('FIT' if log[m][0] == 'ok' else 'NO-FIT'), log[m]
            env.check('composition mode', m == 'naive' or row['add_mult'] == (mode if mode != 'both' else 'mult' if '*ps' in m else 'add'), lambda: (m, row['add_mult']))
            if sol == 'naive':
                env.check('status', row['status'] == status and bool(row['is_fit']))
                env.check('range of the samples used', row['actuals_x_range'] == span(s, used))
                env.check('optimizer report', [bool(o['success']), env.eq(o['cost'], row['cost'])])
                continue
            describe(env, row, source, status, sol, used, k, s, weights, detected)
            if sol is None:
                env.check('optimizer report', [not bool(o['success']), o['status'] == status, env.is_null(o['cost'])])
            else:
                env.check('optimizer report', [bool(o['success']) == (sol[0] == 'ok')] + ([env.eq(o['cost'], sol[2]), same_list(env, list(o['params']), sol[1])] if sol[0] != 'linalg' else []))
        for i in range(len(d)):
            if not bool(d['is_actuals'][i]):
                j = list(md['model']).index(d['model'][i])
                env.check('forecast rows belong to a fit', d['source_long'][i] == md['source_long'][j] and bool(md['is_fit'][j]))
        env.check('actuals have one long name', d.loc[d['is_actuals'].astype(bool)]['source_long'].nunique() <= 1)
    # the output options select from the same results
    cols = [c for c in META if c != 'fit_time']
    opt, rec = stubs(env, outcome(env, kinds, log, len(count) * sources <= 3))
    two = env.fc.run_forecast(df.copy(), simplify_output=False, include_all_fits=False, **kw)
    best = r['metadata'].loc[r['metadata']['is_best_fit'].astype(bool)]
    env.check('selection of the metadata', same_table(env, two['metadata'][cols], best[cols].reset_index(drop=True)), lambda: (two['metadata'][cols], best[cols]))
    for t in ('data', 'forecast'):
        a = r[t]
        if t == 'data':
            a = a.loc[a['is_best_fit'].astype(bool) | a['is_actuals'].astype(bool)].reset_index(drop=True)
        env.check('selection of the ' + t, same_table(env, two[t].reset_index(drop=True), a.reset_index(drop=True)), lambda: (two[t], a))
    env.check('same optimizer reports', same_table(env, two['optimize_info'], r['optimize_info'], ['source', 'success', 'cost', 'status', 'message', 'source_long']))
    opt, rec = stubs(env, outcome(env, kinds, log, len(count) * sources <= 3))
    three = env.fc.run_forecast(df.copy(), include_all_fits=False, **kw)
    env.check('simplified output is the forecast table', isinstance(three, pd.DataFrame) and same_table(env, three.reset_index(drop=True), two['forecast'].reset_index(drop=True)))


def h_fit(env, n, freq, zero, null, dup, weighted, k, kind, reject, source, label, extra, fixed=None):
    """fit_model on its own"""
    s = Series(env, n, freq, '2020-02-27' if freq != 'x' else 3, zero=zero, null=null, dup=dup, weighted='unit' if weighted else False, x0=None if freq == 'x' else 4.)
    s.w = [0. if s.iszero(i) else WEIGHTS[i % 6] if weighted else 1. for i in range(n)]
    s.weighted = weighted
    df = s.frame(extra=extra)
    leaf = Leaf(env, 'pa', k, fixed=dict(fixed or []))      # a parameter whose bounds coincide is not left to the optimizer, but counts in the score
    if reject:
        leaf.model.l_f_validate_input = [lambda a_x, a_y, a_date: False]
    log = {}
    stubs(env, outcome(env, [kind], log))
    r = env.fc.fit_model(leaf.model, df, label, source)
    md, oi = r['metadata'], r['optimize_info']
    env.check('one row per candidate', len(md) == 1 and len(oi) == 1)
    used = s.usable()
    have = [i for i in range(n) if not s.isnull(i)]
    weights = '1' if not weighted else '{}-{}'.format(min([s.w[i] for i in have], default=np.nan), max([s.w[i] for i in have], default=np.nan))
    status = 'EMPTY_TS' if not used else 'TS_TOO_SHORT' if len(used) < k + 2 else 'INPUT_ERR' if reject else 'FIT' if kind == 'ok' else 'NO-FIT'
    row = md.iloc[0]
    env.check('model object', row['model'] == 'pa' or fixed is not None)
    sol = list(log.values())[0] if log else None
    if fixed is not None and sol is not None:
        env.check('free parameters only', len(sol[1]) == k - len(fixed), lambda: sol)
    describe(env, row, source, status, sol, used, k, s, weights, label)
    env.check('was fitted', (len(log) == 1) == (status in ('FIT', 'NO-FIT')))
    o = oi.iloc[0]
    env.check('optimizer report', [o['source'] == source, o['model'].name == row['model'], o['source_long'] == row['source_long'], bool(o['success']) == (status == 'FIT')])


def run_cases(tier):
    out = []

    def add(n, freq='D', start=None, **k):
        start = start or dict(D='2020-02-27', W='2020-01-06', MS='2019-11-01', x=2)[freq]
        out.append(dict(dict(n=n, freq=freq, start=start, params=(1, 2), kinds=('ok',), reject=None, season=False, mode='add', naive=False, zero=(), null=(), dup=(), request=None,
                             order='mixed', weighted=True, sources=1, scaled=False), **k))
    add(4, zero=(0, 3), null=(1,))
    add(5, kinds=('ok', 'fail'), params=(1, 2, 4), null=(0,), naive=True)
    add(5, 'W', kinds=('fail', 'linalg', 'ok'), params=(1, 2, 1), zero=(4,), weighted=True)
    add(5, 'x', null=(0, 4), zero=(1,), reject=0, params=(1, 2))
    add(5, 'x', weighted=False, season=True, mode='both', naive=True)
    add(6, 'D', zero=(0,), season=True, mode='mult', reject=1, params=(1, 2))
    add(5, 'MS', season=True, mode='add', null=(4,), kinds=('fail', 'ok'))
    add(6, request=2, null=(2, 5), zero=(0, 3))
    add(6, 'x', request=1, null=(1,), weighted=False, naive=True, kinds=('ok', 'ok', 'fail'))
    add(4, sources=2, zero=(0,), null=(3,))
    add(4, 'x', sources=2, null=(0,), kinds=('ok', 'linalg'), params=(1, 1))
    add(5, dup=(2,), null=(1,), zero=(4,))
    add(3, null=(0, 1, 2), weighted=False)
    add(2, zero=(0, 1), null=(0,))
    add(7, 'x', scaled=True, params=(1,), null=(6,), order='sorted')
    add(7, 'D', scaled=True, params=(1,), zero=(0,), order='sorted')
    add(5, comp='+', params=(1,), season=True, mode='mult')
    add(5, 'x', comp='+', params=(), season=True, mode='both', null=(1,))
    add(5, 'W', comp='*', params=(1,), mode='add', naive=True)
    add(5, comp='*', params=(), season=True, mode='add', kinds=('ok', 'fail'))
    add(5, comp='+', params=(1,), mode='mult')
    if tier != 'quick':
        j = 0
        for freq in ('D', 'W', 'MS', 'x'):
            for mode in ('add', 'mult', 'both'):
                for kinds in (('ok',), ('fail', 'ok'), ('linalg', 'fail', 'ok')):
                    j += 1
                    add(5 + j % 2, freq, mode=mode, season=True, kinds=kinds, naive=bool(j % 2), weighted=bool(j % 3), zero=(0, 4) if j % 3 else (), null=(1,), params=(1, 2, 3)[:2 + j % 2],
                        order=('sorted', 'mixed', 'reversed')[j % 3], sources=1 + j % 2, request=None if j % 4 else 1, reject=None if j % 5 else 0)
    return out


def fit_cases(tier):
    out = []
    j = 0
    for freq in ('D', 'x'):
        for kind in ('ok', 'fail', 'linalg'):
            for reject in (False, True):
                for k in (1, 2):
                    j += 1
                    w = bool(j % 3)
                    out.append(dict(n=4 if tier == 'quick' else 5, freq=freq, zero=(0, 3) if w else (), null=(1, 2, 3) if j % 2 else (0,), dup=(2,) if j % 4 == 0 else (), weighted=w, k=k, kind=kind,
                                    reject=reject, source=('src', 'a source')[j % 2], label=('D', None, 'W')[j % 3], extra=bool(j % 2)))
            for k, fx in ((2, [[0, 1.5]]), (3, [[1, -2.]]), (3, [[0, 0.], [2, 4.]])):
                j += 1
                out.append(dict(n=6, freq=freq, zero=(4,) if j % 2 else (), null=(1,) if j % 3 == 0 else (0, 5), dup=(2,) if j % 4 == 0 else (), weighted=bool(j % 2), k=k, kind=kind,
                                reject=False, source='src', label='D', extra=False, fixed=fx))
    return out


HARNESSES = [
    Harness('run', h_run, run_cases, reach=('status', 'cost and parameters', 'range of the samples used', 'score of that cost, sample and parameter count', 'selection of the forecast', 'composition mode',
                                            'simplified output is the forecast table', 'no result', 'optimizer report'), validate=1,
            bounds='2-7 samples of 1-2 sources, 1-6 candidates (arbitrary, composed, scaled, naive), every value, null and zero-weight pattern, optimizer answers of three kinds'),
    Harness('fit', h_fit, fit_cases, reach=('status', 'cost and parameters', 'no result', 'range of weights'), validate=1, bounds='4-5 samples, every null and zero-weight pattern, one candidate'),
]
ASSUMPTIONS = ['weights take the fixed values 0.5-4 or 0; the optimizer answer for a candidate is any parameters and cost, a failure or LinAlgError, the same in each run; the random sampling behind intervals is replaced by a fixed choice']
