"""C29: a batch of forecast inputs gives what each input gives on its own."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import same_table, patch_everywhere
from .pipe import Series, Leaf, stubs, NAN
from .c06 import META, same_list

NAMES = dict(y='val', weight='wt', x='pos', date='when', source='src')


def same_result(env, tag, r, want):
    """two result dictionaries agree"""
    for t in ('data', 'forecast'):
        a, b = r[t].reset_index(drop=True), want[t].reset_index(drop=True)
        cols = [c for c in a.columns if c in b.columns]
        env.check(tag + ': columns of ' + t, [bool(a[c].isna().all()) for c in a.columns if c not in b.columns] + [c in a.columns or bool(b[c].isna().all()) for c in b.columns],
                  lambda: (list(a.columns), list(b.columns)))
        env.check(tag + ': ' + t, same_table(env, a, b, cols), lambda: (a, b))
    a, b = r['metadata'].reset_index(drop=True), want['metadata'].reset_index(drop=True)
    env.check(tag + ': metadata', same_table(env, a, b, META) + [same_list(env, list(a['params']), list(b['params']))] if len(a) == len(b) else False, lambda: (a[META], b[META]))
    a, b = r['optimize_info'], want['optimize_info']
    env.check(tag + ': optimizer report', same_table(env, a, b, ['source', 'success', 'cost', 'status', 'message']))


def join(rs):
    return {t: pd.concat([r[t] for r in rs], sort=False, ignore_index=True) for t in ('data', 'forecast', 'metadata', 'optimize_info')}


def solver(env, sols, log):
    def decide(call):
        if call['model'].name not in sols:      # a seasonality chosen by the tool
            sols[call['model'].name] = ([env.real('q_%s_%d' % (call['model'].name, i), -50, 50) for i in range(len(call['x0']))], 1.75, True)
        p, cost, ok = sols[call['model'].name]
        p = env.arr(p)
        log.append((call['model'].name, list(call['x0']), list(call['fun'](p))))
        return dict(x=p, cost=cost, success=ok)
    return decide


def h_batch(env, shapes, plan, starts, opts, names, sourcecol, as_list, cls, empty, shared=False):
    leaves = [Leaf(env, 'pa', 1), Leaf(env, 'pb', 2), Leaf(env, 'pc', 1)]
    by = {l.name: l.model for l in leaves}
    sols = {}
    for j, l in enumerate(leaves):
        sols[l.name] = ([env.real('p_%s_%d' % (l.name, i), -50, 50) for i in range(l.n_params)], 1. + j, l.name != 'pc')
    for a in leaves:
        for b in leaves:
            for o in '+*':
                sols['(%s%s%s)' % (a.name, o, b.name)] = (sols[a.name][0] + sols[b.name][0], 2.5, True)
    nm = NAMES if names else {}
    ss = [Series(env, tag='s%d' % k, **sh) for k, sh in enumerate(shapes)]
    frames = [s.frame(nm, source='own%d' % k if sourcecol else None) for k, s in enumerate(ss)]
    if shared:      # the same table object in every input
        ss, frames = ss[:1] * len(plan), frames[:1] * len(plan)
    inputs, singles = [], []
    kw = dict(opts)
    for k, (df, p) in enumerate(zip(frames, plan)):
        trend, season = [by[t] for t in p[0]], None if p[1] is None else [by[t] for t in p[1]]
        st = None if starts[k] is None else ss[k].at[starts[k]]
        copy = df.copy(deep=True)
        if cls == 'create':
            inp = env.fc.ForecastInput.create('id%d' % k, df, trend, season, date_start_actuals=st)
        else:
            inp = env.fc.ForecastInput('id%d' % k, df, trend, season, date_start_actuals=st)
        inputs.append(inp)
        singles.append((copy, dict(l_model_trend=trend, l_model_season=season, date_start_actuals=st, source_id='id%d' % k)))
    if empty is not None:
        inputs.insert(empty, env.fc.ForecastInput('none', frames[0].iloc[:0], [by['pa']], []))
    cols = {'col_name_' + k: v for k, v in nm.items()}
    log1, log2 = [], []
    opt, rec = stubs(env, solver(env, sols, log1))
    want = join([env.fc.run_forecast(df, simplify_output=False, **k1, **kw, **cols) for df, k1 in singles])
    res1 = list(rec['residuals'])
    opt.decide = solver(env, sols, log2)
    del rec['residuals'][:]
    st, got = env.call(env.fc.run_l_forecast, inputs if as_list else inputs[0], **kw, **cols)
    env.check('completes', st == 'ok', lambda: repr(got))
    if st != 'ok':
        return
    same_result(env, 'same', got, want)
    env.check('same fits', len(log1) == len(log2) and [a[0] for a in log1] == [a[0] for a in log2])
    env.check('same fitting problems', [c for a, b in zip(log1, log2) for c in (same_list(env, a[1], b[1]), same_list(env, a[2], b[2]))])
    env.check('same residuals', same_list(env, res1, rec['residuals']))
    if sourcecol and not shared:
        env.check('sources', list(dict.fromkeys(got['data']['source'])) == ['own%d' % k for k in range(len(ss))])
    elif not sourcecol:
        env.check('sources', list(dict.fromkeys(got['data']['source'])) == ['id%d' % k for k in range(len(ss))])


def cases(tier):
    D = lambda n, **k: dict(dict(n=n, freq='D', start='2020-02-27', order='mixed'), **k)
    W = lambda n, **k: dict(dict(n=n, freq='W', start='2020-01-06', order='mixed'), **k)
    X = lambda n, **k: dict(dict(n=n, freq='x', start=2, order='mixed'), **k)
    out = []

    def add(shapes, plan, **k):
        out.append(dict(dict(shapes=shapes, plan=plan, starts=[None] * len(plan), opts=dict(extrapolate_years=2.5 / 52), names=False, sourcecol=False, as_list=True,
                             cls='init', empty=None), **k))
    A, B, AB, C = (['pa'], []), (['pb'], []), (['pa', 'pb'], []), (['pa', 'pc'], [])
    add([D(4)], [A])
    add([D(4)], [A], as_list=False)
    add([D(4), D(4)], [A, B])
    add([D(4, zero=(1,)), W(4)], [AB, A], opts=dict(extrapolate_years=.05, include_all_fits=True))
    add([X(4), D(4, null=(1,))], [A, AB], opts=dict(extrapolate_years=.03), names=True)
    add([D(5), D(5)], [A, B], starts=[1, None])
    add([D(5), X(5)], [A, C], starts=[None, 1], opts=dict(extrapolate_years=.03, include_all_fits=True))
    add([D(4), D(4), X(4)], [A, B, A], cls='create')
    add([D(5)], [(['pa'], ['pb'])], opts=dict(extrapolate_years=.01, season_add_mult='mult'))
    add([D(5), D(5)], [(['pa'], ['pb']), (['pa'], ['pb'])], opts=dict(extrapolate_years=.01, season_add_mult='both', include_all_fits=True))
    add([D(4), D(4)], [A, B], sourcecol=True)
    add([D(4)], [A], opts=dict(extrapolate_years=.02, use_cache=False))
    add([D(4, weighted=False)], [A], opts=dict(find_outliers=True))
    add([D(15, weighted=False, order='sorted')], [A], opts=dict(extrapolate_years=.01, include_all_fits=True))
    add([D(15, weighted=False, order='sorted')], [(['pa'], None)], opts=dict(extrapolate_years=.01, include_all_fits=True), cls='create')
    add([D(4), D(4)], [A, B], empty=0)
    add([D(4), D(4)], [A, B], empty=1, names=True)
    spiky = lambda lo, **k: D(9, weighted=False, order='sorted', values=[1., 1.1, 1., 1.2, 1., 1.1, None, 1., 1.1], lo=lo, hi=lo + 100, **k)
    add([spiky(0), spiky(50)], [A, B], opts=dict(extrapolate_years=.01, include_all_fits=True, find_outliers=True))
    add([spiky(60), D(4)], [AB, A], opts=dict(extrapolate_years=.01, find_outliers=True), names=True)
    add([D(5)], [A, AB], starts=[None, 2], shared=True)
    add([D(5, zero=(0,))], [A, B, A], starts=[1, None, 3], shared=True, opts=dict(extrapolate_years=.02, include_all_fits=True))
    add([X(5)], [B, A], starts=[2, None], shared=True, names=True)
    if tier != 'quick':
        k = 0
        for sh in ([D(5, null=(1, 2)), W(5, zero=(2,))], [X(5, zero=(1,)), X(5, null=(3,)), D(4)], [D(4, dup=(2,)), D(4)]):
            for al in (False, True):
                for cl in ('init', 'create'):
                    k += 1
                    add(sh, [AB, C, B][:len(sh)], opts=dict(extrapolate_years=.04, include_all_fits=al), cls=cl, names=bool(k % 2), empty=k % 3 if k % 3 < 2 else None)
    return out


HARNESSES = [Harness('batch', h_batch, cases, reach=('same: data', 'same: forecast', 'same: metadata', 'same residuals', 'same fitting problems', 'completes'), validate=1,
                     bounds='1-3 inputs of 4-5 samples, every value, weight and null / zero pattern, differing models, starts and options')]
ASSUMPTIONS = ['the optimizer result is an arbitrary function of the model; the random sampling behind intervals is replaced by a fixed choice']
