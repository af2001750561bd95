"""C15: sources are forecast independently of each other (a table with two sources against each source alone)."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import same_table
from .pipe import Series, Leaf, stubs, NAN
from .c06 import META, same_list

IDS = dict(text=('b', 'a'), prefix=('s1', 's10'), number=(2, 1), long=('north', 'North'), three=('c', 'a', 'b'))


def arrange(how, sizes):
    """row order of the combined table: list of (source number, row)"""
    rows = [[(k, i) for i in range(m)] for k, m in enumerate(sizes)]
    if how == 'blocks':
        return [x for r in rows for x in r]
    if how == 'blocks reversed':
        return [x for r in rows[::-1] for x in r]
    if how == 'alternating':
        return [r[i] for i in range(max(sizes)) for r in rows if i < len(r)]
    if how == 'mixed':
        a = [r[i] for i in range(max(sizes)) for r in rows if i < len(r)]
        return a[1::2] + a[::2]
    raise ValueError(how)


def h_two_sources(env, shapes, ids, how, request, naive, models, all_fits, mode, alone, weighted, index, share):
    names = IDS[ids][:len(shapes)]
    ss = []
    for k, sh in enumerate(shapes):
        ss.append(Series(env, tag='s%d' % k, weighted=weighted, **sh))
    if share:       # the same values in both sources
        ss[1].y = list(ss[0].y)[:ss[1].n]
    frames = [s.frame(source=names[k]) for k, s in enumerate(ss)]
    allrows = pd.concat(frames, ignore_index=True)
    offs = np.cumsum([0] + [s.n for s in ss])
    order = [offs[k] + i for k, i in arrange(how, [s.n for s in ss])]
    df = allrows.iloc[order]
    if index == 'reset':
        df = df.reset_index(drop=True)
    elif index == 'dup':
        df = df.copy()
        df.index = [i // 2 for i in range(len(df))]
    leaves = [Leaf(env, 'pa', 1), Leaf(env, 'pb', 2)][:models]
    kw = dict(l_model_trend=[l.model for l in leaves], l_model_season=[], extrapolate_years=2.5 / 52, date_start_actuals=request, include_all_fits=all_fits)
    if ss[0].freq == 'x':
        kw['extrapolate_years'] = .03
    if mode:
        kw['season_add_mult'] = mode
    if not naive:
        kw['l_model_naive'] = []
    singles = {}
    for k, name in enumerate(names):
        sols = [([env.real('p%d_%d_%d' % (k, j, i), -50, 50) for i in range(l.n_params)], (3. - j if k % 2 else 1. + j), not (all_fits and k and j)) for j, l in enumerate(leaves)]
        one = frames[k] if alone == 'column' else frames[k].drop(columns=['source'])
        # solutions follow the model, not the call number: a candidate may be skipped
        by = {l.name: s for l, s in zip(leaves, sols)}
        singles[name] = (run_by(env, one, by, dict(kw, source_id=name)), by)
    bys = [singles[n][1] for n in sorted(names)]
    counts = [len(singles[n][0][1]) for n in sorted(names)]
    both = run_by(env, df, None, kw, lambda no: bys[next(i for i in range(len(counts)) if no < sum(counts[:i + 1]) or i == len(counts) - 1)])
    r = both[0]
    for t in ('data', 'metadata', 'forecast'):
        env.check('sources in ' + t, set(r[t]['source']) == set().union(*[set(singles[n][0][0][t]['source']) for n in names]), lambda: set(r[t]['source']))
    env.check('every source has its actuals', [int((r['data']['is_actuals'].astype(bool) & (r['data']['source'] == n)).sum()) ==
                                               int(singles[n][0][0]['data']['is_actuals'].astype(bool).sum()) for n in names])
    for n in names:
        r1 = singles[n][0][0]
        for t in ('data', 'forecast'):
            a = r[t].loc[r[t]['source'] == n].reset_index(drop=True)
            b = r1[t].reset_index(drop=True)
            cols = [c for c in a.columns if c in b.columns]
            env.check('columns of ' + t, [bool(a[c].isna().all()) for c in a.columns if c not in b.columns] + [c in a.columns or bool(b[c].isna().all()) for c in b.columns])
            env.check('same ' + t, same_table(env, a, b, cols), lambda: (a, b))
        m = r['metadata'].loc[r['metadata']['source'] == n].reset_index(drop=True)
        m1 = r1['metadata']
        env.check('same metadata', same_table(env, m, m1, META) + [same_list(env, list(m['params']), list(m1['params']))] if len(m) == len(m1) else False, lambda: (m[META], m1[META]))
        o = r['optimize_info'].loc[r['optimize_info']['source'] == n].reset_index(drop=True)
        env.check('same optimizer report', same_table(env, o, r1['optimize_info'], ['source', 'success', 'cost', 'status', 'message']))
    probs = [p for n in sorted(names) for p in singles[n][0][1]]
    env.check('same number of fits', len(probs) == len(both[1]))
    for a, b in zip(probs, both[1]):
        env.check('same fitting problem', [same_list(env, x, y) for x, y in zip(a[:3], b[:3])] + [a[3] == b[3]], lambda: (a, b))
    res = [p for n in sorted(names) for p in singles[n][0][2]]
    env.check('same residuals', same_list(env, res, both[2]), lambda: (res, both[2]))


def run_by(env, df, by, kw, pick=None):
    problems = []

    def decide(call):
        sol = (pick(call['no']) if pick else by)[call['model'].name]
        p = env.arr(sol[0])
        problems.append((list(call['x0']), [list(b) for b in call['bounds']], list(call['fun'](p)), call['model'].name))
        return dict(x=p, cost=sol[1], success=sol[2])
    opt, rec = stubs(env, decide)
    return env.fc.run_forecast(df, simplify_output=False, **kw), problems, rec['residuals']


def cases(tier):
    q = tier == 'quick'
    D = lambda n, **k: dict(dict(n=n, freq='D', start='2020-02-27'), **k)
    W = lambda n, **k: dict(dict(n=n, freq='W', start='2020-01-06'), **k)
    X = lambda n, **k: dict(dict(n=n, freq='x', start=0), **k)
    out = []

    def add(shapes, **k):
        out.append(dict(dict(shapes=shapes, ids='text', how='alternating', request=None, naive=True, models=1, all_fits=False, mode=None, alone='column', weighted=True,
                             index='reset', share=False), **k))
    add((D(3), D(3)), models=0)
    add((D(4), D(3, null=(1,))), how='mixed', index='keep')
    add((D(4, zero=(1,)), D(4, start='2020-02-28', null=(0,))), how='blocks reversed', models=2, naive=False, all_fits=True)
    add((D(4), W(4)), ids='prefix', how='alternating', models=1)
    add((W(4), D(4, gaps=(2,))), ids='prefix', how='mixed', models=1, alone='id')
    add((X(4), X(3, start=7)), ids='number', how='mixed', index='dup', models=1)
    add((X(4, zero=(0,)), X(4, start=2, gaps=(2,))), ids='long', how='alternating', models=2, naive=False, all_fits=True)
    add((D(4), D(2)), ids='number', how='mixed', naive=False, models=1, alone='id')
    add((D(3, null=(0, 1, 2)), D(3)), ids='long', naive=True, models=1, all_fits=True)
    add((D(4), D(4)), ids='prefix', request='2020-02-28', models=1, naive=True, weighted=False, index='dup')
    add((D(4), D(4, start='2020-03-01')), ids='text', request='2020-02-29', how='blocks', models=1, naive=False)
    add((D(4, order='reversed'), D(4)), share=True, models=2, how='alternating', all_fits=True)
    add((D(3), D(3, start='2020-02-25'), D(3, null=(1,))), ids='three', how='mixed', models=1, naive=True)
    add((X(4), X(4)), share=True, mode='both', models=2, naive=True, weighted=False, all_fits=True)
    add((D(4, dup=(2,)), D(4, start='2020-02-26')), how='alternating', models=1, naive=False, ids='number')
    if not q:
        k = 0
        shapes = [(D(5), D(4)), (D(4, null=(1, 2)), D(5, zero=(2, 3))), (W(5, zero=(1,)), D(5)), (X(5, null=(2,)), X(4, start=3, gaps=(1, 2))), (D(5, gaps=(1, 2)), D(4)),
                  (D(2), D(5)), (dict(n=4, freq='MS', start='2019-11-01'), D(4)), (D(4), D(4), D(4))]
        for sh in shapes:
            for how in ('blocks', 'blocks reversed', 'alternating', 'mixed'):
                k += 1
                if len(sh) == 3:
                    add(sh, ids='three', how=how, models=2, naive=bool(k % 2), all_fits=bool(k % 2))
                else:
                    add(sh, ids=('text', 'prefix', 'number', 'long')[k % 4], how=how, models=1 + k % 2, naive=bool(k % 3), all_fits=bool(k % 5), alone=('column', 'id')[k % 2],
                        index=('reset', 'dup', 'keep')[k % 3])
    return out


HARNESSES = [Harness('two_sources', h_two_sources, cases, reach=('same data', 'same forecast', 'same metadata', 'same fitting problem', 'same residuals'), validate=1,
                     bounds='2-3 sources of 2-5 samples, any values and weights, null / zero / gap / duplicate patterns, different starts and frequencies, several row orders')]
ASSUMPTIONS = ['least_squares returns an arbitrary point that is a function of source and model; the random sampling behind intervals is replaced by a fixed choice; sources are processed in sorted order.']
