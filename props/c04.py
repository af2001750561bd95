"""C04: the selected model is the fitted candidate with the lowest AICc."""
import numpy as np
import pandas as pd
from numpy.linalg import LinAlgError

from symx.explore import Harness
from .common import patch_everywhere
from .pipe import Series, Leaf, stubs, NAN

NAMES = ('pa', 'pb', 'pc', 'pd')


def scores(env, keep_concrete=False, perfect=False):
    """every candidate gets an arbitrary score"""
    cnt = [0]
    real = env.mu.get_aic_c

    def score(*a, **k):
        err = a[0] if a else k['fit_error']
        if keep_concrete and isinstance(err, (int, float)) and not 0 < err < np.inf:
            return real(*a, **k)   # nothing to score
        cnt[0] += 1
        if perfect and env.bool('perfect%d' % cnt[0]):
            return -np.inf    # what a fit without any error gets
        return env.real('score%d' % cnt[0], -1000, 1000)
    patch_everywhere(env, env.mu, 'get_aic_c', score)


def outcome(env, kinds, costs, by_model):
    """optimizer outcomes per candidate"""
    def decide(call):
        name = call['model'].name if call['model'] is not None else str(call['no'])
        kind = by_model[name] = env.choice('kind%d' % call['no'], kinds) if len(kinds) > 1 else kinds[0]
        if kind == 'linalg':
            raise LinAlgError('no convergence')
        k = len(call['x0'])
        c = costs(call['no'])
        return dict(x=env.arr([env.real('p%d_%d' % (call['no'], j), -50, 50) for j in range(k)]), cost=c, success=kind == 'ok')
    return decide


def judge(env, r, source, names, failed, all_fits, n_actuals):
    """conditions on one source's share of the output"""
    md, d, f = [t.loc[t['source'] == source].reset_index(drop=True) for t in (r['metadata'], r['data'], r['forecast'])]
    best = [i for i in range(len(md)) if bool(md['is_best_fit'][i])]
    fitted = [i for i in range(len(md)) if bool(md['is_fit'][i])]
    env.check('at most one best', len(best) <= 1, lambda: md)
    env.check('best candidate is fitted', all(i in fitted for i in best), lambda: md)
    for i in best:
        env.check('no failed candidate selected', md['model'][i] not in failed, lambda: (md, failed))
        env.check('lowest score', [md['aic_c'][i] <= md['aic_c'][j] for j in fitted], lambda: md[['model', 'aic_c', 'is_fit']])
    fc = d.loc[~d['is_actuals'].astype(bool)]
    chosen = md['model'][best[0]] if best else None
    env.check('rows of fitted candidates only', all(m not in failed for m in fc['model']), lambda: (set(fc['model']), failed))
    for m, b in zip(fc['model'], fc['is_best_fit']):
        env.check('selection marked', bool(b) == (m == chosen))
    g = f.loc[~f['is_actuals'].astype(bool)]
    env.check('intervals for the selected model only', set(g['model']) == ({chosen} if best else set()))
    env.check('actuals never marked', not any(bool(b) for b in d.loc[d['is_actuals'].astype(bool)]['is_best_fit']))
    env.check('actuals stay', int(d['is_actuals'].astype(bool).sum()) == n_actuals)
    ok = [m for m in names if m not in failed]
    if all_fits:
        env.check('all candidates reported', sorted(md['model']) == sorted(names), lambda: (md, names))
        env.check('fit flags', {md['model'][i] for i in fitted} == set(ok), lambda: (md, failed))
        env.check('rows of every fit', set(fc['model']) == set(ok), lambda: (set(fc['model']), ok))
        per = [len(fc.loc[fc['model'] == m]) for m in ok]
        env.check('each fit once', len(fc) == sum(per) and all(not fc.loc[fc['model'] == m]['date'].duplicated().any() for m in ok))
    else:
        env.check('only the selected model reported', list(md['model']) == ([chosen] if best else []))
        env.check('rows of the selected model only', set(fc['model']) == ({chosen} if best else set()))
    env.check('something is selected when something fitted', bool(best) == bool(ok), lambda: (best, ok, md))
    return chosen


def h_select(env, n, freq, params, kinds, naive, all_fits, reject, sources, perfect=False):
    frames, usable = [], n
    ss = [Series(env, n, freq, '2020-02-27' if freq != 'x' else 0, tag='s%d' % i) for i in range(sources)]
    frames = [s.frame(source='src%d' % i if sources > 1 else None) for i, s in enumerate(ss)]
    df = frames[0] if sources == 1 else pd.concat(frames, ignore_index=True)
    leaves = [Leaf(env, NAMES[i], k) for i, k in enumerate(params)]
    if reject is not None:
        def refuse(a_x, a_y, a_date):
            raise AssertionError('not for me')
        leaves[reject].model.l_f_validate_input = [refuse]
    kind_of = [dict() for _ in range(sources)]
    called = [0]
    fits_per_source = sum(1 for i, k in enumerate(params) if k and k + 2 <= n and i != reject)

    def decide(call):
        src = call['no'] // fits_per_source
        return outcome(env, kinds, lambda no: env.real('cost%d' % no, 0, 1000), kind_of[src])(call)
    stubs(env, decide)
    scores(env, perfect=perfect)
    r = env.fc.run_forecast(df, l_model_trend=[l.model for l in leaves], l_model_season=[], l_model_naive=[env.fm.model_naive] if naive else [],
                            extrapolate_years=.01, include_all_fits=all_fits, simplify_output=False)
    names = [l.name for l in leaves] + (['naive'] if naive else [])
    for i in range(sources):
        failed = {m for m, k in kind_of[i].items() if k != 'ok'}
        failed |= {l.name for j, l in enumerate(leaves) if l.n_params + 2 > n or j == reject}
        judge(env, r, 'src%d' % i if sources > 1 else 'src', names, failed, all_fits, n)


def h_cost(env, n, k, both):
    """same number of parameters: the smaller error wins, with the real score"""
    s = Series(env, n, 'D')
    leaves = [Leaf(env, 'pa', k), Leaf(env, 'pb', k)]
    cs = [env.real('cost%d' % i, 0, 1000, strict=True) for i in range(2)]
    ln = env.log(float(n))
    for c in cs:
        env.assume(env.eq(env.log(c / n), env.log(c) - ln))
    stubs(env, lambda call: dict(x=env.arr([.5] * k), cost=cs[call['no']], success=True))
    r = env.fc.run_forecast(s.frame(), l_model_trend=[l.model for l in leaves], l_model_season=[], l_model_naive=[], extrapolate_years=.01,
                            include_all_fits=both, simplify_output=False)
    md = r['metadata']
    b = list(md.loc[md['is_best_fit'].astype(bool)]['model'])
    env.check('one selected', len(b) == 1)
    i = [l.name for l in leaves].index(b[0])
    env.check('smaller error wins', cs[i] <= cs[1 - i], lambda: (cs, b))


def h_score(env, n, k, dup, null, dated):
    """the reported score is the AICc of the reported cost, with the number of samples and parameters that were fitted"""
    s = Series(env, n, 'D' if dated else 'x', None if dated else 0, null=null, zero=null, dup=dup)
    m = len(s.usable())
    if m < k + 2:
        env.stop()
    leaf = Leaf(env, 'pa', k)
    c = env.real('cost', 0, 1000, strict=True)
    stubs(env, lambda call: dict(x=env.arr([.5] * k), cost=c, success=True))
    r = env.fc.run_forecast(s.frame(), l_model_trend=[leaf.model], l_model_season=[], l_model_naive=[], extrapolate_years=.01, simplify_output=False)
    md = r['metadata']
    env.check('one row', len(md) == 1)
    lc, lm = env.log(c), env.log(float(m))
    env.assume(env.eq(env.log(c / m), lc - lm))
    env.assume(env.eq(env.log(m / c), lm - lc))
    want = m * (lc - lm) + 2 * k + 2. * k * (k + 1) / (m - k - 1)
    env.check('score of the fit', env.eq(md['aic_c'][0], want), lambda: (md['aic_c'][0], want, m, k))
    env.check('cost of the fit', env.eq(md['cost'][0], c))


def h_evidence(env, n, gaps, null, zero, rival, sources, all_fits):
    """a naive model without a value for any valid sample has shown nothing: it does not win over a candidate that fitted"""
    ss = [Series(env, n, 'D', None, gaps=gaps, null=null, zero=zero, weighted='unit', tag='s%d' % i) for i in range(sources)]
    leaf = Leaf(env, 'pa', 1)
    cost = env.real('cost', 0, 1e6, strict=True)
    stubs(env, lambda call: dict(x=env.arr([env.real('p%d' % call['no'], -50, 50)]), cost=cost, success=True))
    scores(env, True)
    df = pd.concat([s.frame(source='src%d' % i if sources > 1 else None) for i, s in enumerate(ss)], ignore_index=True)
    if rival == 'naive':
        kw = dict(l_model_trend=[Leaf(env, 'pz', n).model], l_model_naive=[env.fm.model_naive, env.fm.model_snaive_wday])  # pz has too many parameters
    else:
        kw = dict(l_model_trend=[leaf.model])   # with the default naive model of daily series
    r = env.fc.run_forecast(df, l_model_season=[], extrapolate_years=.01, include_all_fits=all_fits, simplify_output=False, **kw)
    for i, s in enumerate(ss):
        src = 'src%d' % i if sources > 1 else 'src'
        ok = s.usable()
        days = [s.at[j].dayofweek for j in ok]
        if len(ok) < 3 or len(set(days)) < len(days):
            continue
        md, fc = [t.loc[t['source'] == src] for t in (r['metadata'], r['forecast'])]
        want = 'naive' if rival == 'naive' else 'pa'
        env.check('not selected without evidence', list(md.loc[md['is_best_fit'].astype(bool)]['model']) == [want], lambda: md[['model', 'cost', 'aic_c', 'is_best_fit']])
        env.check('the other candidate is forecast', set(fc.loc[~fc['is_actuals'].astype(bool)]['model']) == {want})


def evidence_cases(tier):
    out = []
    for i, (n, gaps, null, zero) in enumerate(((4, (1,), (), ()), (5, (1,), (1,), ()), (7, (1,), (), (0,)), (5, (1, 2), (3,), ()), (8, (1,), (0,), (3,)), (9, (1,), (0, 1), ()), (4, (1, 3, 9), (), ()))):
        for rival in ('naive', 'fit'):
            out.append(dict(n=n, gaps=gaps, null=null, zero=zero, rival=rival, sources=1 + (i == 0), all_fits=bool(i % 2)))
    return out


def cases_select(tier):
    q = tier == 'quick'
    out = []
    two, three = ('ok', 'fail'), ('ok', 'fail', 'linalg')
    for all_fits in (False, True):
        out += [dict(n=5, freq='D', params=(1, 2), kinds=three, naive=True, all_fits=all_fits, reject=None, sources=1),
                dict(n=5, freq='D', params=(1, 1, 2), kinds=two, naive=False, all_fits=all_fits, reject=None, sources=1),
                dict(n=5, freq='x', params=(2, 1), kinds=two, naive=True, all_fits=all_fits, reject=0, sources=1),
                dict(n=4, freq='D', params=(1, 3, 2), kinds=two, naive=False, all_fits=all_fits, reject=None, sources=1),
                dict(n=4, freq='W', params=(2, 1), kinds=two, naive=False, all_fits=all_fits, reject=None, sources=2),
                dict(n=3, freq='x', params=(1,), kinds=three, naive=True, all_fits=all_fits, reject=None, sources=2),
                dict(n=2, freq='D', params=(1, 2), kinds=two, naive=False, all_fits=all_fits, reject=None, sources=1)]
        out += [dict(n=5, freq='D', params=(2, 1), kinds=two, naive=True, all_fits=all_fits, reject=None, sources=1, perfect=True),
                dict(n=4, freq='x', params=(1, 2, 1), kinds=('ok',), naive=False, all_fits=all_fits, reject=None, sources=1, perfect=True)]
        if not q:
            out += [dict(n=6, freq='D', params=(1, 2, 3), kinds=three, naive=True, all_fits=all_fits, reject=None, sources=1),
                    dict(n=6, freq='D', params=(1, 2, 1, 1), kinds=two, naive=False, all_fits=all_fits, reject=None, sources=1),
                    dict(n=6, freq='MS', params=(1, 2), kinds=three, naive=False, all_fits=all_fits, reject=None, sources=2),
                    dict(n=5, freq='x', params=(1, 2), kinds=two, naive=True, all_fits=all_fits, reject=1, sources=2)]
    return [c for c in out if any(k and k + 2 <= c['n'] and i != c['reject'] for i, k in enumerate(c['params'])) or c['sources'] == 1]


HARNESSES = [
    Harness('select', h_select, cases_select, reach=('lowest score', 'no failed candidate selected', 'something is selected when something fitted'), validate=1,
            bounds='2-3 (thorough 4) candidates of 1-3 parameters plus the naive model, 2-6 samples, one or two sources, every outcome and score'),
    Harness('cost', h_cost, lambda t: [dict(n=n, k=k, both=b) for n, k in ((5, 1), (6, 2), (8, 3)) for b in (False, True)], reach=('smaller error wins',), validate=1,
            bounds='two candidates, every pair of costs, the real score'),
    Harness('evidence', h_evidence, evidence_cases, reach=('not selected without evidence', 'the other candidate is forecast'), validate=1,
            bounds='4-9 daily samples with gaps, null and zero-weight samples; every value and cost; the weekday-naive model against a fit and against the naive model'),
    Harness('score', h_score, lambda t: [dict(n=n, k=k, dup=dup, null=nz, dated=dd) for n, k, dup, nz in ((5, 1, (), (1, 3)), (5, 2, (), (2,)), (6, 2, (3,), (0,)), (4, 2, (), ()),
                                                                                                                (6, 3, (), (5, 0)))
                                         for dd in (True, False)], reach=('score of the fit',), validate=1, bounds='4-6 samples with null, zero-weight and duplicate samples'),
]
ASSUMPTIONS = ['least_squares is replaced by an arbitrary outcome; candidates have distinct names; in the selection harness the score is an arbitrary function of error, sample count and parameter count.']
