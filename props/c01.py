"""C01: actuals come out of a forecast exactly as they went in."""
import itertools

import numpy as np
import pandas as pd
from numpy.linalg import LinAlgError

from symx.explore import Harness
from .pipe import Series, Leaf, stubs, NAN

NAMES = dict(y='val', weight='wt', x='pos', date='when', source='src')


def bag_eq(env, got, want):
    """condition: the two short lists of tuples are equal as multisets"""
    if len(got) != len(want):
        return False
    if len(got) == 1:
        return env.and_(True, *[env.eq(a, b) for a, b in zip(got[0], want[0])])
    return env.or_(*[env.and_(True, *[env.eq(a, b) for g, w in zip(got, pm) for a, b in zip(g, w)]) for pm in itertools.permutations(want)])


def outcome(env, kind):
    def decide(call):
        k = kind if kind != 'any' else env.choice('o%d' % call['no'], ('ok', 'fail', 'linalg'))
        if k == 'linalg':
            raise LinAlgError('no convergence')
        p = env.arr([env.real('p%d_%d' % (call['no'], i), -50, 50) for i in range(len(call['x0']))])
        return dict(x=p, cost=env.real('cost%d' % call['no'], 0, 100, strict=True), success=k == 'ok')
    return decide


def check_actuals(env, tag, table, s, keep, weights, source):
    """rows flagged as actuals are exactly the samples in keep"""
    act = table.loc[table['is_actuals'].astype(bool)]
    env.check(tag + ': number of actuals', len(act) == len(keep), lambda: (list(act['date']), keep))
    left = list(keep)
    for at in sorted(set(s.at)):
        g = act.loc[[d == at for d in act['date']]]
        w = [i for i in keep if s.at[i] == at]
        cols = ['y'] + (['weight'] if weights else [])
        got = [tuple(r) for r in zip(*[list(g[c]) for c in cols])]
        want = [(s.y[i], s.w[i])[:len(cols)] for i in w]
        if want or got:
            env.check(tag + ': same samples', bag_eq(env, got, want), lambda: (at, got, want))
    env.check(tag + ': labels', [m == 'actuals' for m in act['model']] + [v == source for v in act['source']])
    rest = table.loc[~table['is_actuals'].astype(bool)]
    env.check(tag + ': forecasts are not labelled as actuals', all(m != 'actuals' for m in rest['model']))


def h_actuals(env, n, freq, start, gaps, order, zero, null, dup, weighted, request, names, models, kind, all_fits, carrier, source, naive, find, wnull=()):
    s = Series(env, n, freq, start, gaps=gaps, zero=zero, null=null, order=order, dup=dup, weighted=weighted, wnull=wnull)
    if kind == 'sparse' and len(s.usable()) > 1:
        env.stop()
    nm = NAMES if names else {}
    df = s.frame(nm, extra=names, source=source)
    if carrier == 'index':
        df = df.set_index(nm.get('date', 'date'))
    elif carrier == 'string':
        c = nm.get('date', 'date')
        df[c] = [d.strftime('%Y-%m-%d') for d in df[c]]
    req, rv = None, None
    if request is not None:
        req = s.at[request] if request >= 0 else s.at[0] - (1 if freq == 'x' else pd.Timedelta(days=3))
        rv = req.strftime('%Y-%m-%d' if freq != 'H' else '%Y-%m-%d %H:%M') if freq != 'x' and request % 2 else req
    keep = [i for i in range(n) if req is None or s.at[i] >= req]
    if len([i for i in s.usable(req)]) < (3 if naive else 0):
        env.stop()
    leaves = [Leaf(env, 'pa', 1), Leaf(env, 'pb', 2)][:models]
    stubs(env, outcome(env, 'any' if kind == 'sparse' else kind))
    kw = dict(l_model_trend=[l.model for l in leaves], l_model_season=[], extrapolate_years=2.5 / dict(D=365., W=52., x=100., MS=12., H=8760.)[freq],
              date_start_actuals=rv, include_all_fits=all_fits, find_outliers=find)
    if not naive:
        kw['l_model_naive'] = []
    r = env.fc.run_forecast(df, simplify_output=False, **kw, **{'col_name_' + k: v for k, v in nm.items()})
    label = source or 'src'
    if find:        # weights may be lowered to zero, everything else stays
        s2 = r['data'].loc[r['data']['is_actuals'].astype(bool)]
        check_actuals(env, 'data', r['data'], s, keep, False, label)
    else:
        check_actuals(env, 'data', r['data'], s, keep, True, label)
    check_actuals(env, 'forecast', r['forecast'], s, [i for i in keep if not s.isnull(i)], False, label)


def cases(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for freq, start in (('D', '2020-02-27'), ('W', '2020-01-02'), ('x', 0), ('x', 3), ('MS', '2019-11-01')):
        for pat in ('null', 'zero', 'nullzero', 'gap', 'dup', 'request', 'before', 'outcomes', 'sparse', 'noweight', 'string', 'index', 'find', 'requestnull', 'wnull'):
            for naive in (False, True):
                k += 1
                if q and naive and (freq == 'MS' or pat in ('find', 'noweight', 'before', 'requestnull')):
                    continue
                if freq == 'x' and pat in ('string', 'index'):
                    continue
                n = 5
                if naive and pat in ('sparse', 'outcomes'):
                    continue
                d = dict(n=n, freq=freq, start=start, gaps=(1, 2) if pat == 'gap' else (1,), order=('sorted', 'mixed', 'reversed')[k % 3],
                         zero=(), null=(), dup=(2,) if pat == 'dup' else (), weighted=pat not in ('noweight', 'index'), request=None,
                         names=bool(k % 4 == 1), models=2 if pat == 'outcomes' else 1, kind='ok', all_fits=bool(k % 2), carrier='column',
                         source='s1' if k % 5 == 0 else None, naive=naive, find=False)
                if pat == 'null':
                    d.update(null=(0, 1, 4) if q else (0, 1, 2, 3, 4))
                elif pat == 'zero':
                    d.update(zero=(0, 1, 4) if q else (0, 1, 2, 3, 4))
                elif pat == 'nullzero':
                    d.update(null=(0, 3, 4), zero=(1, 3))
                elif pat == 'request':
                    d.update(request=1 + k % 2, null=(3,), zero=(0, 1))
                elif pat == 'requestnull':
                    d.update(request=1, null=(0, 1, 2), n=5)
                elif pat == 'wnull':
                    d.update(wnull=(1, 3), null=(1, 2), zero=(0,))
                elif pat == 'before':
                    d.update(request=-1, zero=(0,))
                elif pat == 'outcomes':
                    d.update(kind='any', null=(2,))
                elif pat == 'sparse':
                    d.update(kind='sparse', null=(0, 1, 2), zero=(0, 1, 2), n=3)
                elif pat == 'dup':
                    d.update(zero=(1, 2), null=(2,))
                elif pat == 'gap':
                    d.update(zero=(1,), null=(3,))
                elif pat in ('string', 'index'):
                    d.update(carrier=pat, null=(2,))
                elif pat == 'find':
                    d.update(find=True, n=4, weighted=bool(k % 2))
                out.append(d)
    for j, (pat, req) in enumerate((((0, 3), 2), ((1,), 1), ((2, 4), 3), ((), -1), ((1, 2), None))):     # several samples per day
        out.append(dict(n=5, freq='H', start='2020-02-27 %02d:00' % (21, 9, 22, 0, 23)[j], gaps=(1,) if j % 2 else (1, 2), order=('sorted', 'mixed', 'reversed')[j % 3], zero=(j % 3,), null=pat,
                        dup=(), weighted=True, request=req, names=bool(j % 2), models=1, kind='ok', all_fits=bool(j % 2), carrier='column', source=None, naive=False, find=False))
    return out


HARNESSES = [
    Harness('actuals', h_actuals, cases, reach=('data: same samples', 'forecast: same samples'), validate=1,
            bounds='3-5 samples per series, every value and weight, null / zero-weight / gap / duplicate / start-date patterns, every optimizer outcome'),
]
ASSUMPTIONS = ['the optimizer may return any parameters, cost, failure or LinAlgError; the random sampling behind intervals is replaced by a fixed choice']
