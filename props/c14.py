"""C14: prediction intervals are ordered, complete and leave the forecast alone."""
import itertools

import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import patch_everywhere
from .pipe import Series, Leaf, stubs, stub_uniform, Optimizer, NAN, DAY, grid

DAYS = dict(Y=365, M=30, W=7, D=1)


def per_period(freq, widening):
    """whole steps in a widening period"""
    step = dict(D=1, x=1, W=7, MS=30, Q=91, YS=365).get(freq)
    n = DAYS[widening] * 24 if freq == 'H' else DAYS[widening] // step
    return max(n, 1)


def stub_draws(env, draw):
    """Series.sample: draw(call number, size) gives the values; records what could be drawn"""
    rec = []

    def sample(self, n=None, frac=None, replace=False, *a, **k):
        n = 1 if n is None else int(n)
        rec.append((list(self.values), n, bool(replace)))
        v = draw(len(rec) - 1, n)
        return pd.Series(env.arr(v) if n else np.array([], dtype=float))
    env.patch(pd.Series, 'sample', sample)
    return rec


def same_multiset(env, a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return env.or_(False, *[env.and_(True, *env.all_eq(a, p)) for p in itertools.permutations(b)])


def table(env, parts, freq, best, weighted, order):
    """parts: [(source, [(g, y, weight)] actuals, [(g, y)] forecast, [(g, y)] forecast of a model that is not the best)]"""
    rows = []
    for src, acts, fc, other in parts:
        rows += [(src, g, y, True, 'actuals', w, False) for g, y, w in acts]
        rows += [(src, g, y, False, 'm', 1., True) for g, y in fc]
        rows += [(src, g, y, False, 'other', 1., False) for g, y in other]
    if order == 'mixed':
        rows = rows[1::2] + rows[::2]
    start = 3. if freq == 'x' else pd.Timestamp('2020-02-01') if freq == 'MS' else pd.Timestamp('2020-02-26')
    at = [grid(freq, start, r[1]) for r in rows]
    cols = dict(source=np.array([r[0] for r in rows], dtype=object), date=np.array(at) if freq == 'x' else env.datecol(at), y=env.col([r[2] for r in rows]),
                is_actuals=np.array([r[3] for r in rows]), model=np.array([r[4] for r in rows], dtype=object))
    if weighted:
        cols['weight'] = env.col([r[5] for r in rows])
    if best:
        cols['is_best_fit'] = np.array([r[6] for r in rows])
    return env.frame(cols), (lambda g: grid(freq, start, g))


def expectation(acts, fc):
    ok = [(g, y) for g, y, w in acts if not (isinstance(y, float) and y != y) and not (isinstance(w, float) and w == 0)]
    last = max(g for g, _ in ok) if ok else None
    known = dict(ok)
    res = [known[g] - y for g, y in fc if g in known]
    m = sum(res) / len(res) if res else None
    return ok, last, [r - m for r in res]


def make(env, tag, n_act, fc_from, n_past, n_fut, null, zero, weighted):
    acts, fc = [], []
    for i in range(n_act):
        isnull = i in null and env.bool('%snull%d' % (tag, i))
        iszero = weighted and i in zero and env.bool('%szero%d' % (tag, i))
        acts.append((i, NAN if isnull else env.real('%sy%d' % (tag, i), -1000, 1000), 0. if iszero else 1. + i % 2 if weighted else 1.))
    for j in range(n_past + n_fut):
        g = fc_from + j
        fc.append((g, env.real('%sf%d' % (tag, j), -1000, 1000)))
    return acts, fc


def check_rows(env, r, src, acts, fc, at, q1, q2):
    """structure of one source's part of the result; returns the forecast rows with their interval"""
    a = r.loc[r['is_actuals'].astype(bool)]
    f = r.loc[~r['is_actuals'].astype(bool)]
    exp_a = [(at(g), y) for g, y, w in acts if not (isinstance(y, float) and y != y)]
    got_a = dict(zip(list(a['date']), list(a['y'])))
    env.check('actuals kept', len(a) == len(exp_a) and [d in got_a for d, _ in exp_a] + [env.eq(got_a[d], y) for d, y in exp_a if d in got_a], lambda: (got_a, exp_a))
    exp_f = [(at(g), y) for g, y in fc]
    got_f = dict(zip(list(f['date']), list(f['y'])))
    env.check('forecast untouched', len(f) == len(exp_f) and [d in got_f for d, _ in exp_f] + [env.eq(got_f[d], y) for d, y in exp_f if d in got_f] +
              [m == 'm' for m in f['model']] + [s == src for s in f['source']], lambda: (got_f, exp_f))
    cols = ['q%s' % q for q in (q1, 100 - q1, q2, 100 - q2)]
    env.check('interval columns', all(c in r.columns for c in cols), lambda: (list(r.columns), cols))
    env.check('actuals have no interval', [env.is_null(v) for c in cols for v in list(a[c])])
    env.check('every forecast row has its interval', [env.not_(env.is_null(v)) for c in cols for v in list(f[c])])
    rows = []
    for d, y in exp_f:
        x = f.loc[f['date'] == d]
        rows.append((d, y, [list(x[c])[0] for c in cols]))
    return rows


def h_width(env, freq, widening, n_act, fc_from, n_past, n_fut, null, zero, weighted, best, order, q, sources, via):
    """every draw is the same arbitrary number: the width follows"""
    c = env.real('c', -100, 100)
    rec = stub_draws(env, lambda k, n: [c] * n)
    parts, parts0 = [], []
    for i in range(sources):
        acts, fc = make(env, 's%d' % i, n_act, fc_from, n_past, n_fut, null if i == 0 else (), zero if i == 0 else (), weighted)
        parts.append(('src%d' % i, acts, fc))
        other = [(g, env.real('o%d_%d' % (i, g), -1000, 1000)) for g, _ in fc] if best else []
        parts0.append(('src%d' % i, acts, fc, other))
    df, at = table(env, parts0, freq, best, weighted, order)
    exps = [expectation(a, f) for _, a, f in parts]
    if any(not e[2] for e in exps):
        env.stop()
    kw = dict(pi_q1=q[0], pi_q2=q[1])
    if via == 'n_cum':
        kw['n_cum'] = DAYS[widening]
    elif widening != 'Y':
        kw['widening_freq'] = widening
    r = env.fc.get_pi(df, n_sims=2, **kw)
    env.check('no source lost or added', set(r['source']) == {p[0] for p in parts})
    n_cum = per_period(freq, widening)
    k = 0
    for (src, acts, fc), (ok, last, res) in zip(parts, exps):
        rows = check_rows(env, r.loc[r['source'] == src], src, acts, fc, at, *q)
        past = [x for x, (g, _) in zip(rows, fc) if g <= last]
        fut = [x for x, (g, _) in zip(rows, fc) if g > last]
        env.check('constant width before', [env.eq(v, y + c) for _, y, qs in past for v in qs], lambda: past)
        env.check('widens once per period', [env.eq(v, y + c * (2 + j // n_cum)) for j, (_, y, qs) in enumerate(fut) for v in qs], lambda: (fut, n_cum))
    offered = [o for o, n, rep in rec if n > 0]
    env.check('drawn with replacement', all(rep for _, n, rep in rec if n > 0) and len(offered) > 0)
    for o in offered:
        env.check('residuals of the actuals that count', env.or_(False, *[same_multiset(env, o, e[2]) for e in exps]), lambda: (o, exps))
    for e in exps:
        env.check('own residuals', env.or_(False, *[same_multiset(env, o, e[2]) for o in offered]), lambda: (offered, e[2]))


def lin_percentile(env, vals, q):
    n = len(vals)
    p = q / 100. * (n - 1)
    k = int(np.floor(p))
    s = list(vals)
    for i in range(n):          # bubble network on symbolic values
        for j in range(n - 1 - i):
            a, b = s[j], s[j + 1]
            s[j], s[j + 1] = env.ite(a <= b, a, b), env.ite(a <= b, b, a)
    return s[k] + (s[min(k + 1, n - 1)] - s[k]) * (p - k)


def h_percentile(env, n_sims, q, future):
    """a single forecast row: its interval is the percentile of the draws"""
    draws = {}

    def draw(k, n):
        draws[k] = [env.real('d%d_%d' % (k, i), -100, 100) for i in range(n)]
        return draws[k]
    stub_draws(env, draw)
    acts = [(0, env.real('y0', -10, 10), 1.)]
    fc = [(0, env.real('f0', -10, 10))]
    if future:
        fc.append((1, env.real('f1', -10, 10)))
    df, at = table(env, [('s', acts, fc, [])], 'D', False, False, 'sorted')
    r = env.fc.get_pi(df, n_sims=n_sims, pi_q1=q[0], pi_q2=q[1])
    rows = check_rows(env, r, 's', acts, fc, at, *q)
    lo1, hi1, lo2, hi2 = rows[-1][2]
    for _, y, (lo1, hi1, lo2, hi2) in rows:
        env.check('low below high', [lo1 <= hi1, lo2 <= hi2] if q[0] < 50 and q[1] < 50 else [True])
        if q[0] <= q[1]:
            env.check('outer encloses inner', [lo1 <= lo2, hi2 <= hi1], lambda: rows)
    if not future:
        past = [d for d in draws.values() if len(d)]
        env.check('one draw per simulation', len(past) == 1 and len(past[0]) == n_sims, lambda: draws)
        for qq, v in zip((q[0], 100 - q[0], q[1], 100 - q[1]), rows[0][2]):
            env.check('percentile of the draws', env.eq(v, rows[0][1] + lin_percentile(env, past[0], qq)), lambda: (qq, v))


def h_pipeline(env, n, freq, start, zero, null, request, q, widening, all_fits, via):
    """run_forecast's table"""
    s = Series(env, n, freq, start, zero=zero, null=null)
    req = None if request is None else s.at[request]
    if len(s.usable(req)) < 3:
        env.stop()
    a, b = Leaf(env, 'pa', 1), Leaf(env, 'pb', 1)
    stub_uniform(env, 0.5)
    Optimizer(env, lambda call: dict(x=env.arr([env.real('p%d' % call['no'], -50, 50)]), cost=3. - call['no'], success=True))
    c = env.real('c', -100, 100)
    stub_draws(env, lambda k, m: [c] * m)
    kw = dict(pi_q1=q[0], pi_q2=q[1])
    if via == 'n_cum':
        kw['n_cum'] = DAYS[widening]
    else:
        kw['pi_widening_freq'] = widening
    hor = dict(D=9 / 365., W=9 / 52., x=.09, MS=1.)[freq]
    r = env.fc.run_forecast(s.frame(), l_model_trend=[a.model, b.model], l_model_season=[], l_model_naive=[], extrapolate_years=hor, include_all_fits=all_fits,
                            date_start_actuals=req, simplify_output=False, **kw)
    d, f = r['data'], r['forecast']
    d = d.loc[(~d['is_actuals'].astype(bool)) & d['is_best_fit'].astype(bool)].reset_index(drop=True)
    g = f.loc[~f['is_actuals'].astype(bool)].reset_index(drop=True)
    env.check('one row per forecast row', len(d) == len(g) and list(d['date']) == list(g['date']) and list(d['model']) == list(g['model']))
    env.check('same forecast', env.all_eq(d['y'], g['y']))
    last = max(s.at[i] for i in s.usable(req))
    n_cum = per_period(freq, widening)
    past = [t <= last for t in g['date']]
    for col in ['q%s' % x for x in (q[0], 100 - q[0], q[1], 100 - q[1])]:
        j = 0
        for t, y, v, p in zip(g['date'], g['y'], g[col], past):
            env.check('interval', env.eq(v, y + c * (1 if p else 2 + j // n_cum)), lambda: (col, t, v, y))
            j += not p
    env.check('future rows', not all(past))


def cases_width(tier):
    q = tier == 'quick'
    out = []
    k = 0
    shapes = [(4, 0, 4, 3, (1,), (2,)), (3, 0, 3, 9, (2,), (1, 2)), (4, 1, 3, 2, (0, 3), (3,)), (3, 2, 1, 2, (), (0, 1)), (4, 0, 2, 0, (1,), (0,)), (4, -1, 6, 1, (3,), (3, 2))]
    for freq, wid in (('D', 'Y'), ('D', 'W'), ('D', 'D'), ('W', 'M'), ('W', 'W'), ('MS', 'Y'), ('MS', 'M'), ('x', 'D'), ('x', 'W')):
        for n_act, frm, np_, nf, null, zero in shapes:
            for sources in (1, 2):
                k += 1
                if q and (k % 2 and sources == 2 or sources == 2 and nf > 3):
                    continue
                out.append(dict(freq=freq, widening=wid, n_act=n_act, fc_from=frm, n_past=np_, n_fut=nf, null=null, zero=zero, weighted=bool(k % 4), best=k % 3 == 0,
                                order='sorted', q=((5, 20), (10, 30), (1, 25))[k % 3], sources=sources, via='n_cum' if k % 5 == 0 else 'freq'))
    for freq, wid, nf, srcs in (('Q', 'Y', 9, 1), ('Q', 'M', 3, 1), ('Q', 'Y', 5, 2), ('YS', 'Y', 4, 1), ('YS', 'W', 2, 1), ('H', 'D', 26, 1), ('H', 'D', 25, 2), ('H', 'W', 3, 1)):
        k += 1
        out.append(dict(freq=freq, widening=wid, n_act=3, fc_from=0, n_past=3, n_fut=nf, null=(1,) if k % 2 else (), zero=(2,) if k % 3 else (), weighted=bool(k % 4), best=k % 3 == 0,
                        order='sorted', q=((5, 20), (10, 30))[k % 2], sources=srcs, via='freq'))
    return out


def cases_pipeline(tier):
    out = []
    k = 0
    for freq, start, wid in (('D', '2020-02-27', 'W'), ('D', '2020-02-27', 'Y'), ('W', '2020-01-02', 'M'), ('x', 0, 'W'), ('x', 5, 'D'), ('MS', '2019-11-01', 'Y')):
        for zero, null, req in (((), (), None), ((1,), (4,), None), ((4,), (3,), None), ((), (0,), 1)):
            k += 1
            out.append(dict(n=5, freq=freq, start=start, zero=zero, null=null, request=req, q=((5, 20), (2.5, 40))[k % 2], widening=wid, all_fits=bool(k % 3), via='n_cum' if k % 4 == 0 else 'freq'))
    return out


HARNESSES = [
    Harness('width', h_width, cases_width, reach=('constant width before', 'widens once per period', 'residuals of the actuals that count', 'own residuals'), validate=1,
            bounds='3-4 actuals and 2-12 forecast rows per source, any values, null and zero-weight patterns, one or two sources, daily to yearly widening, every draw the same arbitrary number'),
    Harness('percentile', h_percentile, lambda t: [dict(n_sims=n, q=q, future=f) for n in ((1, 2, 3) if t == 'quick' else (1, 2, 3, 4)) for q in ((5, 20), (10, 50), (25, 40), (2.5, 12.5))
                                                   for f in (False, True) if not (f and n > 3)], reach=('low below high', 'outer encloses inner', 'percentile of the draws'), validate=1,
            bounds='1-4 simulations with arbitrary draws'),
    Harness('pipeline', h_pipeline, cases_pipeline, reach=('interval', 'same forecast', 'future rows'), validate=1, bounds='5 samples, 9-12 steps ahead'),
]
