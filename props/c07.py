"""C07: fitting minimises exactly the weighted residuals of the valid samples."""
import itertools

import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import uf_value, builtin, bi_dates, Optimizer, stub_uniform, free_params

NAN = float('nan')


def recording_model(env, name, n_params, log):
    fm = env.fm

    def f_model(a_x, a_date, params, is_mult=False, **kwargs):
        ds = [None] * len(a_x) if a_date is None else list(a_date)
        log.append((list(a_x), ds))
        t0 = pd.Timestamp('2018-01-01')
        return env.arr([uf_value(env, name, [x, 0. if d is None else float((d - t0).days)] + list(params)) for x, d in zip(a_x, ds)])

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        return np.array([0.5 + j for j in range(n_params)])

    def f_bounds(a_x=None, a_y=None, a_date=None):
        return np.full(n_params, -100.), np.full(n_params, 100.)
    return fm.ForecastModel(name, n_params, f_model, f_init, f_bounds)


def build(env, xs, dates, nulls, weights):
    n = len(xs)
    ys = [NAN if nulls[i] else env.real('y%d' % i) for i in range(n)]
    ws = None
    cols = {}
    if dates is not None:
        cols['date'] = env.datecol(dates)
    cols['x'] = np.array(xs, dtype=float)
    cols['y'] = env.col(ys)
    if weights:
        ws = []
        for i in range(n):
            k = weights[i]
            ws.append(0. if k == 'z' else NAN if k == 'n' else 1.0 if k == '1' else env.real('w%d' % i, 0, None, strict=True))
        cols['weight'] = env.col(ws)
    return ys, ws, env.frame(cols)


def expected(env, xs, dates, ys, ws, value):
    valid = [i for i in range(len(xs)) if not env.is_null(ys[i])
             and (ws is None or not (isinstance(ws[i], float) and not ws[i] > 0))]
    out = []
    for i in valid:
        k = sum(1 for j in valid if xs[j] == xs[i])
        r = (ys[i] - value(i)) * ((1. if ws is None else ws[i]) / k)
        out.append((i, env.ite(r >= 0, r, -r)))
    return valid, out


def match(env, got, exp):
    """got equals exp up to a reordering: tried in order first"""
    if len(got) != len(exp):
        return [False]
    return env.all_eq(got, exp)


def h_objective(env, perm, dated, dup, nulls, weights, cache):
    """an arbitrary two-parameter model"""
    n = len(perm)
    xs = [float(3 + 2 * i) for i in range(n)]
    for a, b in dup:
        xs[b] = xs[a]
    dates = [pd.Timestamp('2018-03-05') + pd.Timedelta(days=9 * i) for i in range(n)] if dated else None
    xs = [xs[i] for i in perm]
    dates = [dates[i] for i in perm] if dated else None
    ys, ws, df = build(env, xs, dates, nulls, weights)
    log = []
    m = recording_model(env, 'm', 2, log)
    p = free_params(env, 'p', 2)
    cost, ok = env.real('cost', 0, 1000, strict=True), env.bool('success')
    seen = {}

    def decide(call):
        if 'obj' in seen:
            raise RuntimeError('second optimization')
        del log[:]
        seen['obj'] = list(call['fun'](p))
        seen['order'] = log[-1]
        seen['call'] = call
        return dict(x=p, cost=cost, success=ok)
    Optimizer(env, decide)
    r = env.fc.fit_model(m, df, freq='D', source='src', df_actuals=df, use_cache=cache)
    t0 = pd.Timestamp('2018-01-01')
    valid, exp = expected(env, xs, dates, ys, ws,
                          lambda i: uf_value(env, 'm', [xs[i], float((dates[i] - t0).days) if dated else 0.] + list(p)))
    if len(valid) < 4:
        env.check('no optimization below parameters plus two', 'obj' not in seen)
        return
    env.check('one optimization', 'obj' in seen)
    # the model saw the samples in some order; pair them by x and date
    gx, gd = seen['order']
    env.check('one entry per valid sample', len(seen['obj']) == len(valid) and len(gx) == len(valid))
    keys = list(zip(gx, gd))
    order = []
    todo = dict()
    for i, r_ in exp:
        todo.setdefault((xs[i], dates[i] if dated else None), []).append(r_)
    env.check('x and date of valid samples', sorted(map(str, keys)) == sorted(
        str((x, d)) for (x, d), v in todo.items() for _ in v), lambda: (keys, list(todo)))
    conds = []
    groups = {}
    for k, g in zip(keys, seen['obj']):
        groups.setdefault(k, []).append(g)
    for k, gs in groups.items():
        es = todo[k]
        left = list(es)
        for g in gs:
            for e in left:
                if len(left) == 1 or env.provable(env.eq(g, e)):
                    conds.append(env.eq(g, e))
                    left = [x for x in left if x is not e]
                    break
        if left:
            conds.append(env.or_(*[env.and_(*env.all_eq(gs, pe)) for pe in itertools.permutations(es)]))
    env.check('residual = |y - model| * weight / samples at x', conds, lambda: (groups, todo))
    lone = [(gs[0], todo[k][0]) for k, gs in groups.items() if len(gs) == 1 and len(todo[k]) == 1]
    env.check('a small residual is still one', [env.not_(env.and_(g == 0, e > 1e-8)) for g, e in lone], lambda: lone)
    env.check('not negative', [g >= 0 for g in seen['obj']])
    c = seen['call']
    env.check('initial guess of the model', [float(v) for v in c['x0']] == [0.5, 1.5])
    env.check('bounds of the model', [float(v) for v in c['bounds'][0]] == [-100.] * 2 and [float(v) for v in c['bounds'][1]] == [100.] * 2)
    md = r['metadata'].iloc[0]
    env.check('parameters reported', env.all_eq(list(md['params']), list(p)))
    env.check('cost reported', env.eq(md['cost'], cost))
    env.check('success reported', bool(md['is_fit']) == bool(ok) and md['status'] == ('FIT' if ok else 'NO-FIT'))
    env.check('AICc of cost, samples and parameters', env.eq(md['aic_c'], env.mu.get_aic_c(cost, len(valid), 2)))
    oi = r['optimize_info'].iloc[0]
    env.check('optimizer info', env.and_(env.eq(oi['cost'], cost), bool(oi['success']) == bool(ok)))


def h_naive(env, n, nulls, weights, dup):
    """models without parameters: the cost is half the squared weighted residuals"""
    xs = [float(i) for i in range(n)]
    for a, b in dup:
        xs[b] = xs[a]
    ys, ws, df = build(env, xs, None, nulls, weights)
    seen = []

    def f_model(a_x, a_date, params, is_mult=False, **kwargs):
        seen.append(list(a_x))
        return env.arr([uf_value(env, 'z', [x]) for x in a_x])
    m = env.fm.ForecastModel('z', 0, f_model)
    r = env.fc.fit_model(m, df, freq='D', source='src', df_actuals=df)
    valid, exp = expected(env, xs, None, ys, ws, lambda i: uf_value(env, 'z', [xs[i]]))
    md = r['metadata'].iloc[0]
    if len(valid) < 2:
        env.check('too short', not md['is_fit'])
        return
    env.check('fitted', bool(md['is_fit']) and md['status'] == 'FIT' and len(md['params']) == 0)
    cost = 0.
    for i, e in exp:
        cost = cost + e * e
    env.check('cost', env.eq(md['cost'], cost * 0.5), lambda: (md['cost'], cost * 0.5))
    env.check('AICc', env.eq(md['aic_c'], env.mu.get_aic_c(md['cost'], len(valid), 0)))


def h_scaled(env, dated, n):
    """the sigmoid model is fitted on a scaled x, other models on x itself"""
    xs = [float(5 + i) for i in range(n)]
    ys = [env.real('y%d' % i, 1, 50) for i in range(n)]
    cols = dict(x=np.array(xs), y=env.col(ys))
    dates = None
    if dated:
        dates = bi_dates(n)
        cols['date'] = env.datecol(dates)
    df = env.frame(cols)
    stub_uniform(env, 0.5)
    seen = []

    def decide(call):
        seen.append(call['model'])
        p = free_params(env, 'p%d' % len(seen), len(call['x0']))
        call['obj'] = list(call['fun'](p))
        call['p'] = p
        return dict(x=p, cost=3.0, success=True)
    for name in ('linear', 'season_wday') if dated else ('linear', 'exp'):
        m = builtin(env, name)
        opt = Optimizer(env, decide)
        env.fc.fit_model(m, df, freq='D', source='s', df_actuals=df)
        c = opt.calls[0]
        y = m(np.array(xs), pd.DatetimeIndex(dates) if dated else None, c['p'])
        d = [a - b for a, b in zip(ys, y)]
        env.check('objective of ' + name, env.all_eq(c['obj'], [env.ite(v >= 0, v, -v) for v in d]))


def objective_cases(tier):
    out = []
    quick = tier == 'quick'
    n = 5
    perms = [(0, 1, 2, 3, 4), (3, 1, 4, 0, 2)] if quick else [(0, 1, 2, 3, 4), (3, 1, 4, 0, 2), (4, 3, 2, 1, 0), (1, 2, 0, 4, 3)]
    dups = [[], [(0, 1)], [(1, 3), (1, 4)], [(0, 4), (1, 2)]]
    nullsets = [(), (1,), (0, 4), (0, 1, 2, 3, 4)]
    wsets = [None, 'sssss', 'sz1ss', 'nssz1', 'ssss1']
    for dated in (True, False):
        for dup in dups:
            for ni, nul in enumerate(nullsets):
                for wi, w in enumerate(wsets):
                    for pi, perm in enumerate(perms):
                        if quick and (pi + ni + wi) % 2:
                            continue
                        out.append(dict(perm=list(perm), dated=dated, dup=dup, nulls=[i in nul for i in range(n)],
                                        weights=w, cache=bool((ni + wi) % 2)))
    if not quick:
        for w in (''.join(x) for x in itertools.product('sz', repeat=6)):
            for nul in ((), (2,), (0, 5)):
                out.append(dict(perm=[2, 0, 1, 5, 3, 4], dated=True, dup=[(0, 2), (0, 5)], nulls=[i in nul for i in range(6)], weights=w, cache=True))
    return out


def naive_cases(tier):
    return [dict(n=4, nulls=[i in nul for i in range(4)], weights=w, dup=dup) for nul in ((), (1,), (0, 3), (0, 1, 2, 3))
            for w in (None, 'ssss', 's1zs', 'nzzs') for dup in ([], [(0, 1)])]


HARNESSES = [
    Harness('objective', h_objective, objective_cases, reach=('residual = |y - model| * weight / samples at x',), validate=1,
            bounds='5 (thorough 6) samples, every value, positive weight, parameter vector and cost; null and zero-weight patterns, '
                   'duplicate x and row orders enumerated; an arbitrary 2-parameter model'),
    Harness('naive', h_naive, naive_cases, reach=('cost',), validate=1, bounds='4 samples'),
    Harness('scaled', h_scaled, lambda t: [dict(dated=d, n=14) for d in (True, False)], validate=1, bounds='14 samples'),
]
ASSUMPTIONS = ['scipy.optimize.least_squares is replaced by an arbitrary outcome (any parameters, cost and success flag); it receives the real objective, start and bounds.']
