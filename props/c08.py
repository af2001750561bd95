"""C08: every built-in model proposes a feasible starting point."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import ALL_MODELS, builtin, bi_dates, Optimizer, stub_uniform, free_params


def get(env, spec):
    if isinstance(spec, str):
        return builtin(env, spec)
    a, b = get(env, spec[1]), get(env, spec[2])
    return a + b if spec[0] == '+' else a * b


PATTERNS = {
    # distances between consecutive samples, repeated as needed
    'daily': [1], 'weekly': [7], 'gaps': [1, 3, 1, 10], 'dup': [0, 1, 1], 'dup2': [1, 1, 0], 'dup3': [0, 0, 2], 'many': [1, 0, 0, 0],
    'last': [1, 1, 1, 1, 0, 0], 'same': [0],
}


def xs_of(pattern, n, start):
    x, out = start, []
    for i in range(n):
        out.append(float(x))
        x += PATTERNS[pattern][i % len(PATTERNS[pattern])]
    return out


def y_in(env, i, kind):
    if kind == 'pos':
        return env.real('y%d' % i, 0, 10000, strict=True)
    return env.real('y%d' % i, -10000, 10000)


def h_fit(env, spec, n, pattern, start, kind, dated, nsym):
    """the starting point handed to the optimizer"""
    m = get(env, spec)
    xs = xs_of(pattern, n, start)
    ys = [y_in(env, i, kind) if i < nsym else ys_fixed(i) for i in range(n)]
    cols = dict(x=np.array(xs), y=env.col(ys))
    if dated:
        t0 = pd.Timestamp('2018-12-26')
        cols['date'] = env.datecol([t0 + pd.Timedelta(days=x) for x in xs])
    df = env.frame(cols)
    stub_uniform(env)

    def decide(call):
        return dict(x=env.arr(list(call['x0'])), cost=1.0, success=True)
    opt = Optimizer(env, decide)
    r = env.fc.fit_model(m, df, freq='D', source='s', df_actuals=df)['metadata'].iloc[0]
    if r['status'] in ('TS_TOO_SHORT', 'INPUT_ERR'):
        env.check('not fitted', r['status'] == 'INPUT_ERR' and ('decay' in str(spec) or 'season_wday' in str(spec)))
        return
    env.check('fitted', r['status'] == 'FIT')
    if not opt.calls:
        return
    c = opt.calls[0]
    x0, (lo, hi) = list(c['x0']), c['bounds']
    lo, hi = list(lo), list(hi)
    k = c['model'].n_params
    env.check('one entry per parameter', len(x0) == k and len(lo) == k and len(hi) == k, lambda: (x0, lo, hi))
    env.check('feasible start', [env.le(a, b) for a, b in zip(lo, x0)] + [env.le(a, b) for a, b in zip(x0, hi)] + [not env.is_null(a) for a in x0],
              lambda: (x0, lo, hi))
    env.check('finite start', [not (isinstance(a, float) and np.isinf(a)) for a in x0])
    env.check('bounds are an interval', [env.le(a, b) for a, b in zip(lo, hi)])


def ys_fixed(i):
    return [3.0, 1.0, 4.5, 1.5, 9.0, 2.5, 6.0, 5.0][i % 8]


def fit_cases(tier):
    quick = tier == 'quick'
    out = []

    def add(spec, n, pats, starts=(0, 20), kinds=('pos', 'any'), dated=False, nsym=9):
        for p in pats:
            for s in starts:
                for k in kinds:
                    out.append(dict(spec=spec, n=n, pattern=p, start=s, kind=k, dated=dated, nsym=nsym))
    allp = list(PATTERNS)
    for s, n in (('constant', 3), ('linear', 4), ('linear_nondec', 4), ('quasilinear', 5), ('exp', 4), ('decay', 5), ('sigmoid', 5)):
        add(s, n, allp)
    for s, n in (('step', 4), ('sigmoid_step', 5), ('ramp', 4), ('spike', 5)):
        add(s, n, allp)
    add('ramp', 5, allp)
    add('ramp', 7, ('daily', 'dup', 'dup3', 'many', 'last'), starts=(5,), nsym=5)
    add('two_steps', 6, ('daily', 'dup'), starts=(3,), nsym=3)
    for s, n in ((['+', 'linear', 'ramp'], 6), (['*', 'linear', 'ramp'], 6), (['+', 'linear', 'sigmoid_step'], 7), (['+', 'constant', 'step'], 5),
                 (['+', 'decay', 'constant'], 6), (['+', 'linear_nondec', 'step'], 6)):
        add(s, n, ('daily', 'gaps', 'dup', 'last', 'same'), starts=(20,), kinds=('any',) if s[1] != 'decay' else ('pos',), nsym=4)
    for s, n in (('season_wday_2', 4), ('dummy_christmas', 3), ('dummy_month_start', 3), ('calendar_uk', 4), ('calendar_us', 3),
                 ('calendar_ita', 4), ('date_list', 4), ('dummy_dates', 3), ('dummy_x', 3), ('step_date', 3), ('spike_date', 3)):
        add(s, n, ('daily', 'dup'), starts=(0,), kinds=('any',), dated=True)
    for s, n in (('season_wday', 9), ('season_month', 13), ('season_fourier_yearly', 22), (['+', 'linear', 'season_wday'], 10),
                 (['*', 'linear', 'season_wday'], 10), (['+', ['*', 'linear', 'season_wday'], 'calendar_uk'], 12),
                 (['*', ['+', 'linear', 'season_month'], 'calendar_ita'], 17)):
        add(s, n, ('daily', 'weekly', 'dup'), starts=(0,), kinds=('any',), dated=True, nsym=4)
    if not quick:
        add('sigmoid_step', 6, allp)
        add('step', 6, allp)
        add('ramp', 6, allp)
        add('two_steps', 6, allp, nsym=4)
        add(['+', ['+', 'linear', 'ramp'], 'ramp'], 8, allp, nsym=4)
        add('ramp', 9, allp, starts=(5, 100), nsym=5)
    return out


def h_nodata(env, spec, give, is_mult):
    """without data, the starting point is any feasible one"""
    m = get(env, spec)
    stub_uniform(env)
    ax = np.array(xs_of('gaps', give, 5)) if give else None
    st, r = env.call(lambda: m.f_init_params(is_mult=is_mult) if ax is None else m.f_init_params(ax, None, None, is_mult))
    env.check('completes', st == 'ok', lambda: repr(r))
    if st != 'ok':
        return
    x0 = list(r)
    lo, hi = m.f_bounds(ax, None, None)
    lo, hi = [list(np.broadcast_to(b, (m.n_params,))) for b in (lo, hi)]
    env.check('one entry per parameter', len(x0) == m.n_params, lambda: (x0, m.n_params))
    env.check('feasible start without data', [env.le(a, b) for a, b in zip(lo, x0)] + [env.le(a, b) for a, b in zip(x0, hi)] + [not env.is_null(a) for a in x0],
              lambda: (x0, lo, hi))


def nodata_cases(tier):
    specs = ALL_MODELS + ['spike', 'naive', 'snaive_wday', 'null']
    specs += [['+', 'linear', 'ramp'], ['*', 'sigmoid', 'constant'], ['+', 'constant', 'spike'], ['*', ['+', 'linear', 'season_wday'], 'spike'], ['+', 'decay', 'spike_date']]
    return [dict(spec=s, give=g, is_mult=b) for s in specs for g, b in (((0, False), (6, True)) if tier == 'quick' else ((0, False), (0, True), (3, False), (6, True), (9, False)))]


HARNESSES = [
    Harness('nodata', h_nodata, nodata_cases, reach=('feasible start without data', 'completes'), validate=1,
            bounds='every built-in model and five compositions, without data and with 6 x values only; every random draw'),
    Harness('fit', h_fit, fit_cases, reach=('feasible start', 'not fitted'), validate=1,
            bounds='3-22 samples at nine spacing patterns (gaps, duplicates, all at one x) from two origins; every value in +-10000, every random draw'),
]
ASSUMPTIONS = ['scipy.optimize.least_squares is replaced by a recorder; np.random.uniform by an arbitrary value of its range.']
