"""C28: the automatic choice between additive and multiplicative composition follows the documented rules."""
import numpy as np
import pandas as pd
from numpy.linalg import LinAlgError

from symx.explore import Harness
from .common import patch_everywhere, stub_uniform, stub_sampling, Optimizer
from .pipe import NAN

DAY = pd.Timedelta(days=1)


def table(env, days, zero, null, weighted, xkind, positive, low=None, start='2020-01-01', order=None, sym=None, none=0.):
    n = len(days)
    at = [pd.Timestamp(start) + d * DAY for d in days]
    ys, ws = [], []
    for i in range(n):
        if i in null and env.bool('null%d' % i):
            ys.append(NAN)
        elif sym is not None and i not in sym:
            ys.append(10. + 7 * i % 13)
        else:
            ys.append(env.real('y%d' % i, 0, 1000, strict=True) if positive or i not in (low or ()) else env.real('y%d' % i, -1000, 1000))
        ws.append(none if i in zero and env.bool('zero%d' % i) else 1. if weighted == 'ones' else env.real('w%d' % i, 0, 5, strict=True) if weighted else 1.)
    if xkind == 'days':
        xs = [float(d) for d in days]
    elif xkind == 'whole':
        xs = [d for d in days]
    elif xkind == 'shifted':
        xs = [d + 2.5 for d in days]
    else:
        xs = [d / 4. + .125 for d in days]
    o = list(range(n)) if order is None else order
    cols = dict(date=env.datecol([at[i] for i in o]), x=np.array([xs[i] for i in o]), y=env.col([ys[i] for i in o]))
    if weighted:
        cols['weight'] = env.col([ws[i] for i in o])
    return env.frame(cols), at, xs, ys, ws


def isnull(v):
    return not (type(v).__module__.startswith('symx')) and bool(pd.isnull(v))


def line(env, outcome='fit'):
    """the fit of the straight line: any line, or a failure"""
    if outcome == 'linalg':
        def decide(call):
            raise LinAlgError('stub')
        return None, None, decide
    a, b = env.real('a', -50, 50), env.real('b', -50, 50)
    return a, b, lambda call: dict(x=env.arr([a, b]), cost=2., success=outcome == 'fit')


def expected(env, days, at, xs, ys, ws, freq='M'):
    """None when the rules alone decide for additive, else the usable samples"""
    pos = [i for i in range(len(at)) if not (isinstance(ws[i], float) and not ws[i] > 0)]
    if any(not isnull(ys[i]) and bool(ys[i] <= 0) for i in pos):
        return None
    if not pos or max(at[i] for i in pos) - min(at[i] for i in pos) < 60 * DAY:
        return None
    use = [i for i in pos if not isnull(ys[i])]
    return use if len(use) >= 4 else None


def pairs(a, b):
    return sum(not isnull(u) and not isnull(v) for u, v in zip(list(a.values), list(b.values)))


def stub_corrcoef(env, r, rec):
    """another way of asking for the same coefficient"""
    def corrcoef(x, y=None, *a, **k):
        rec.append((x, y))
        return env.arr([1., r, r, 1.]).reshape(2, 2)
    patch_everywhere(env, np, 'corrcoef', corrcoef)


def h_rule(env, days, zero, null, weighted, xkind, positive, low, order, outcome, freq, sym=None, none=0.):
    df, at, xs, ys, ws = table(env, days, zero, null, weighted, xkind, positive, low, order=order, sym=sym, none=NAN if none is None else none)
    stub_uniform(env, 0.5)
    a, b, decide = line(env, outcome)
    opt = Optimizer(env, decide)
    rec = []
    r = env.real('corr', -1, 1)

    def corr(self, other, *x, **k):
        rec.append((self, other))
        return r if pairs(self, other) > 1 else NAN
    env.patch(pd.Series, 'corr', corr)
    stub_corrcoef(env, r, rec)
    st, got = env.call(env.mu.is_multiplicative, df, **({} if freq == 'M' else dict(freq=freq)))
    env.check('gives an answer', st == 'ok', lambda: repr(got))
    if st != 'ok':
        return
    got = bool(got)
    use = expected(env, days, at, xs, ys, ws)
    if use is None:
        env.check('additive by rule', not got)
        return
    if outcome == 'linalg':
        env.check('additive without a line', not got)
        return
    env.check('fits one line', len(opt.calls) == 1)
    env.check('compares once', len(rec) == 1)
    groups = {}
    for i in use:
        p = (at[i].year, at[i].month) if freq == 'M' else (at[i] - pd.Timestamp('2019-12-30')).days // 7
        groups.setdefault(p, []).append(i)
    means = {p: sum([ys[i] for i in g], 0.) / float(len(g)) for p, g in groups.items()}
    var = {}
    for p, g in groups.items():
        if len(g) > 1:
            res = [a * xs[i] + b - ys[i] for i in g]
            m = sum(res, 0.) / float(len(g))
            var[p] = sum([(v - m) * (v - m) for v in res], 0.) / float(len(g) - 1)
    first, second = rec[0]
    if not isinstance(first, pd.Series):
        return env.check('threshold', got == bool(r >= 0.8) or not got)

    def rows(s):
        out = {}
        for d, v in zip(s.index, list(s.values)):
            if not isnull(v):
                out[(d.year, d.month) if freq == 'M' else (d - pd.Timestamp('2019-12-30')).days // 7] = v
        return out
    one, two = rows(first), rows(second)
    vs, ms = (one, two) if set(one) == set(var) and (set(two) == set(means)) else (two, one)
    env.check('months', set(ms) == set(means) and set(vs) == set(var), lambda: (first, second, set(means), set(var)))
    if set(ms) == set(means) and set(vs) == set(var) and sym is None:     # (long cases mix floats and exact numbers)
        if set(ms) == set(vs) and not bool(env.and_(True, *[env.eq(ms[p], means[p]) for p in means])):
            ms, vs = vs, ms
        env.check('monthly means', [env.eq(ms[p], means[p]) for p in means], lambda: (ms, means))
        env.check('monthly residual variances', [env.eq(vs[p], var[p]) for p in var], lambda: (vs, var))
    both = len(set(means) & set(var))
    env.check('threshold', got == (both > 1 and bool(r >= 0.8)))


def h_nodate(env, n, weighted):
    cols = dict(x=np.arange(n) * 30., y=env.col([env.real('y%d' % i, 1, 100) for i in range(n)]))
    if weighted:
        cols['weight'] = env.col([env.real('w%d' % i, 0, 3) for i in range(n)])
    st, got = env.call(env.mu.is_multiplicative, env.frame(cols))
    env.check('additive without dates', st == 'ok' and not bool(got))


def months(at, use):
    m = [(at[i].year, at[i].month) for i in use]
    return sum(m.count(k) > 1 for k in set(m))


def h_auto(env, days, zero, low, outcome, source, naive, none=0.):
    """run_forecast(season_add_mult='auto') fits the candidates of the chosen mode, and only those"""
    df, at, xs, ys, ws = table(env, days, zero, (), 'ones' if zero else False, 'days', False, low, none=NAN if none is None else none)
    df = df.drop(columns='x')
    if source:
        df['source'] = np.array(['s'] * len(df), dtype=object)
    fm = env.fm
    stub_uniform(env, 0.5)
    stub_sampling(env)
    r = env.real('corr', -1, 1)
    env.patch(pd.Series, 'corr', lambda self, other, *x, **k: r if pairs(self, other) > 1 else NAN)
    stub_corrcoef(env, r, [])
    patch_everywhere(env, env.mu, 'get_aic_c', lambda *x, **k: 3.)

    def decide(call):
        if outcome == 'linalg':
            raise LinAlgError('stub')
        k = len(call['x0'])
        return dict(x=np.array([1.5 + i for i in range(k)]), cost=1., success=True)
    opt = Optimizer(env, decide)
    one = fm.ForecastModel('one', 1, lambda a_x, a_date, params, is_mult=False, **k: np.full(len(a_x), params[0]))
    two = fm.ForecastModel('two', 1, lambda a_x, a_date, params, is_mult=False, **k: np.full(len(a_x), params[0] * 2))
    kw = dict(l_model_trend=[one], l_model_season=[two, fm.model_null], season_add_mult='auto', include_all_fits=True, simplify_output=False)
    if not naive:
        kw['l_model_naive'] = []
    st, res = env.call(env.fc.run_forecast, df, **kw)
    if outcome == 'linalg' and not naive:
        # nothing at all can be fitted
        env.check('no crash', st == 'ok', lambda: repr(res))
    else:
        env.check('runs', st == 'ok', lambda: repr(res))
    if st != 'ok':
        return
    use = expected(env, days, at, xs, ys, ws)
    mult = use is not None and outcome != 'linalg' and months(at, use) > 1 and bool(r >= 0.8)
    md = res['metadata']
    names = sorted(md['model'])
    if outcome != 'linalg':
        want = sorted(([] if not naive else ['snaive_wday' if env.mu.detect_freq(df['date']) == 'D' else 'naive']) + ['one', '(one*two)' if mult else '(one+two)'])
        env.check('candidates of the chosen mode', names == want, lambda: (names, want))
        env.check('mode reported', set(md['add_mult']) == {'mult' if mult else 'add'}, lambda: set(md['add_mult']))


PATTERNS = dict(three=[0, 10, 31, 45, 60, 75], short=[0, 20, 40, 59], just=[0, 20, 40, 60], four=[0, 31, 35, 70, 95, 100], uneven=[3, 4, 5, 33, 62, 63, 64],
                spread=[19, 25, 35, 45, 60, 70, 78], gap=[0, 1, 120, 121, 122], few=[0, 40, 80], long=list(range(120)))


def rule_cases(tier):
    out = []

    def add(days, **k):
        out.append(dict(dict(days=PATTERNS[days], zero=(), null=(), weighted=False, xkind='days', positive=True, low=None, order=None, outcome='fit', freq='M'), **k))
    add('three')
    add('three', xkind='quarter')
    add('four', xkind='shifted', weighted=True)
    add('three', zero=(0, 5), weighted='ones')
    add('three', null=(1, 2), xkind='whole')
    add('just', weighted='ones', zero=(0, 3))
    add('short')
    add('few')
    add('just', null=(1,))
    add('uneven', order=[6, 0, 3, 1, 5, 2, 4])
    add('gap', null=(2,), weighted=True)
    add('three', positive=False, low=(2,), zero=(2,), weighted='ones')
    add('three', positive=False, low=(0, 5), weighted=True)
    add('four', outcome='linalg')
    add('spread')
    add('three', zero=(0, 2), weighted='ones', none=None)
    add('four', positive=False, low=(2,), zero=(2,), weighted=True, none=None)
    add('four', outcome='nofit')
    add('three', freq='W')
    add('long', positive=False, low=(50,), sym=(50, 51))
    add('long', positive=False, low=(3, 100), zero=(3,), null=(100,), sym=(3, 100), weighted='ones')
    if tier != 'quick':
        for d in ('three', 'four', 'uneven', 'gap'):
            for xk in ('days', 'shifted', 'quarter'):
                add(d, xkind=xk, null=(1, 3), zero=(0, 4), weighted='ones')
                add(d, xkind=xk, positive=False, low=(1, 2), zero=(1,), weighted=True)
            add(d, null=(0, 1, 2, 3, 4))
            add(d, outcome='linalg', zero=(0, 1, 2), weighted='ones')
    return out


def auto_cases(tier):
    out = [dict(days=PATTERNS[d], zero=z, low=lo, outcome=o, source=s, naive=nv) for d, z, lo, o, s, nv in
           [('three', (), (), 'fit', False, False), ('four', (0,), (0,), 'fit', True, True), ('short', (), (), 'fit', False, True), ('just', (3,), (1,), 'fit', False, False),
            ('four', (), (), 'linalg', False, True), ('three', (2,), (), 'linalg', True, True)]]
    out += [dict(days=PATTERNS[d], zero=z, low=z, outcome='fit', source=s, naive=nv, none=None) for d, z, s, nv in (('three', (2,), False, False), ('four', (0, 5), True, True))]
    if tier != 'quick':
        out += [dict(days=PATTERNS[d], zero=z, low=lo, outcome='fit', source=s, naive=True) for d in PATTERNS if d != 'long' for z in ((), (1, 2)) for lo in ((), (2,)) for s in (False, True)]
    return out


HARNESSES = [
    Harness('rule', h_rule, rule_cases, reach=('threshold', 'additive by rule', 'monthly means', 'monthly residual variances', 'additive without a line'), validate=1,
            bounds='3-7 dated samples over 2-5 months, any positive (or marked: any) value and weight, null and zero-weight patterns, any fitted line, any correlation'),
    Harness('nodate', h_nodate, lambda t: [dict(n=n, weighted=w) for n in (0, 1, 5) for w in (False, True)], reach=('additive without dates',), bounds='0-5 undated samples'),
    Harness('auto', h_auto, auto_cases, reach=('candidates of the chosen mode', 'mode reported', 'runs'), validate=1, bounds='as rule, through run_forecast with one trend and two seasons'),
]
ASSUMPTIONS = ['the correlation coefficient itself is pandas own: the check hands back any value in [-1, 1] and decides what was correlated and how the result is used']
