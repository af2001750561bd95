"""C21: library calls never modify the caller's data."""
import numpy as np
import pandas as pd
from numpy.linalg import LinAlgError

from symx.explore import Harness
from .common import cell_eq, builtin, bi_dates, stub_uniform, NUM_MODELS, DATE_MODELS, EXTRA_MODELS
from .pipe import Series, Leaf, stubs, NAN, DAY, grid
from .c10 import get


def snap(v):
    if isinstance(v, pd.DataFrame):
        return ('frame', list(v.columns), list(v.index), v.index.names, [str(t) for t in v.dtypes], [list(v.iloc[:, i]) for i in range(v.shape[1])])
    if isinstance(v, pd.Series):
        return ('series', v.name, list(v.index), str(v.dtype), list(v))
    if isinstance(v, (list, tuple, np.ndarray, pd.Index)):
        return ('list', list(v), str(getattr(v, 'dtype', '')))
    return ('other', v)


def unchanged(env, before, v):
    now = snap(v)
    if len(now) != len(before) or [type(a) for a in now] != [type(a) for a in before]:
        return [False]
    out = []
    for a, b in zip(before, now):
        if isinstance(a, list) and a and isinstance(a[0], list):
            if len(a) != len(b):
                return [False]
            for x, y in zip(a, b):
                out += [len(x) == len(y)] + [same(env, p, q) for p, q in zip(x, y)]
        elif isinstance(a, list):
            out += [len(a) == len(b)] + [same(env, p, q) for p, q in zip(a, b)]
        else:
            out.append(a is b or a == b)
    return out


def same(env, p, q):
    if p is q:
        return True
    if isinstance(p, (str, bool, np.bool_, env.fm.ForecastModel)) or isinstance(q, (str, bool, np.bool_, env.fm.ForecastModel)):
        return type(p) is type(q) and bool(p == q)
    return cell_eq(env, p, q)


def guard(env, label, f, *watched):
    """call f; everything watched must come out as it went in, also when f raises"""
    before = [snap(v) for v in watched]
    st, v = env.call(f)
    for b, w in zip(before, watched):
        env.check('%s leaves its input alone' % label, unchanged(env, b, w), lambda: (b, snap(w)))
    return st, v


def scenario(env, sc):
    sc = dict(sc)
    s = Series(env, **sc)
    return s


def table(env, s, index, extra, source=None, norm=False):
    """the caller's table, in caller's row order, with an odd index and spare columns"""
    df = s.frame(extra=extra, source=source)
    if norm and 'x' not in df.columns:
        t0 = min(s.at)
        df['x'] = [float((s.at[i] - t0) / DAY) + 1 for i in s.order]
    if index == 'odd':
        df.index = [7 * i % 11 for i in range(len(df))]
    elif index == 'dup':
        df.index = [i // 2 for i in range(len(df))]
    elif index == 'text':
        df.index = pd.Index(['r%d' % i for i in range(len(df))], name='rows')
    return df


def h_forecast(env, sc, index, extra, options, sources):
    ss = [Series(env, tag='s%d' % i, **sc) for i in range(sources)]
    df = pd.concat([table(env, s, index, extra, 'src%d' % i if sources > 1 else None) for i, s in enumerate(ss)])
    a, b = Leaf(env, 'pa', 1), Leaf(env, 'pb', 2)
    outcome = options.get('outcome', 'ok')

    def decide(call):
        if outcome == 'linalg':
            raise LinAlgError('x')
        return dict(x=env.arr([env.real('p%d_%d' % (call['no'], i), -50, 50) for i in range(len(call['x0']))]), cost=3. - call['no'], success=outcome == 'ok')
    stubs(env, decide)
    trend, season, naive = [b.model, a.model], [env.fm.model_null, Leaf(env, 'ps', 1).model] if options.get('season') else [], [env.fm.model_naive]
    cal = [env.fm.model_calendar_uk]
    kw = {k: v for k, v in options.items() if k not in ('outcome', 'season', 'naive', 'request')}
    if 'request' in options:
        kw['date_start_actuals'] = ss[0].at[options['request']]
    if options.get('naive'):
        kw['l_model_naive'] = naive
    guard(env, 'run_forecast', lambda: env.fc.run_forecast(df, l_model_trend=trend, l_model_season=season, l_model_calendar=cal,
                                                           extrapolate_years=2.5 / dict(D=365., W=52., x=100., MS=12.)[ss[0].freq], **kw), df, trend, season, naive, cal)


def h_functions(env, what, sc, index, extra, opt):
    s = Series(env, **sc)
    norm = what != 'normalize_df'
    df = table(env, s, index, extra, source='q' if opt.get('source') else None, norm=norm)
    stubs(env, lambda call: dict(x=env.arr([env.real('p%d' % i, -50, 50) for i in range(len(call['x0']))]), cost=3., success=opt.get('success', True)))
    leaf = Leaf(env, 'pa', 2)
    fc, mu, fm = env.fc, env.mu, env.fm
    if what == 'normalize_df':
        guard(env, what, lambda: fc.normalize_df(df), df)
    elif what == 'fit_model':
        act = df.copy()
        m = leaf.model if opt['model'] == 'leaf' else get(env, opt['model'])
        guard(env, what, lambda: fc.fit_model(m, df, freq='D', source='s', df_actuals=act, use_cache=opt.get('cache', True)), df, act)
    elif what == 'extrapolate_model':
        m = leaf.model if opt['model'] == 'leaf' else get(env, opt['model'])
        p = env.arr([env.real('p%d' % i, -50, 50) for i in range(m.n_params)])
        guard(env, what, lambda: fc.extrapolate_model(m, p, min(s.at), max(s.at), dict(W='W-MON').get(s.freq, s.freq), .01, x_start_actuals=1., df_actuals=df), df, p)
    elif what == 'interpolate_df':
        guard(env, what, lambda: mu.interpolate_df(df, include_mask=opt.get('mask', False), interpolate_y=opt.get('line', True)), df)
    elif what == 'get_df_actuals_clean':
        guard(env, what, lambda: fc.get_df_actuals_clean(df, 's', 's:l'), df)
    elif what == 'get_model_outliers':
        guard(env, what, lambda: fm.get_model_outliers(df), df)
    elif what == 'is_multiplicative':
        guard(env, what, lambda: mu.is_multiplicative(df), df)
    elif what == 'detect_freq':
        sd = df['date']
        guard(env, what, lambda: (mu.detect_freq(sd), mu.detect_freq(df), fm.get_l_model_auto_season(sd)), sd, df)
    elif what == 'get_pi':
        rows = []
        at = [s.at[i] for i in s.order]
        t = pd.concat([pd.DataFrame(dict(date=df['date'] if 'date' in df else df['x'], y=df['y'], weight=df['weight'] if 'weight' in df else 1., is_actuals=True, model='actuals')),
                       pd.DataFrame(dict(date=env.datecol(at) if s.freq != 'x' else at, y=env.col([env.real('f%d' % i, -1000, 1000) for i in range(s.n)]), weight=1.,
                                         is_actuals=False, model='m'))])
        t['is_best_fit'] = ~t['is_actuals']
        if opt.get('source'):
            t['source'] = ['a', 'b'] * (len(t) // 2)
        guard(env, what, lambda: fc.get_pi(t, n_sims=3, **opt.get('kw', {})), t)


def h_models(env, spec, n, mult):
    m = get(env, spec)
    x = env.arr([env.real('x0', 0, 5, strict=True)] + [1. * i + 5 for i in range(1, n)])
    ds = bi_dates(n)
    di = pd.DatetimeIndex(ds)
    y = env.arr([env.real('y%d' % i, .5, 100) for i in range(n)])
    p = env.arr(env.reals('p', m.n_params, -50, 50))
    stub_uniform(env, 0.5)
    cache = guard(env, 'init_cache', lambda: m.init_cache(x, di), x, di)[1]
    keep = {k: snap(v) for k, v in cache.items()}
    guard(env, 'evaluation', lambda: m(x, di, p, is_mult=mult), x, di, p)
    guard(env, 'cached evaluation', lambda: m(x, di, p, is_mult=mult, **cache), x, di, p)
    for k, b in keep.items():
        env.check('cached variables stay', unchanged(env, b, cache[k]))
    guard(env, 'input check', lambda: m.validate_input(x, y, di), x, y, di)
    guard(env, 'start', lambda: m.f_init_params(x, y, di), x, y, di)
    guard(env, 'bounds', lambda: m.f_bounds(x, y, di), x, y, di)
    st, v = guard(env, 'simplification', lambda: env.fm.simplify_model(m, x, y, di), x, y, di)
    if m.n_params:
        name, npar = m.name, m.n_params
        fix = [env.real('v%d' % i, -50, 50) if i % 2 == 0 else NAN for i in range(m.n_params)]
        fix = np.array(fix, dtype=object) if env.sym else np.array(fix, dtype=float)
        st, g = guard(env, 'fixing parameters', lambda: env.fm.fix_params_fmodel(m, fix), fix)
        if st == 'ok':
            free = env.arr([env.real('w%d' % i, -50, 50) for i in range(g.n_params)])
            guard(env, 'fixed evaluation', lambda: g(x, di, free, is_mult=mult), x, di, free, fix)
        env.check('model keeps its name and size', m.name == name and m.n_params == npar)


def h_compose(env, kind):
    fm = env.fm
    if kind == 'datelist':
        a, b = ['2018-12-30', '2019-01-02'], ['2018-12-31']
        guard(env, 'get_model_from_datelist', lambda: fm.get_model_from_datelist('dl', a, b)(np.array([0., 1.]), pd.DatetimeIndex(['2018-12-30', '2018-12-31']), env.arr(env.reals('p', 2))), a, b)
    elif kind == 'dummy':
        a, b = ['2018-12-30', '2019-01-02'], [3., 1.]
        guard(env, 'get_model_dummy', lambda: fm.get_model_dummy('d', a)(np.array([0., 1.]), pd.DatetimeIndex(['2018-12-30', '2018-12-31']), env.arr(env.reals('p', 1))), a)
        guard(env, 'get_model_dummy', lambda: fm.get_model_dummy('d', b)(np.array([0., 1.]), None, env.arr(env.reals('r', 1))), b)
    elif kind == 'list':
        a, b = [fm.model_linear, fm.model_constant], [fm.model_season_wday, fm.model_null]
        for mode in ('add', 'mult', 'both'):
            guard(env, 'get_list_model', lambda: env.fc.get_list_model(a, b, mode), a, b)
    elif kind == 'sum':
        a, b = fm.model_linear, fm.model_season_wday
        before = [(m.name, m.n_params, m.f_model, m.f_init_params, m.f_bounds, list(m.l_cache_vars or []), dict(m.dict_f_cache or {})) for m in (a, b)]
        c = a + b
        d = a * b
        e = c * fm.model_calendar_uk
        c.init_cache(np.array([0., 1.]), pd.DatetimeIndex(['2018-12-30', '2018-12-31']))
        after = [(m.name, m.n_params, m.f_model, m.f_init_params, m.f_bounds, list(m.l_cache_vars or []), dict(m.dict_f_cache or {})) for m in (a, b)]
        env.check('operands of a composition stay', before == after, lambda: (before, after))
        env.check('compositions differ', len({c.name, d.name, e.name}) == 3)


def cases_forecast(tier):
    q = tier == 'quick'
    D, X, W = dict(n=4, freq='D'), dict(n=4, freq='x', start=3), dict(n=4, freq='W', start='2020-01-06')
    out = []

    def add(sc, index='odd', extra=True, sources=1, **o):
        out.append(dict(sc=sc, index=index, extra=extra, options=o, sources=sources))
    for i, sc in enumerate((dict(D, null=(1,), zero=(2,), order='mixed'), dict(D, order='reversed', weighted=False), dict(X, zero=(0,), null=(3,), order='mixed'),
                            dict(W, null=(0,), order='reversed'), dict(D, dup=(2,), weighted=False), dict(X, weighted=False, gaps=(2,)), dict(D, zero=(1, 2, 3), null=(0,)))):
        idx = ('odd', 'dup', 'text', 'plain')[i % 4]
        add(sc, index=idx, include_all_fits=bool(i % 2), simplify_output=bool(i % 3))
        add(sc, index=idx, extra=False, request=1, naive=True)
        if i < 4 or not q:
            add(dict(sc, n=3), index=idx, sources=2, season_add_mult='both', season=True, naive=True)
    add(dict(D, n=5 if q else 6, weighted=False), find_outliers=True)
    add(dict(X, n=4 if q else 5, weighted=False), find_outliers=True, naive=True)
    add(dict(D, x0=2.), index='text', naive=True, season=True, season_add_mult='mult')
    add(dict(D, weighted=False), season_add_mult='auto', naive=True)
    add(D, outcome='linalg', naive=True)
    add(X, outcome='fail', include_all_fits=True)
    return out


def cases_functions(tier):
    D, X, W = dict(n=4, freq='D'), dict(n=4, freq='x', start=3), dict(n=4, freq='W', start='2020-01-06')
    M = dict(n=5, freq='MS', start='2019-11-01')
    out = []

    def add(what, sc, index='odd', extra=True, **o):
        out.append(dict(what=what, sc=sc, index=index, extra=extra, opt=o))
    scs = [dict(D, null=(1,), zero=(2,), order='mixed'), dict(D, order='reversed', weighted=False), dict(X, zero=(0,), null=(3,), order='mixed'), dict(W, null=(0,), order='reversed'),
           dict(D, dup=(2,), zero=(1,)), dict(X, weighted=False, gaps=(1, 2)), dict(M, null=(1, 2))]
    for i, sc in enumerate(scs):
        idx = ('odd', 'dup', 'text', 'plain')[i % 4]
        add('normalize_df', sc, idx, bool(i % 2), source=bool(i % 3))
        add('normalize_df', dict(sc, x0=1.) if sc['freq'] != 'x' else sc, idx)
        add('fit_model', sc, idx, model='leaf', cache=bool(i % 2))
        add('fit_model', sc, idx, model='leaf', success=False)
        add('fit_model', dict(sc, n=6), idx, model=['+', 'linear', 'constant'] if sc['freq'] == 'x' else ['*', 'linear', 'dummy_month_start'])
        add('fit_model', sc, idx, model='naive')
        for m in ('leaf', 'naive') + (('snaive_wday',) if sc['freq'] == 'D' and 'dup' not in sc else ()):
            add('extrapolate_model', dict(sc, order='sorted'), idx, model=m)
        for mask, line in ((False, True), (True, False)):
            add('interpolate_df', dict(sc, gaps=(1, 2), order='sorted'), idx, mask=mask, line=line)
        add('interpolate_df', dict(sc, gaps=(1, 3)), idx, mask=True)
        add('get_df_actuals_clean', sc, idx)
        if 'dup' not in sc:
            add('get_model_outliers', dict(sc, order='sorted', n=4 if tier == 'quick' else 5, zero=()), idx)
        if sc['freq'] != 'x':
            add('detect_freq', sc, idx)
        add('is_multiplicative', dict(sc, lo=-10, hi=100) if i % 2 or sc['freq'] != 'MS' else dict(sc, lo=1, hi=100, null=()), idx)
        add('get_pi', sc, idx, kw=dict(n_cum=1) if i % 2 else {})
        add('get_pi', dict(sc, n=4), idx, source=True)
    return out


def cases_models(tier):
    specs = NUM_MODELS + DATE_MODELS + EXTRA_MODELS + ['spike', 'null'] + [['+', 'linear', 'season_wday'], ['*', 'linear', 'season_wday'], ['*', ['+', 'constant', 'dummy_x'], 'calendar_uk']]
    return [dict(spec=s, n=n, mult=m) for s in specs for m in (False, True) for n in ((8,) if s in ('season_wday',) or isinstance(s, list) else (2,) if s == 'spike' else (3,))]


HARNESSES = [
    Harness('forecast', h_forecast, cases_forecast, reach=('run_forecast leaves its input alone',), validate=1,
            bounds='3-6 samples per source, any values and weights, null / zero / gap / duplicate patterns, row orders, four index kinds, 25 option combinations'),
    Harness('functions', h_functions, cases_functions, reach=tuple('%s leaves its input alone' % w for w in ('normalize_df', 'fit_model', 'extrapolate_model', 'interpolate_df',
            'get_df_actuals_clean', 'get_model_outliers', 'is_multiplicative', 'detect_freq', 'get_pi')), validate=1, bounds='4-6 samples, as above'),
    Harness('models', h_models, cases_models, reach=('evaluation leaves its input alone', 'start leaves its input alone', 'fixed evaluation leaves its input alone'), validate=1,
            bounds='3-8 samples, any parameter vector'),
    Harness('compose', h_compose, lambda t: [dict(kind=k) for k in ('datelist', 'dummy', 'list', 'sum')], reach=('operands of a composition stay',), validate=1, bounds='concrete lists, any parameters'),
]
ASSUMPTIONS = ['least_squares is replaced by an arbitrary outcome and the random sampling behind intervals by a fixed choice']
