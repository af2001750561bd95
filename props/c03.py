"""C03: forecast values are the fitted model evaluated at the x of their date."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .pipe import Series, Leaf, stubs, DAY, NAN


def h_values(env, n, freq, start, gaps, order, zero, null, request, x0, names, composite, extra_years, all_fits, single=False):
    s = Series(env, n, freq, start, gaps=gaps, zero=zero, null=null, order=order,
               x0=None if x0 is None else env.real('x0', -20, 20) if x0 == 'any' else x0)
    req = None if request is None else s.at[request]
    use = s.usable(req)
    leaves = []
    if composite == 'scaled':
        leaves = [Leaf(env, 'sigmoid', 2)]
        models = [leaves[0].model]
    elif composite == 'fixed':
        leaves = [Leaf(env, 'fx', 3, fixed={1: 1.5})]
        models = [leaves[0].model]
    elif composite == 'wide':
        leaves = [Leaf(env, 'wi', 8)]
        models = [leaves[0].model]
    elif composite == 'sum':
        leaves = [Leaf(env, 'pa', 1), Leaf(env, 'pb', 1)]
        models = [leaves[0].model + leaves[1].model]
    elif composite == 'product':
        leaves = [Leaf(env, 'pa', 1), Leaf(env, 'pb', 1)]
        models = [leaves[0].model * leaves[1].model]
    else:
        leaves = [Leaf(env, 'pa', 1), Leaf(env, 'pb', 2)]
        models = [l.model for l in leaves]
    if len(use) < max(m.n_params for m in models) + 2:
        env.stop()
    sols = {}

    def decide(call):
        k = call['no']
        if composite != 'wide':
            p = env.arr([env.real('p%d_%d' % (k, i), -50, 50) for i in range(len(call['x0']))])
        else:     # many parameters, some of them small
            p = env.arr([env.real('p%d_%d' % (k, i), -50, 50) if i in (0, 5) else (0., 2e-5, -3e-4, .25, 1e-9, 0., 7e-4, 1e4)[i] for i in range(8)])
        call['fun'](p)      # the objective is evaluated, so that the models see the samples of the fit
        sols[k] = p
        return dict(x=p, cost=2.0 + k, success=True)
    opt, _ = stubs(env, decide)
    nm = dict(y='val', weight='wt', x='pos', date='when') if names else {}
    df = s.frame(nm)
    per = dict(D=365., W=52., MS=12., x=100.)[freq]
    run = env.fc.run_forecast_single if single else env.fc.run_forecast
    r = run(df, l_model_trend=models, l_model_season=[], l_model_naive=[], extrapolate_years=extra_years / per,
                            date_start_actuals=req, simplify_output=False, include_all_fits=all_fits,
                            **{'col_name_' + k: v for k, v in nm.items()})
    # x of each date in the fit
    xfit = {}
    for l in leaves:
        for xs, ds in l.calls[:1]:
            for x, d in zip(xs, ds):
                xfit[d if d is not None else x] = x
    scale = 100. if composite == 'scaled' else 1.
    i0 = use[0]
    base = xfit.get(s.at[i0]) if freq != 'x' else s.at[i0] / scale
    env.check('first usable sample was fitted', base is not None)

    def x_of(d):
        if freq == 'x':
            return d / scale
        return ((round(base * scale) if type(base) is float or isinstance(base, np.floating) else base * scale) + float((d - s.at[i0]) / DAY)) / scale
    for i in use:
        if freq != 'x':
            env.check('x of the fit advances one per day', env.eq(xfit[s.at[i]], x_of(s.at[i])))
    meta = r['metadata']
    data = r['data']
    fc = data.loc[~data['is_actuals'].astype(bool)]
    env.check('one metadata row per reported model', len(meta) == (len(models) if all_fits else 1))
    for k in range(len(meta)):
        mrow = meta.iloc[k]
        params = list(mrow['params'])
        env.check('parameters are those of the optimizer', any(len(params) == len(v) and env.provable(env.and_(True, *env.all_eq(params, list(v)))) for v in sols.values()))
        rows = fc.loc[fc['model'] == mrow['model']]
        env.check('forecast rows of the model', len(rows) > len(use))
        for d, y in zip(rows['date'], rows['y']):
            x = x_of(d)
            dd = None if freq == 'x' else d
            if composite == 'fixed':
                want = leaves[0].value(x, dd, [params[0], 1.5, params[1]])
            elif composite in ('sum', 'product'):
                a, b = leaves[0].value(x, dd, params[:1]), leaves[1].value(x, dd, params[1:])
                want = a + b if composite == 'sum' else a * b
            else:
                l = [l for l in leaves if l.name == mrow['model']][0]
                want = l.value(x, dd, params)
            env.check('value at the date', env.eq(y, want), lambda: (d, x, y, want))
    if single:
        return
    out = r['forecast']
    best = meta.loc[meta['is_best_fit'].astype(bool)].iloc[0]
    rows = fc.loc[fc['model'] == best['model']]
    got = out.loc[~out['is_actuals'].astype(bool)]
    env.check('forecast table has the selected values', env.all_eq(list(got['y']), list(rows['y'])) + [list(got['date']) == list(rows['date'])])


BUILT = ['constant', 'linear', 'ramp', 'step', 'sigmoid', 'sigmoid_step', 'decay', 'quasilinear', 'season_wday', 'season_month', 'calendar_uk',
         'dummy_christmas', 'season_fourier_yearly', 'season_wday_2', 'linear+season_wday', 'linear*season_wday', 'linear+ramp', 'two_steps',
         'sigmoid_step@const']


def h_builtin(env, spec, freq, n, start):
    """the built-in models: rows equal a fresh evaluation of the reported model object at the fit's own x"""
    const = spec.endswith('@const')
    name = spec.split('@')[0]
    fm = env.fm
    if '+' in name:
        m = getattr(fm, 'model_' + name.split('+')[0]) + getattr(fm, 'model_' + name.split('+')[1])
    elif '*' in name:
        m = getattr(fm, 'model_' + name.split('*')[0]) * getattr(fm, 'model_' + name.split('*')[1])
    else:
        m = getattr(fm, 'model_' + name)
    s = Series(env, n, freq, start, weighted=False, lo=1, hi=100)
    if const:
        s.y = [5.0] * n
    seen = {}

    def decide(call):
        p = [env.real('p%d' % i, 0.5, 3) for i in range(len(call['x0']))]
        seen['p'] = p
        return dict(x=env.arr(p), cost=2.0, success=True)
    opt, _ = stubs(env, decide)
    r = env.fc.run_forecast(s.frame(), l_model_trend=[m], l_model_season=[], l_model_naive=[], extrapolate_years=3. / dict(D=365., W=52., x=100.)[freq],
                            simplify_output=False, season_add_mult='add')
    meta, data = r['metadata'], r['data']
    if len(meta) == 0:
        env.stop()
    env.check('one model', len(meta) == 1)
    rows = data.loc[~data['is_actuals'].astype(bool)]
    env.check('rows', len(rows) >= n)
    p = seen['p']
    wd = s.at[0].weekday() if freq != 'x' else 0
    x = [(wd + float((d - s.at[0]) / DAY)) if freq != 'x' else d for d in rows['date']]
    if name == 'sigmoid':
        x = [v / 100. for v in x]
    dates = pd.DatetimeIndex(list(rows['date'])) if freq != 'x' else None
    if len(p) != m.n_params:       # e.g. the height of a sigmoid step over a constant series is fixed
        ref = meta.iloc[0]['model_obj']
        env.check('reduced model is reported', ref.n_params == len(p) and (not const or ref.n_params < m.n_params))
    else:
        ref = m
    want = ref(np.array(x), dates, env.arr(p))
    env.check('value at the date', env.all_eq(list(rows['y']), list(want)), lambda: (list(rows['y']), list(want)))


def value_cases(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for freq, start in (('D', '2020-02-26'), ('D', '2021-01-03'), ('W', '2020-01-04'), ('x', 0), ('x', 12), ('MS', '2020-01-01')):
        for comp in ('plain', 'sum', 'product', 'scaled', 'fixed'):
            for pat in ('none', 'lead', 'request', 'null', 'x0', 'gap'):
                k += 1
                if q and k % 2 and comp not in ('plain', 'scaled'):
                    continue
                if pat == 'x0' and freq == 'x':
                    continue
                out.append(dict(n=6 if q else 7, freq=freq, start=start, gaps=(1, 2) if pat == 'gap' else (1,), order=('sorted', 'mixed', 'reversed')[k % 3],
                                zero=(0, 1) if pat == 'lead' else (), null=(0, 2) if pat == 'null' else (),
                                request=1 if pat == 'request' else None, x0='any' if pat == 'x0' else None, names=bool(k % 4 == 0), composite=comp,
                                extra_years=3 if q else 6, all_fits=bool(k % 2)))
    for freq, start in (('D', '2020-02-26'), ('x', 3)):
        out.append(dict(n=11, freq=freq, start=start, gaps=(1,), order='sorted', zero=(), null=(2,), request=None, x0=None, names=False, composite='wide', extra_years=2, all_fits=True))
    for freq, start in (('D', '2020-02-26'), ('W', '2020-01-04'), ('x', 12)):
        for k, (order, pat) in enumerate((('mixed', 'x0'), ('reversed', 'lead'), ('mixed', 'null'))):
            # run_forecast_single takes the table as it is
            out.append(dict(n=6, freq=freq, start=start, gaps=(1,), order=order, zero=(0, 1) if pat == 'lead' else (),
                            null=(0, 2) if pat == 'null' else (), request=None, x0=None if freq == 'x' else 'any', names=False,
                            composite='plain', extra_years=3, all_fits=bool(k % 2), single=True))
    return out


HARNESSES = [
    Harness('values', h_values, value_cases, reach=('value at the date', 'x of the fit advances one per day'), validate=1,
            bounds='6-7 samples, every value, weight, parameter and (where given) first x; every zero-weight, null, start-date and gap pattern listed'),
    Harness('builtin', h_builtin, lambda t: [dict(spec=b, freq=f, n=9 if 'season' in b or 'calendar' in b else 6, start=st) for b in BUILT
                                             for f, st in (('D', '2020-02-26'), ('W', '2019-11-30'), ('x', 5))
                                             if not (f == 'x' and ('season' in b or 'calendar' in b or 'dummy' in b))],
            reach=('value at the date',), validate=1, bounds='6-9 samples, every value in [1,100], every parameter in [0.5,3]'),
]
ASSUMPTIONS = ['the optimizer may return any parameters', 'the x of a dated series advances one per day, as normalize_df assigns it (any first x)']
