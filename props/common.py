"""Pieces shared by the property harnesses."""
import sys
import numpy as np
import pandas as pd
import z3


def uf_value(env, name, args):
    """an arbitrary function of real arguments: uninterpreted in symbolic runs, a fixed generic linear map in replays"""
    if env.sym:
        from symx import core
        f = z3.Function('leaf_' + name, *([z3.RealSort()] * (len(args) + 1)))
        if not args:
            app = z3.Const('leaf0_' + name, z3.RealSort())
            core.ctx().uf_apps.append((name, [], app))
            return core.SReal(app)
        zs = [core.SReal.lift(a) for a in args]
        app = f(*zs)
        core.ctx().uf_apps.append((name, zs, app))
        return core.SReal(app)
    for n, at, v in env.s.get('__uf__', ()):        # replays of a counterexample: the function of the solver's model
        if n == name and len(at) == len(args) and all(abs(float(a) - b) <= 1e-9 * max(1., abs(b)) for a, b in zip(args, at)):
            return v
    h = sum(ord(c) * (i + 3) for i, c in enumerate(name)) % 17
    r = 1.5 + h
    for i, a in enumerate(args):
        r += (0.7 + ((i * 13 + h * 5) % 11)) * float(a)
    return r


def leaf_model(env, name, n_params, valid=True):
    """a user-defined model whose functions are arbitrary"""
    fm = env.fm

    def f_model(a_x, a_date, params, is_mult=False, **kwargs):
        params = list(params)
        assert len(params) == n_params
        return env.arr([uf_value(env, name, [x, float(bool(is_mult))] + params) for x in a_x])

    def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
        return env.arr([uf_value(env, name + 'i%d' % j, [a_y[0], float(bool(is_mult))]) for j in range(n_params)])

    def f_bounds(a_x=None, a_y=None, a_date=None):
        return (env.arr([uf_value(env, name + 'l%d' % j, [a_y[0]]) for j in range(n_params)]),
                env.arr([uf_value(env, name + 'h%d' % j, [a_y[0]]) for j in range(n_params)]))

    def f_valid(a_x, a_y, a_date):
        assert valid
        return True
    return fm.ForecastModel(name, n_params, f_model, f_init, f_bounds, l_f_validate_input=f_valid)


def bi_dates(n, start='2018-12-29'):
    return list(pd.date_range(start, periods=n, freq='D'))


NUM_MODELS = ['constant', 'linear', 'linear_nondec', 'quasilinear', 'exp', 'decay', 'step', 'two_steps', 'sigmoid_step',
              'sigmoid', 'ramp']
DATE_MODELS = ['season_wday', 'season_month', 'season_fourier_yearly', 'season_wday_2', 'dummy_christmas',
               'dummy_month_start', 'calendar_uk', 'calendar_us', 'calendar_ita']


def builtin(env, name):
    fm = env.fm
    if name == 'date_list':
        return fm.get_model_from_datelist('dl', ['2018-12-30', '2019-01-02'], ['2018-12-31'])
    if name == 'dummy_dates':
        return fm.get_model_dummy('dd', ['2018-12-30', '2019-01-01'])
    if name == 'dummy_x':
        return fm.get_model_dummy('dx', [1., 2.])
    if name == 'step_date':
        return fm.get_model_step_date('2018-12-31')
    if name == 'spike_date':
        return fm.get_model_spike_date('2018-12-30', '2019-01-01')
    return getattr(fm, 'model_' + name)


EXTRA_MODELS = ['date_list', 'dummy_dates', 'dummy_x', 'step_date', 'spike_date']
ALL_MODELS = NUM_MODELS + DATE_MODELS + EXTRA_MODELS


# ---------------------------------------------------------------- stubs for the environment of the library
def patch_everywhere(env, holder, name, new):
    """replace holder.name and every module-level alias of it inside the package"""
    import sys
    old = getattr(holder, name)
    for k, m in list(sys.modules.items()):
        if k.startswith('anticipy') and m is not None:
            for n, v in list(vars(m).items()):
                if v is old and n != '__builtins__':
                    env.patch(m, n, new)
    env.patch(holder, name, new)


def stub_uniform(env, value=None):
    """np.random.uniform: an arbitrary value in the requested range (or a fixed point of it)"""
    cnt = [0]

    def uniform(low=0.0, high=1.0, size=None):
        def one():
            if value is not None:
                return low + (high - low) * value
            cnt[0] += 1
            t = env.real('u%d' % cnt[0], 0, 1)
            return low + (high - low) * t
        if size is None:
            return one()
        n = int(np.prod(size))
        r = env.arr([one() for _ in range(n)])
        return r
    patch_everywhere(env, np.random, 'uniform', uniform)


class Optimizer:
    """scipy.optimize.least_squares replaced by an arbitrary outcome.  `decide(call_no, x0, bounds, fun)` returns a dict with
    x, cost, success or raises LinAlgError."""

    def __init__(self, env, decide):
        self.env, self.decide, self.calls = env, decide, []
        import scipy.optimize as so

        def least_squares(fun, x0, jac='2-point', bounds=(-np.inf, np.inf), *a, args=(), kwargs=None, **k):
            kw = dict(kwargs or {})

            def f(p):
                return fun(p, *args, **kw)
            call = dict(x0=x0, bounds=bounds, fun=f, no=len(self.calls), model=args[0] if args else None)
            self.calls.append(call)
            r = self.decide(call)
            return so.OptimizeResult(x=r['x'], cost=r['cost'], success=r['success'], optimality=0.0, nfev=1, njev=1,
                                     status=1 if not isinstance(r['success'], bool) or r['success'] else 0, message='stub', fun=None)
        patch_everywhere(env, so, 'least_squares', least_squares)


def free_params(env, name, n):
    return env.arr([env.real('%s_%d' % (name, i), -50, 50) for i in range(n)])


def stub_sampling(env):
    """the random part of prediction intervals: Series.sample cycles through the series, np.percentile is a constant per level;
    records the residuals that were offered"""
    rec = dict(residuals=[])

    def sample(self, n=None, frac=None, replace=False, *a, **k):
        rec['residuals'].append(list(self.values))
        m = len(self)
        return self.iloc[[i % m for i in range(1 if n is None else int(n))]]
    env.patch(pd.Series, 'sample', sample)

    real = np.percentile

    def percentile(a, q, axis=None, *r, **k):
        if sys._getframe(1).f_globals.get('__name__', '').startswith('pandas'):      # Series.quantile
            return real(a, q, axis, *r, **k)
        a = np.asarray(a)
        qs = np.atleast_1d(q)
        n = 1 if axis is None else a.shape[1 - axis]
        out = [np.array([float(x) / 100 - 0.5] * n) for x in qs]
        out = [o[0] if axis is None else o for o in out]
        return out[0] if np.ndim(q) == 0 else out
    patch_everywhere(env, np, 'percentile', percentile)
    return rec


def same_cell(env, a, b):
    """equality of two table cells (numbers, dates, text, nulls)"""
    return env.eq(a, b)


def same_table(env, a, b, cols=None):
    """conditions: equal shape, columns, order and cells"""
    cols = list(a.columns) if cols is None else cols
    if list(a.columns) != list(b.columns) and cols is None:
        return [False]
    if len(a) != len(b):
        return [False]
    out = []
    for c in cols:
        out += [cell_eq(env, x, y) for x, y in zip(list(a[c]), list(b[c]))]
    return out


def cell_eq(env, x, y):
    x, y = [v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v for v in (x, y)]
    if isinstance(x, (list, tuple, np.ndarray)) or isinstance(y, (list, tuple, np.ndarray)):
        return env.and_(True, *env.all_eq(list(x), list(y)))
    return env.eq(x, y)
