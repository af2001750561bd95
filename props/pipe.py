"""Scenario pieces for the properties about whole forecasts."""
import numpy as np
import pandas as pd

from .common import uf_value, Optimizer, stub_uniform, stub_sampling

NAN = float('nan')
DAY = pd.Timedelta(days=1)
EPOCH = pd.Timestamp('1970-01-01')


def grid(freq, start, g):
    """the date (or x) g periods after the start"""
    if freq == 'x':
        return start + g
    if freq == 'D':
        return start + g * DAY
    if freq == 'W':
        return start + 7 * g * DAY
    if freq == 'MS':
        y, m = divmod(start.year * 12 + start.month - 1 + g, 12)
        return pd.Timestamp(y, m + 1, 1)
    if freq == 'H':
        return start + g * pd.Timedelta(hours=1)
    if freq == 'Q':
        return start + pd.offsets.QuarterEnd(0) + g * pd.offsets.QuarterEnd(1)
    if freq == 'YS':
        return pd.Timestamp(start.year + g, 1, 1)
    raise ValueError(freq)


class Series:
    """n samples on a grid; every gap / null / zero-weight pattern asked for is a fork, values and weights are arbitrary"""

    def __init__(self, env, n, freq='D', start=None, gaps=(1,), null=(), zero=(), weighted=True, order='sorted', tag='', dup=(), x0=None,
                 lo=-1000, hi=1000, wnull=(), values=None):
        self.env, self.n, self.freq = env, n, freq
        start = pd.Timestamp(start or '2020-02-27') if freq != 'x' else float(start or 0)
        g, self.at = 0, []
        for i in range(n):
            if i and i not in dup:
                g += gaps[0] if i == 1 else env.choice('%sg%d' % (tag, i), gaps)
            self.at.append(grid(freq, start, g))
        self.y, self.w = [], []
        for i in range(n):
            isnull = i in null and env.bool('%snull%d' % (tag, i))
            self.y.append(NAN if isnull else values[i] if values is not None and values[i] is not None else env.real('%sy%d' % (tag, i), lo, hi))
            iszero = i in zero and env.bool('%szero%d' % (tag, i))
            wn = i in wnull and not iszero and weighted and env.bool('%swnull%d' % (tag, i))
            self.w.append(NAN if wn else 0. if iszero else env.real('%sw%d' % (tag, i), 0, 5, strict=True) if weighted is True else 1.)
        self.weighted = weighted
        if order == 'sorted':
            self.order = list(range(n))
        elif order == 'reversed':
            self.order = list(range(n))[::-1]
        else:
            self.order = [i for i in range(1, n, 2)] + [i for i in range(0, n, 2)]
        self.x = None
        if x0 is not None:
            self.x = [x0 + (float((a - self.at[0]) / DAY) if freq != 'x' else a - self.at[0]) for a in self.at]

    def isnull(self, i):
        return isinstance(self.y[i], float) and self.y[i] != self.y[i]

    def iszero(self, i):
        """no weight: zero or null"""
        return isinstance(self.w[i], float) and not self.w[i] > 0

    def usable(self, start=None):
        return [i for i in range(self.n) if not self.isnull(i) and not self.iszero(i) and (start is None or self.at[i] >= start)]

    def frame(self, names=None, extra=False, source=None):
        nm = dict(y='y', weight='weight', x='x', date='date', source='source')
        nm.update(names or {})
        env = self.env
        cols = {}
        if source is not None:
            cols[nm['source']] = np.array([source] * self.n, dtype=object)
        if self.freq == 'x':
            cols[nm['x']] = np.array([self.at[i] for i in self.order], dtype=float)
        else:
            cols[nm['date']] = env.datecol([self.at[i] for i in self.order])
            if self.x is not None:
                cols[nm['x']] = env.col([self.x[i] for i in self.order])
        if extra:
            cols['other'] = np.arange(self.n) * 2.5
        cols[nm['y']] = env.col([self.y[i] for i in self.order])
        if self.weighted:
            cols[nm['weight']] = env.col([self.w[i] for i in self.order])
        return env.frame(cols)


def daynum(d):
    return float((pd.Timestamp(d) - EPOCH) / DAY)


class Leaf:
    """a user model with an arbitrary output function; records where it was evaluated"""

    def __init__(self, env, name, n_params, fixed=None, uses_date=True):
        self.env, self.name, self.n_params, self.calls = env, name, n_params, []
        self.uses_date = uses_date
        fixed = fixed or {}

        def f_model(a_x, a_date, params, is_mult=False, **kwargs):
            xs = list(a_x)
            ds = [None] * len(xs)
            if a_date is not None and not (isinstance(a_date, pd.Index) and pd.api.types.is_numeric_dtype(a_date)):
                ds = list(a_date)
            params = list(params)
            assert len(params) == n_params, 'wrong number of parameters'
            self.calls.append((xs, ds))
            return env.arr([self.value(x, d, params) for x, d in zip(xs, ds)])

        def f_init(a_x=None, a_y=None, a_date=None, is_mult=False):
            return np.array([fixed.get(i, 0.5) for i in range(n_params)])

        def f_bounds(a_x=None, a_y=None, a_date=None):
            return (np.array([fixed.get(i, -np.inf) for i in range(n_params)]), np.array([fixed.get(i, np.inf) for i in range(n_params)]))
        self.model = env.fm.ForecastModel(name, n_params, f_model, f_init, f_bounds)

    def value(self, x, d, params):
        a = [x] + list(params)
        if self.uses_date:
            a.insert(1, daynum(d) if d is not None else 0.)
        return uf_value(self.env, self.name, a)


def stubs(env, decide):
    stub_uniform(env, 0.5)
    rec = stub_sampling(env)
    return Optimizer(env, decide), rec
