"""C18: outlier detection only drops spikes, and is unit-free."""
import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import patch_everywhere, same_table
from .c06 import one_run, same_list, META
from .pipe import Series, Leaf, stubs, NAN, DAY


def axis(env, kind, n, shift=0):
    """columns of the axis: consecutive days or consecutive x"""
    if kind == 'date':
        s = pd.Timestamp('2020-02-26') + shift * DAY
        return dict(date=env.datecol([s + i * DAY for i in range(n)]), x=np.arange(n))
    if kind == 'dateonly':
        s = pd.Timestamp('2020-02-26') + shift * DAY
        return dict(date=env.datecol([s + i * DAY for i in range(n)]))
    if kind in ('hour', 'week', 'month'):
        s = pd.Timestamp('2020-02-24') + shift * DAY
        d = pd.date_range(s, periods=n, freq={'hour': 'H', 'week': 'W-MON', 'month': 'MS'}[kind])
        return dict(date=env.datecol(list(d)), x=np.arange(n))
    if kind == 'int':
        return dict(x=np.arange(n) + shift)
    return dict(x=np.arange(n) + float(shift))


def masks(env, ax, y):
    step, spike = env.fm.get_model_outliers(env.frame(dict(ax, y=env.col(y))))
    return [bool(v) for v in step], [bool(v) for v in spike]


def h_spike(env, n, p, slope, ax, shift, null, unit=1.):
    """an isolated spike in a constant or steadily changing series"""
    c, h = env.real('c', -1000, 1000), env.real('h', -1000, 1000)
    s = env.real('s', -100, 100) if slope == 'any' else float(slope)
    env.assume(env.or_(env.and_(h > s + 0.001, h > 0.001 - s), env.and_(h < -s - 0.001, h < s - 0.001)))
    y = [(c + s * i + (h if i == p else 0.)) * unit for i in range(n)]
    if null is not None:
        y[null] = NAN
    step, spike = masks(env, axis(env, ax, n, shift), y)
    env.check('one flag per sample', len(spike) == n and len(step) == n)
    env.check('the spike is flagged, and only it', spike == [i == p for i in range(n)], lambda: spike)


def h_quiet(env, n, slope, ax, weighted):
    """no unusual change: no flag, and the forecast runs as without the option"""
    c = env.real('c', -1000, 1000)
    s = env.real('s', -100, 100) if slope == 'any' else float(slope)
    y = [c + s * i for i in range(n)]
    a = axis(env, ax, n)
    step, spike = masks(env, a, y)
    env.check('no flags', not any(spike) and not any(step) and len(spike) == n, lambda: spike)
    w = [env.real('w%d' % i, 0, 5, strict=True) for i in range(n)] if weighted else None
    cols = dict(a, y=env.col(y))
    if w:
        cols['weight'] = env.col(w)
    leaf = Leaf(env, 'pa', 1)
    stubs(env, lambda call: dict(x=env.arr([0.5]), cost=3.0, success=True))
    r = env.fc.run_forecast(env.frame(cols), l_model_trend=[leaf.model], l_model_season=[], l_model_naive=[], find_outliers=True, simplify_output=False)
    d = r['data']
    act = d.loc[d['is_actuals'].astype(bool)]
    env.check('weights kept', [env.eq(v, (w[i] if w else 1.)) for i, v in enumerate(list(act['weight']))] + [len(act) == n], lambda: list(act['weight']))
    env.check('still forecasts', len(d) > len(act) and bool(r['metadata']['is_fit'].any()))


def h_run(env, n, p, slope, ax, shift, request, weighted):
    """the whole run: the spike gets weight zero and every other sample keeps its weight"""
    c, h, s = env.real('c', -1000, 1000), env.real('h', 1, 1000), float(slope)
    env.assume(h > abs(s) + 0.001)
    y = [c + s * i + (h if i == p else 0.) for i in range(n)]
    a = axis(env, ax, n, shift)
    at = list(a['date']) if 'date' in a else list(a['x'])
    w = [env.real('w%d' % i, 0, 5, strict=True) for i in range(n)] if weighted else None
    cols = dict(a, y=env.col(y))
    if w:
        cols['weight'] = env.col(w)
    leaf = Leaf(env, 'pa', 1)
    stubs(env, lambda call: dict(x=env.arr([0.5]), cost=3.0, success=True))
    r = env.fc.run_forecast(env.frame(cols), l_model_trend=[leaf.model], l_model_season=[], l_model_naive=[], find_outliers=True, simplify_output=False,
                            date_start_actuals=at[request] if request else None)
    d = r['data']
    act = d.loc[d['is_actuals'].astype(bool)]
    env.check('only the spike loses its weight', [len(act) == n - request] + [env.eq(v, 0. if i == p else (w[i] if w else 1.)) for i, v in zip(range(request, n), list(act['weight']))],
              lambda: list(act['weight']))


def h_invariant(env, n, scale, sign, ax1, sh1, ax2, sh2, null, tie):
    """two runs: scaled and shifted values, shifted or replaced axis"""
    y = [env.real('y%d' % i, -1000, 1000) for i in range(n)]
    for i, j in tie:
        y[i] = y[j]
    b = env.real('b', -1000, 1000)
    if null is not None:
        y[null] = NAN
    one = masks(env, axis(env, ax1, n, sh1), y)
    two = masks(env, axis(env, ax2, n, sh2), [v if isinstance(v, float) and v != v else v * scale + b for v in y])
    env.check('one flag per sample', all(len(v) == n for v in one + two))
    env.check('same spikes', one[1] == two[1], lambda: (one, two))
    env.check('same steps', one[0] == two[0], lambda: (one, two))


def h_weights(env, n, freq, start, order, zero, null, request, weighted, naive, models):
    """with the detection's answer arbitrary: the run equals one with those weights set to zero by hand"""
    s = Series(env, n, freq, start, zero=zero, null=null, order=order, weighted=weighted)
    req = None if request is None else s.at[request]
    first = request or 0
    flags = [env.bool('spike%d' % i) if i >= first else False for i in range(n)]
    if len([i for i in s.usable(req) if not flags[i]]) < 3:
        env.stop()
    asked = []
    real = env.fm.get_model_outliers

    def outliers(df, *a, **k):
        col = 'x' if freq == 'x' else 'date'
        asked.append(list(df[col]))
        at = [s.at.index(v) for v in df[col]]
        return np.array([env_step(i) for i in at]), np.array([flags[i] for i in at])

    def env_step(i):
        return i % 2 == 0
    leaves = [Leaf(env, 'pa', 1), Leaf(env, 'pb', 2)][:models]
    kw = dict(l_model_trend=[l.model for l in leaves], l_model_season=[], date_start_actuals=req, include_all_fits=True,
              extrapolate_years=2.5 / dict(D=365., x=100.)[freq], l_model_naive=[env.fm.model_naive] if naive else [])
    sols = {}
    patch_everywhere(env, env.fm, 'get_model_outliers', outliers)
    one = one_run(env, s.frame(), leaves, sols, dict(kw, find_outliers=True))
    env.check('asked once about the samples of the requested window', len(asked) == 1 and sorted(asked[0]) == s.at[first:], lambda: asked)
    w = list(s.w)
    s.w = [0. if flags[i] else w[i] for i in range(n)]
    s.weighted = True
    two = one_run(env, s.frame(), leaves, sols, kw)
    (r1, p1, s1, c1), (r2, p2, s2, c2) = one, two
    env.check('same fitting problems', len(p1) == len(p2) and [same_list(env, x, y) for a, b in zip(p1, p2) for x, y in zip(a, b)])
    env.check('same residuals', same_list(env, s1, s2))
    cols = [c for c in META if c not in ('weights', 'source_long')]
    env.check('same metadata', same_table(env, r1['metadata'][cols], r2['metadata'][cols]))
    for t in ('data', 'forecast'):
        cc = [c for c in r1[t].columns if c != 'source_long']
        env.check('same ' + t, same_table(env, r1[t][cc].reset_index(drop=True), r2[t][cc].reset_index(drop=True)), lambda: (r1[t], r2[t]))
    act = r1['data'].loc[r1['data']['is_actuals'].astype(bool)]
    env.check('weights of the actuals', [env.eq(v, s.w[s.at.index(t)]) for t, v in zip(list(act['date']), list(act['weight']))] + [len(act) == n - first])


def cases_spike(tier):
    q = tier == 'quick'
    out = []
    for n in ((6, 7, 9) if q else (6, 7, 8, 9, 12, 16)):
        for p in range(2, n - 2):
            for ax, sh in (('date', 0), ('int', 0), ('float', 0), ('int', -4), ('float', -3.5), ('dateonly', 40), ('hour', 0), ('week', 0), ('month', 6)):
                k = len(out)
                out.append(dict(n=n, p=p, slope='any' if k % 3 else (0, 2, -3)[k % 9 // 3], ax=ax, shift=sh, null=None, unit=(1., 2. ** -20, 1., 1., 2. ** 17)[k % 5]))
    return out


def cases_run(tier):
    out = []
    for n, p in ((7, 4), (9, 4), (9, 6), (10, 6)):
        for ax, sh in (('date', 0), ('int', 0), ('float', -3.5), ('week', 0), ('month', 6), ('dateonly', 0)):
            for request in (0, 1, 2):
                k = len(out)
                if n - request >= 6 and p - request >= 2:
                    out.append(dict(n=n, p=p, slope=(0, 2, -3)[k % 3], ax=ax, shift=sh, request=request, weighted=bool(k % 2)))
    return out[::2] if tier == 'quick' else out


def cases_invariant(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for n in ((5,) if q else (5, 6)):
        for scale, sign in ((1, 1), (2. ** 20, 1), (2. ** -20, 1), (1000, 1)):
            for a1, s1, a2, s2 in (('date', 0, 'int', 0), ('int', 0, 'int', -3), ('date', 0, 'dateonly', 17), ('float', 0, 'float', -2.5), ('int', 5, 'float', 100.25)):
                k += 1
                if q and k % 2:
                    continue
                out.append(dict(n=n, scale=scale, sign=sign, ax1=a1, sh1=s1, ax2=a2, sh2=s2, null=None, tie=()))
    for nul in (0, 2, 4):
        out.append(dict(n=5 if q else 6, scale=4, sign=1, ax1='date', sh1=0, ax2='float', sh2=-2.5, null=nul, tie=()))
    return out


def cases_weights(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for freq, start in (('D', '2020-02-27'), ('x', 0), ('x', 6)):
        for zero, null, request in (((), (), None), ((1,), (3,), None), ((), (0, 4), 1)):
            for weighted in (True, False):
                k += 1
                out.append(dict(n=5 if q else 6, freq=freq, start=start, order=('sorted', 'mixed', 'reversed')[k % 3], zero=zero if weighted else (), null=null, request=request,
                                weighted=weighted, naive=bool(k % 2), models=1 + k % 2))
    return out


HARNESSES = [
    Harness('spike', h_spike, cases_spike, reach=('the spike is flagged, and only it',), validate=1,
            bounds='6-16 samples, any level, slope and spike height above the slope in units of 2^-20, 1 and 2^17, every position with two samples on either side'),
    Harness('quiet', h_quiet, lambda t: [dict(n=n, slope=s, ax=a, weighted=w) for n in (4, 6) for s in ('any', 0) for a in ('date', 'int', 'float') for w in (False, True)],
            reach=('no flags', 'weights kept', 'still forecasts'), validate=1, bounds='4-6 samples, any level and slope'),
    Harness('run', h_run, cases_run, reach=('only the spike loses its weight',), validate=1,
            bounds='7-10 samples, any level, weights and spike height, starts up to two samples into the series'),
    Harness('invariant', h_invariant, cases_invariant, reach=('same spikes', 'same steps'), validate=1, bounds='5-6 samples with any values, any shift, four scales, five pairs of axes'),
    Harness('weights', h_weights, cases_weights, reach=('same fitting problems', 'same forecast', 'weights of the actuals'), validate=1,
            bounds='5-6 samples, any values and weights, any set of flagged samples'),
]
ASSUMPTIONS = ['real arithmetic: a series that changes steadily up to rounding is not covered']
