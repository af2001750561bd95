"""C22: the candidate list follows from the data span and the requested options."""
import itertools

import numpy as np
import pandas as pd

from symx.explore import Harness
from .c17 import smallest_step
from .common import patch_everywhere
from .pipe import Series, stubs, NAN

LISTS = ('default', 'empty', 'one', 'two')


def span(env, ds):
    best = None
    for a in ds:
        for b in ds:
            v = env.td_days(a - b)
            best = v if best is None else env.ite(v > best, v, best)
    return best


def pick(env, which, models):
    """(the argument, the candidates it stands for)"""
    null = env.fm.model_null
    if which == 'default':
        return None, [models[0], null]
    if which == 'empty':
        return [], [null]
    if which == 'one':
        return [models[1]], [models[1]]
    return list(models[:2]) + [null], list(models[:2]) + [null]


def seasons(env, ds, mp, op, weekly, yearly):
    """names of the expected seasonal candidates, as models"""
    null = env.fm.model_null
    out = [null]
    if len(ds) >= 2:
        s, d = smallest_step(env, ds), span(env, ds)
        w = weekly if bool(env.and_(d > 7 * mp, s <= 1)) else [null]
        y = yearly if bool(env.and_(d > 365 * mp, s <= 92)) else [null]
        for a, b in itertools.product(w, y):
            m = a + b if op == 'add' else a * b
            if m.name != null.name and m.name not in [x.name for x in out]:
                out.append(m)
    return out


def user_models(env):
    fm = env.fm
    wk = [fm.model_season_wday, fm.model_season_wday_2]
    yr = [fm.model_season_fourier_yearly, fm.model_season_month]
    return wk, yr


def h_season(env, n, unit, hi, mp, mode, wk, yr, carrier, dup):
    d0 = env.date('d0', '2018-12-20', '2019-01-10')
    ds = [d0]
    for i in range(1, n):
        k = env.int('k%d' % i, 0, hi)
        ds.append(d0 + (env.days(k) if unit == 'D' else env.hours(k)))
    if dup:
        ds.append(ds[0])
    ds = [ds[-1]] + ds[:-1]
    mw, my = user_models(env)
    aw, ew = pick(env, wk, mw)
    ay, ey = pick(env, yr, my)
    a = env.datecol(ds)
    if carrier == 'late':
        a.index = [5 + 2 * i for i in range(len(ds))]
    elif carrier == 'values':
        a = a.values if not env.sym else a._values
    kw = {}
    if mp != 1.5:
        kw['min_periods'] = mp
    got = [m.name for m in env.fm.get_l_model_auto_season(a, season_add_mult=mode, l_season_yearly=ay, l_season_weekly=aw, **kw)]
    exp = [m.name for m in seasons(env, ds, mp, mode, ew, ey)]
    env.check('seasonal candidates', len(got) == len(exp) and set(got) == set(exp), lambda: (got, exp, ds))


def h_pipeline(env, pat, hi, zero, request, mode, trend, season, wk, yr, calendar, seed, none=False):
    """which models run_forecast tries, for symbolic dates"""
    fm = env.fm
    n = len(pat) + 1
    d0 = env.date('d0', '2018-12-20', '2018-12-31')
    ds = [d0]
    for i, p in enumerate(pat):
        ds.append(ds[-1] + (env.days(env.int('k%d' % i, 1, hi)) if p == '*' else env.days(p)))
    ws = [(NAN if none else 0.) if i in zero and env.bool('zero%d' % i) else 1. for i in range(n)]
    first = 0 if request is None else request
    use = [i for i in range(first, n) if ws[i] > 0]
    if not use:
        env.stop()
    order = [(i * seed) % n for i in range(n)] if seed else list(range(n))
    df = env.frame(dict(date=env.datecol([ds[i] for i in order]), y=np.array([3. + i % 2 for i in order]), weight=np.array([ws[i] for i in order])))
    stubs(env, lambda call: dict(x=env.arr([0.] * len(call['x0'])), cost=3.0, success=False))
    patch_everywhere(env, env.mu, 'interpolate_df', lambda d, *a, **k: d)
    mw, my = user_models(env)
    aw, ew = pick(env, wk, mw)
    ay, ey = pick(env, yr, my)
    kw = dict(l_season_weekly=aw, l_season_yearly=ay, season_add_mult=mode, l_model_naive=[], include_all_fits=True, simplify_output=False)
    ud = [ds[i] for i in use]
    wide = span(env, ud)
    if trend == 'default':
        et = [fm.model_linear] + ([fm.model_linear + fm.model_ramp] if bool(wide > 730) else [])
    else:
        et = [fm.model_linear, fm.model_constant][:trend]
        kw['l_model_trend'] = et
    ops = ['add', 'mult'] if mode == 'both' else [mode]
    exp = {}
    for op in ops:
        if season == 'auto':
            es = seasons(env, ud, 1.5, op, ew, ey)
        else:
            es = [fm.model_season_wday, fm.model_null][:season]
            kw['l_model_season'] = es
        ms = [(t + s if op == 'add' else t * s) for t in et for s in es]
        if calendar:
            cals = [fm.model_calendar_uk, fm.model_null][:calendar]
            kw['l_model_calendar'] = cals
            if len(ud) > 1 and bool(env.and_(wide > 365, smallest_step(env, ud) <= 1)):
                ms = [(m + c if op == 'add' else m * c) for m in ms for c in cals]
        for m in ms:
            exp.setdefault(m.name, op)
    r = env.fc.run_forecast(df, date_start_actuals=None if request is None else ds[request], **kw)
    md = r['metadata']
    got = list(md['model'])
    env.check('candidates', len(got) == len(exp) and set(got) == set(exp), lambda: (got, sorted(exp), ds))
    env.check('composition mode', [exp.get(m) == a for m, a in zip(got, list(md['add_mult']))], lambda: (got, list(md['add_mult'])))


def h_naive(env, freq, start, ask, zero, mode):
    """the naive candidates"""
    fm = env.fm
    s = Series(env, 5, freq, start, zero=zero)
    if len(s.usable()) < 2:
        env.stop()
    stubs(env, lambda call: dict(x=env.arr([0.] * len(call['x0'])), cost=3.0, success=False))
    kw = {}
    if ask == 'default':
        exp = ['snaive_wday' if freq == 'D' else 'naive']
    else:
        l = [[], [fm.model_naive], [fm.model_snaive_wday, fm.model_naive]][ask]
        exp = [m.name for m in l]
        kw['l_model_naive'] = l
    patch_everywhere(env, env.mu, 'get_aic_c', lambda *a, **k: 3.0)
    r = env.fc.run_forecast(s.frame(), l_model_trend=[fm.model_linear, fm.model_constant], l_model_season=[fm.model_null], season_add_mult=mode,
                            include_all_fits=True, simplify_output=False, **kw)
    got = list(r['metadata']['model'])
    exp = exp + ['linear', 'constant']
    env.check('naive candidates', len(got) == len(exp) and set(got) == set(exp), lambda: (got, exp))


def h_lists(env, nt, ns, mode, shared):
    """get_list_model: all pairs once"""
    fm = env.fm
    lt = [fm.model_linear, fm.model_constant, fm.model_null][:nt]
    ls = [fm.model_null, fm.model_season_wday, fm.model_season_month][:ns]
    if shared:
        lt, ls = lt + lt[:1], ls + ls[:1]
    x, d = env.real('x', -5, 5), pd.Timestamp('2019-02-05')
    got = env.fc.get_list_model(list(lt), list(ls), mode)
    names = [m.name for m in got]
    env.check('no duplicates', len(set(names)) == len(names), lambda: names)
    if not ls:
        exp = [(t, None, 'add') for t in lt]
    elif not lt:
        exp = [(None, s, 'add') for s in ls]
    else:
        exp = [(t, s, op) for op in (('add', 'mult') if mode == 'both' else (mode,)) for t in lt for s in ls]
    found = []
    for t, s, op in exp:
        m = t if s is None else s if t is None else t + s if op == 'add' else t * s
        hit = [g for g in got if g.name == m.name]
        env.check('every pair', len(hit) == 1, lambda: (names, m.name))
        found.append(m.name)
        g = hit[0]
        p = env.reals('p%d_' % len(found), g.n_params, -5, 5)
        date = pd.DatetimeIndex([d])
        parts, k = [], 0
        for q in (t, s):
            if q is not None and q.name != 'null':
                parts.append((q, p[k:k + q.n_params]))
                k += q.n_params
        env.check('parameter count', k == g.n_params)
        ismult = op == 'mult' and len(parts) == 2
        vals = [q(env.arr([x]), date, env.arr(pp), is_mult=ismult)[0] for q, pp in parts]
        if not vals:
            continue
        e = vals[0]
        for v in vals[1:]:
            e = e * v if op == 'mult' else e + v
        env.check('pair composition', env.eq(g(env.arr([x]), date, env.arr(p))[0], e), lambda: (g.name, e))
    env.check('nothing else', set(names) == set(found), lambda: (names, found))


def cases_season(tier):
    q = tier == 'quick'
    out = []
    for mode in ('add', 'mult'):
        for wk, yr in itertools.product(LISTS, LISTS):
            if q and (wk != 'default' and yr != 'default' and wk != yr):
                continue
            full = wk == yr == 'default'
            for n, unit, hi in ((3, 'D', 800), (2, 'D', 800), (3, 'H', 300)):
                if n == 2 and not full:
                    continue
                out.append(dict(n=n, unit=unit, hi=hi, mp=1.5, mode=mode, wk=wk, yr=yr, carrier=('series', 'late', 'values')[len(out) % 3], dup=len(out) % 4 == 0 and n == 2))
        for mp in (1, 2.25):
            out.append(dict(n=3, unit='D', hi=900, mp=mp, mode=mode, wk='default', yr='default', carrier='series', dup=False))
        if not q:
            out.append(dict(n=4, unit='D', hi=800, mp=1.5, mode=mode, wk='default', yr='default', carrier='series', dup=False))
            out.append(dict(n=1, unit='D', hi=1, mp=1.5, mode=mode, wk='default', yr='default', carrier='series', dup=True))
    return out


def cases_pipeline(tier):
    q = tier == 'quick'
    out = []
    k = 0
    for pat, hi in (((1, '*'), 800), (('*', '*'), 500), ((1, '*', 1), 800), ((9, '*', 2), 760), ((92, 92, '*'), 800), ((93, '*', 93), 800), ((1, 1, '*', 40), 400)):
        for zero in ((), (0,), (len(pat),), (1, 2)):
            for mode in ('add', 'mult', 'both'):
                k += 1
                if q and k % 2:
                    continue
                out.append(dict(pat=pat, hi=hi, zero=zero, request=1 if k % 5 == 0 else None, mode=mode, trend='default' if k % 4 else 1 + k % 2,
                                season='auto' if k % 7 else 1 + k % 2, wk='default' if k % 3 else LISTS[k % 4], yr='default' if k % 4 < 3 else LISTS[(k // 2) % 4],
                                calendar=(0, 1, 2, 1, 0)[k % 5], seed=0 if k % 2 == 0 else (2 if (len(pat) + 1) % 2 else 3), none=bool(zero) and k % 3 == 0))
    return out


HARNESSES = [
    Harness('season', h_season, cases_season, reach=('seasonal candidates',), validate=1,
            bounds='2-4 dates in any order up to 900 days (300 hours) apart, min_periods 1, 1.5, 2.25, default / empty / custom seasonality lists'),
    Harness('pipeline', h_pipeline, cases_pipeline, reach=('candidates', 'composition mode'), validate=1,
            bounds='3-5 samples, one or two arbitrary steps up to 800 days, zero or null weights at the listed positions, start date, trend / season / calendar lists'),
    Harness('naive', h_naive, lambda t: [dict(freq=f, start=s, ask=a, zero=z, mode=m) for f, s in (('D', '2020-02-26'), ('W', '2020-01-02'), ('MS', '2019-11-01'), ('x', 0))
                                         for a in ('default', 0, 1, 2) if not (f == 'x' and a == 2) for z, m in (((), 'add'), ((1, 4), 'both'))],
            reach=('naive candidates',), validate=1, bounds='5 samples'),
    Harness('lists', h_lists, lambda t: [dict(nt=a, ns=b, mode=m, shared=sh) for a in range(4) for b in range(4) for m in ('add', 'mult', 'both') for sh in (False, True)
                                         if a + b], reach=('every pair', 'pair composition', 'nothing else'), validate=1, bounds='0-3 trend and seasonality models, any parameters'),
]
ASSUMPTIONS = ['interpolate_df is replaced by the identity in the pipeline harness (its own behaviour is C16); no candidate fits there']
