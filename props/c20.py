"""C20: input normalisation keeps every sample and assigns consistent x."""
import numpy as np
import pandas as pd

from symx.explore import Harness

NAN = float('nan')
NAMES = {'plain': dict(y='y', weight='weight', x='x', date='date', source='source'),
         'custom': dict(y='value', weight='wt', x='pos', date='when', source='src')}


def make(env, n, order, carrier, sources, weighted, xcol, names, extra, null):
    nm = NAMES[names]
    ys = [NAN if null == i else env.real('y%d' % i, -1000, 1000) for i in range(n)]
    for i in range(n):
        for j in range(i):
            if null not in (i, j):
                env.assume(env.or_(ys[i] - ys[j] >= 1, ys[j] - ys[i] >= 1))
    ds = None
    if carrier == 'symbolic':
        ds = [env.date('d%d' % i, '2019-12-20', '2020-03-10') for i in range(n)]
    elif carrier is not None:
        base = [pd.Timestamp('2020-02-27') + pd.Timedelta(days=k) for k in (0, 3, 4, 9, 20, 21)]
        ds = [base[(2, 0, 5, 3, 1)[i] if xcol else env.choice('d%d' % i, range(4)) if i < 2 else 4] for i in range(n)]
        if order == 'sorted':
            ds.sort()
    ws = [env.real('w%d' % i, 0, 10) for i in range(n)] if weighted else None
    xs = None
    if xcol:
        xs = [env.real('x%d' % i, -50, 50) for i in range(n)] if xcol == 'sym' else [float((7 * i + 3) % 5) for i in range(n)]
    src = [sources[i % len(sources)] for i in range(n)] if sources else None
    cols = {}
    if extra:
        cols['junk'] = np.arange(n) * 1.5
    if extra and names == 'custom':     # other columns that happen to have the usual names
        for i, c in enumerate(('y', 'x', 'weight', 'source', 'date')):
            cols[c] = np.arange(n) * 2. + i if i < 3 else np.array(['1999-01-0%d' % (1 + (j * 5) % 9) for j in range(n)], dtype=object)
    if src:
        cols[nm['source']] = np.array(src, dtype=object)
    if ds and carrier == 'string':
        cols[nm['date']] = np.array([d.strftime('%Y-%m-%d') for d in ds], dtype=object)
    elif ds and carrier != 'index':
        cols[nm['date']] = env.datecol(ds)
    if weighted:
        cols[nm['weight']] = env.col(ws)
    if xs:
        cols[nm['x']] = env.col(xs)
    cols[nm['y']] = env.col(ys)
    index = pd.DatetimeIndex(ds) if carrier == 'index' else None
    df = env.frame(cols)
    if index is not None:
        df.index = index
    elif order == 'odd':
        df.index = [3 * ((i * 2) % n) + 1 for i in range(n)]
    elif order == 'slice':
        df.index = pd.RangeIndex(4, 4 + 2 * n, 2)
    elif order == 'repeated':
        df.index = [i // 2 for i in range(n)]
    return df, ys, ds, ws, xs, src


def h_norm(env, n, order, carrier, sources, weighted, xcol, names, extra, null):
    df, ys, ds, ws, xs, src = make(env, n, order, carrier, sources, weighted, xcol, names, extra, null)
    nm = NAMES[names]
    r = env.fc.normalize_df(df, nm['y'], nm['weight'], nm['x'], nm['date'], nm['source'])
    want = [c for c in ('date', 'source', 'x', 'y', 'weight') if c == 'y' or c == 'x' or (c == 'date' and ds) or (c == 'source' and src)
            or (c == 'weight' and weighted)]
    env.check('columns', list(r.columns) == want, lambda: list(r.columns))
    env.check('row count', len(r) == n)
    env.check('index', list(r.index) == list(range(n)))
    # which input row is each output row
    left, perm = list(range(n)), []
    for v in r['y']:
        hit = [i for i in left if (env.is_null(v) and env.is_null(ys[i])) or
               (not env.is_null(v) and not env.is_null(ys[i]) and env.provable(env.eq(v, ys[i])))]
        env.check('every value once', len(hit) >= 1, lambda: (list(r['y']), ys))
        if not hit:
            return
        left.remove(hit[0])
        perm.append(hit[0])
    if src:
        env.check('source stays', [s == src[i] for s, i in zip(r['source'], perm)])
        env.check('sources in order', list(r['source']) == sorted(src))
    if ds:
        env.check('date stays', [env.eq(d, ds[i]) for d, i in zip(r['date'], perm)], lambda: (list(r['date']), ds))
    if weighted:
        env.check('weight stays', [env.eq(w, ws[i]) for w, i in zip(r['weight'], perm)])
    gx = list(r['x'])
    if xs:
        env.check('x stays', [env.eq(x, xs[i]) for x, i in zip(gx, perm)])
    for a in range(n):
        for b in range(a + 1, n):
            i, j = perm[a], perm[b]
            if src and src[i] != src[j]:
                continue
            env.check('rows in x order', env.le(gx[a], gx[b]), lambda: gx)
            if not xs and ds:
                env.check('one x per day', env.eq(gx[b] - gx[a], env.td_days(ds[j] - ds[i])), lambda: (gx, ds))
    if not xs and not ds:
        seen = {}
        pos = []
        for i in range(n):
            k = src[i] if src else ''
            pos.append(seen.get(k, 0))
            seen[k] = pos[-1] + 1
        env.check('x numbers the rows', [env.eq(x, float(pos[i])) for x, i in zip(gx, perm)], lambda: gx)


def h_hours(env, n, sources):
    """several samples per day: x follows the day, never decreases with time"""
    d0 = env.date('d0', '2020-01-01', '2020-01-09')
    ds = [d0 + env.hours(env.int('h%d' % i, 0, 90)) for i in range(n)]
    ys = env.reals('y', n)
    df = env.frame(dict(date=env.datecol(ds), y=env.col(ys)))
    r = env.fc.normalize_df(df)
    gx, gd = list(r['x']), list(r['date'])
    low, x0 = gd[0], gx[0]
    for d, x in zip(gd[1:], gx[1:]):
        low, x0 = env.ite(d < low, d, low), env.ite(x < x0, x, x0)
    whole = [[env.floor(env.td_days(d - o)) for d in gd] for o in (low, ds[0])]     # since the earliest sample, or the first row
    env.check('whole days since the first sample', env.or_(*[env.and_(*[env.eq(a - b, u - v) for a, u in zip(gx, w) for b, v in zip(gx, w)]) for w in whole]), lambda: (gx, gd))
    for a in range(n):
        for b in range(n):
            env.check('later date never has smaller x', env.implies(gd[a] <= gd[b], gx[a] <= gx[b]))
            env.check('about one per day', env.implies(gd[a] <= gd[b], env.and_(gx[b] - gx[a] <= env.td_days(gd[b] - gd[a]) + 1, gx[b] - gx[a] >= env.td_days(gd[b] - gd[a]) - 1)))


def h_ties(env, n, keys, carrier, xcol, sources, label):
    """many rows on few dates or x: rows that share an x keep their order, with or without a source column"""
    ys = env.reals('y', n)
    pos = [(7 * i + 3 * (i // 5)) % keys for i in range(n)]
    if label == 'blocks':       # tables of the same dates below one another
        pos = [i % keys for i in range(n)]
    elif label == 'sorted':
        pos = sorted(pos)
    src = [sources[(i * 5) % len(sources)] for i in range(n)] if sources else None
    cols = {}
    if carrier == 'hours':
        ds = [pd.Timestamp('2020-02-27') + pd.Timedelta(hours=i) for i in range(n)]
        pos = [(d - pd.Timestamp('2020-02-27')).days for d in ds]
        cols['date'] = env.datecol(ds)
    elif carrier:
        ds = [pd.Timestamp('2020-02-27') + pd.Timedelta(days=2 * p) for p in pos]
        cols['date'] = env.datecol(ds)
    if xcol or not carrier:
        cols['x'] = np.array(pos)
    if src:
        cols['source'] = np.array(src, dtype=object)
    cols['weight'] = np.arange(n) * 1.          # tells the rows apart
    cols['y'] = env.col(ys)
    r = env.fc.normalize_df(env.frame(cols))
    perm = [int(w) for w in r['weight']]
    env.check('every row once', sorted(perm) == list(range(n)))
    env.check('value stays', [env.eq(v, ys[i]) for v, i in zip(r['y'], perm)])
    want = sorted(range(n), key=lambda i: (src[i] if src else '', pos[i]))
    env.check('rows that share an x keep their order', perm == want, lambda: (perm, want))
    if carrier:
        env.check('date stays', [env.eq(d, ds[i]) for d, i in zip(r['date'], perm)])


def h_empty(env):
    fc = env.fc
    env.check('empty table gives None', fc.normalize_df(pd.DataFrame(dict(y=[]))) is None)
    env.check('empty table gives None', fc.normalize_df(pd.DataFrame()) is None)
    y = env.reals('y', 2)
    s = pd.Series(env.col(y), name='y')
    r = fc.normalize_df(s)
    env.check('series input', env.all_eq(list(r['y']), y) + env.all_eq(list(r['x']), [0., 1.]))
    s.index = pd.DatetimeIndex(['2020-01-01', '2020-01-04'])
    r = fc.normalize_df(s)
    env.check('series with dates', env.all_eq(list(r['y']), y) + [r['x'].iloc[1] - r['x'].iloc[0] == 3])


def cases(tier):
    quick = tier == 'quick'
    out = []
    k = 0
    for carrier in ('symbolic', 'column', 'string', 'index', None):
        for sources in (None, ['b', 'a'], ['a', 'b', 'b'], ['only']):
            for xcol in (None, 'sym', 'fix'):
                for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
                    k += 1
                    for names in ('plain', 'custom') if n < 3 or not quick else ('plain', 'custom')[k % 2:][:1]:
                        out.append(dict(n=n, order=('sorted', 'odd', 'slice', 'repeated')[(k + k // 5) % 4], carrier=carrier, sources=sources, weighted=bool(k % 2),
                                        xcol=xcol, names=names, extra=bool(k % 5 < 2), null=k % 4 if k % 7 < 3 else -1))
    return out


HARNESSES = [
    Harness('normalize', h_norm, cases, reach=('row count', 'date stays', 'one x per day', 'x stays', 'x numbers the rows', 'rows in x order'), validate=1,
            bounds='1-4 (thorough 5) rows in any date or x order, every value and weight, five date carriers, one or two interleaved sources'),
    Harness('hours', h_hours, lambda t: [dict(n=n, sources=None) for n in ((2,) if t == 'quick' else (2, 3))], reach=('about one per day',), validate=2,
            bounds='2-3 samples at any hour within 90 hours'),
    Harness('ties', h_ties, lambda t: [dict(n=n, keys=k, carrier=c, xcol=x, sources=s, label=l)
                                       for n, k in (((24, 3), (40, 8)) if t == 'quick' else ((24, 3), (40, 8), (60, 2), (90, 30)))
                                       for c, x in (('date', False), ('date', True), (None, True), ('hours', False))
                                       for s in (None, ['b', 'a']) for l in ('mixed', 'blocks', 'sorted')],
            reach=('rows that share an x keep their order',), validate=1, bounds='24-40 (thorough 90) rows on 2-30 dates or x in three row orders, every value'),
    Harness('empty', h_empty, [dict()], reach=('series input',), validate=1, bounds='empty tables and two-row series'),
]
