"""C09: model addition and multiplication mean what they say."""
import itertools

from symx.explore import Harness
from .common import leaf_model, builtin, ALL_MODELS, bi_dates

# trees are nested lists: ['+', l, r], ['*', l, r], or a leaf: 'N' (null) or a parameter count


def shapes(n):
    if n == 1:
        return [None]
    out = []
    for k in range(1, n):
        for l in shapes(k):
            for r in shapes(n - k):
                out.append((l, r))
    return out


def fill(shape, ops, leaves):
    if shape is None:
        return leaves.pop(0)
    op = ops.pop(0)
    l = fill(shape[0], ops, leaves)
    return [op, l, fill(shape[1], ops, leaves)]


def trees(n, leafkinds):
    for sh in shapes(n):
        for ops in itertools.product('+*', repeat=n - 1):
            for lv in leafkinds:
                yield fill(sh, list(ops), list(lv))


def build(env, t, ctr, invalid):
    """-> (model under test, reference) ; reference = list of leaves with mode rules"""
    if not isinstance(t, list):
        if t == 'N':
            return env.fm.model_null, None
        i = ctr[0]
        ctr[0] += 1
        m = leaf_model(env, 'm%d' % i, t, valid=(i != invalid))
        return m, ('leaf', m, t)
    l, rl = build(env, t[1], ctr, invalid)
    r, rr = build(env, t[2], ctr, invalid)
    m = (l + r) if t[0] == '+' else (l * r)
    if rl is None:
        return m, rr
    if rr is None:
        return m, rl
    return m, (t[0], rl, rr)


def npar(r):
    return r[2] if r[0] == 'leaf' else npar(r[1]) + npar(r[2])


def ev(env, r, xs, params, mult):
    if r[0] == 'leaf':
        return list(r[1].f_model(xs, None, params, is_mult=mult))
    k = npar(r[1])
    sub = r[0] == '*'
    a = ev(env, r[1], xs, params[:k], sub)
    b = ev(env, r[2], xs, params[k:], sub)
    return [x * y if sub else x + y for x, y in zip(a, b)]


def ev_init(env, r, xs, ys, mult):
    if r[0] == 'leaf':
        return list(r[1].f_init_params(xs, ys, None, mult))
    sub = r[0] == '*'
    return ev_init(env, r[1], xs, ys, sub) + ev_init(env, r[2], xs, ys, sub)


def ev_bounds(env, r, xs, ys):
    if r[0] == 'leaf':
        lo, hi = r[1].f_bounds(xs, ys, None)
        return list(lo), list(hi)
    a, b = ev_bounds(env, r[1], xs, ys), ev_bounds(env, r[2], xs, ys)
    return a[0] + b[0], a[1] + b[1]


def h_tree(env, tree, invalid):
    ctr = [0]
    m, r = build(env, tree, ctr, invalid)
    if r is None:
        env.check('null composed with null is null', m.name == 'null' and m.n_params == 0)
        return
    n = npar(r)
    env.check('parameter count', m.n_params == n, lambda: (m.n_params, n))
    xs = env.arr(env.reals('x', 2))
    ys = env.arr(env.reals('y', 2))
    params = env.arr(env.reals('p', n))
    for mult in (False, True):
        got = m(xs, None, params, is_mult=mult)
        spec = ev(env, r, xs, params, mult)
        env.check('value', env.all_eq(got, spec), lambda: (m.name, mult, list(got), spec))
        gi = m.f_init_params(xs, ys, None, mult)
        env.check('initial parameters', env.all_eq(gi, ev_init(env, r, xs, ys, mult)), lambda: (m.name, list(gi)))
    lo, hi = m.f_bounds(xs, ys, None)
    slo, shi = ev_bounds(env, r, xs, ys)
    env.check('bounds', env.all_eq(lo, slo) + env.all_eq(hi, shi), lambda: (m.name, list(lo), slo))
    env.check('input checks of every part', m.validate_input(xs, ys, None) == (invalid < 0 or invalid >= ctr[0]))


def h_pair(env, a, b, op, start):
    """built-in models on concrete dates: the composite equals the combination of its parts"""
    ma, mb = builtin(env, a), builtin(env, b)
    m = ma + mb if op == '+' else ma * mb
    xs = env.arr([env.real('x0', 0, 50, strict=True), env.real('x1', 0, 50, strict=True), 2., 7.])
    d = env.dates(bi_dates(4, start))
    p = env.arr(env.reals('p', ma.n_params + mb.n_params))
    mult = op == '*'
    pa, pb = p[:ma.n_params], p[ma.n_params:]
    va = ma(xs, d, pa, is_mult=mult)
    vb = mb(xs, d, pb, is_mult=mult)
    spec = [x * y if mult else x + y for x, y in zip(va, vb)]
    outer = env.choice('outer', [False, True])
    got = m(xs, d, p, is_mult=outer)
    env.check('value', env.all_eq(got, spec), lambda: (m.name, list(got)[:2], spec[:2]))
    env.check('count', m.n_params == ma.n_params + mb.n_params and len(list(p)) == m.n_params)
    for nul in (m + env.fm.model_null, m * env.fm.model_null, env.fm.model_null + m, env.fm.model_null * m):
        env.check('null is the identity', nul.n_params == m.n_params and nul.name == m.name)
    env.observe('v', got)


def tree_cases(tier):
    out = []
    out += [dict(tree=t, invalid=i) for t in trees(2, list(itertools.product([0, 1, 2, 'N'], repeat=2))) for i in (-1, 0, 1)]
    k3 = [(1, 2, 1), (2, 0, 1), (2, 1, 'N'), ('N', 1, 2), (1, 'N', 2), (1, 1, 2)]
    if tier != 'quick':
        k3 = list(itertools.product([0, 1, 2, 'N'], repeat=3))
    out += [dict(tree=t, invalid=i) for t in trees(3, k3) for i in (-1, 2)]
    k4 = [(1, 2, 1, 2)] if tier == 'quick' else [(1, 2, 1, 2), (2, 1, 'N', 1), (3, 0, 2, 1), (1, 1, 1, 1)]
    out += [dict(tree=t, invalid=-1) for t in trees(4, k4)]
    if tier != 'quick':
        out += [dict(tree=t, invalid=-1) for t in trees(5, [(1, 2, 1, 2, 1)])]
    return out


def pair_cases(tier):
    if tier == 'quick':
        some = ['constant', 'linear', 'step', 'ramp', 'season_wday', 'season_month', 'season_fourier_yearly', 'calendar_uk',
                'dummy_x', 'step_date', 'decay', 'date_list']
        return [dict(a=a, b=b, op=o, start='2018-12-29') for i, a in enumerate(some) for j, b in enumerate(some)
                for o in '+*' if (i + j) % 3 == 0 or abs(i - j) == 1]
    return [dict(a=a, b=b, op=o, start=s) for a in ALL_MODELS for b in ALL_MODELS for o in '+*'
            for s in ('2018-12-29', '2020-02-27')]


HARNESSES = [
    Harness('tree', h_tree, tree_cases, reach=('value', 'initial parameters', 'bounds', 'input checks of every part'), validate=1,
            bounds='all trees of 2 leaves, selected parameter counts for 3 and 4 (thorough: 5) leaves; leaf models are arbitrary functions of x, mode and parameters; 2 samples'),
    Harness('pair', h_pair, pair_cases, reach=('value', 'null is the identity'), validate=1,
            bounds='pairs of built-in models, 4 samples (2 with symbolic x in (0,50], concrete daily dates), every parameter vector'),
]
