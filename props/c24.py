"""C24: plots give every source its own panel with exactly its own data."""
import math
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from symx.explore import Harness
from .pipe import NAN, DAY

T0 = pd.Timestamp('2020-02-27')




# ------------------------------------------------------------------ what was drawn
def html_panels(fig):
    """panel -> title, traces; read from the figure handed to plotly"""
    panels = {}
    lay = fig.layout
    for t in fig.data:
        ax = (t.xaxis or 'x', t.yaxis or 'y')
        panels.setdefault(ax, dict(title=None, traces=[]))['traces'].append(t)
    box = {}
    for (xa, ya) in panels:
        dx = lay['xaxis' + xa[1:]].domain or (0., 1.)
        dy = lay['yaxis' + ya[1:]].domain or (0., 1.)
        box[(xa, ya)] = (dx[0], dx[1], dy[0], dy[1])
    for an in lay.annotations or ():
        for k, b in box.items():
            if abs(an.x - (b[0] + b[1]) / 2) < 1e-9 and abs(an.y - b[3]) < 1e-9:
                panels[k]['title'] = an.text
    out = []
    for k, p in panels.items():
        lines = [(list(t.x), list(t.y), t.legendgroup == 'actuals' and 'a' or t.fill == 'tonexty' and 'hi' or t.mode == 'lines' and 'lo' or 'f') for t in p['traces']]
        act = [l for l in lines if l[2] == 'a']
        fc = [l for l in lines if l[2] == 'f']
        pairs, k2 = [], [l for l in lines if l[2] in ('lo', 'hi')]
        for lo, hi in zip(k2[::2], k2[1::2]):
            pairs.append(None if (lo[2], hi[2]) != ('lo', 'hi') else (lo[0], lo[1], hi[0], hi[1]))
        out.append(dict(at=box[k], title=p['title'], act=[(l[0], l[1]) for l in act], fc=[(l[0], l[1]) for l in fc], pairs=pairs, odd=len(k2) % 2))
    return out


class Axis:
    def __init__(self, at):
        self.at, self.lines, self.fills, self.title, self.visible = at, [], [], None, True

    def plot(self, x, y, *a, **k):
        l = Line(list(x), list(y), k)
        self.lines.append(l)
        return [l]

    def fill_between(self, x, y1, y2=0, where=None, **k):
        x, y1, y2 = list(x), list(y1), list(y2)
        w = [bool(v) for v in (where if where is not None else [True] * len(x))]
        pts, run = [], []
        for i in range(len(x) + 1):         # areas are drawn for runs of two or more
            if i < len(x) and w[i]:
                run.append(i)
            else:
                if len(run) > 1:
                    pts.append([(x[j], y1[j], y2[j]) for j in run])
                run = []
        self.fills.append(pts)

    def set_title(self, t, *a, **k):
        self.title = t

    def set_visible(self, v):
        self.visible = v

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class Line:
    def __init__(self, x, y, kw):
        self.x, self.y, self.kw = x, y, kw


class Any:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k):
        return Any()


def png_stub(env, saved):
    plt = env.fp.plt
    made = []

    def subplots(nrows=1, ncols=1, squeeze=True, **k):
        a = np.array([[Axis((r, c)) for c in range(ncols)] for r in range(nrows)], dtype=object)
        made.append(a)
        return fig, (a if not squeeze or a.size > 1 else a[0, 0])

    class Figure(Any):
        @staticmethod
        def savefig(path, **k):
            save(saved, 'png', path)
    fig = Figure()
    env.patch(plt, 'subplots', subplots)
    env.patch(plt, 'savefig', fig.savefig)
    env.patch(plt, 'gcf', lambda: fig)
    return made


def save(saved, kind, path):
    # a file can only be written in a folder that exists
    if not os.path.isdir(os.path.dirname(os.path.abspath(path))):
        raise FileNotFoundError(path)
    saved.append((kind, path))


def html_stub(env, saved, figs):
    off = env.fp.py.offline

    def plot(fig, filename=None, **k):
        figs.append(fig)
        save(saved, 'html', filename)

    def iplot(fig, **k):
        figs.append(fig)
        saved.append(('jupyter', None))
    env.patch(off, 'plot', plot)
    env.patch(off, 'iplot', iplot)
    env.patch(off, 'init_notebook_mode', lambda **k: None)
    import plotly.basedatatypes as pb
    import plotly.io as pio
    for owner in (pb.BaseFigure, pio):
        env.patch(owner, 'write_html', lambda fig, file, *a, **k: plot(fig, filename=file))
        env.patch(owner, 'show', lambda fig, *a, **k: iplot(fig))


def draw(env, df, output, **kw):
    saved, figs = [], []
    axes = png_stub(env, saved)
    html_stub(env, saved, figs)
    home = tempfile.mkdtemp(prefix='c24')
    path = kw.pop('path')
    folder = 'not/there' if path == 'somewhere/plot' and output == 'png' else ''
    if path:
        path = os.path.join(home, folder, os.path.basename(path))
    here = os.getcwd()
    os.chdir(home)
    try:
        st, v = env.call(lambda: env.fp.plot_forecast(df, output, path=path, **kw))
        saved = [(k, p if p is None else os.path.relpath(p, home)) for k, p in saved]
    finally:
        os.chdir(here)
        shutil.rmtree(home)
    return st, v, saved, figs, axes


def png_panels(axes):
    out = []
    for ax in axes[-1].ravel():
        if not ax.visible and not ax.lines:
            continue
        act = [(l.x, l.y) for l in ax.lines if l.kw.get('label') == 'Actuals' or l.kw.get('linestyle') == 'None']
        fc = [(l.x, l.y) for l in ax.lines if not (l.kw.get('label') == 'Actuals' or l.kw.get('linestyle') == 'None')]
        if ax.visible:
            out.append(dict(at=ax.at, title=ax.title, act=act, fc=fc, fills=ax.fills, odd=0))
    return out


# ------------------------------------------------------------------ tables
def make(env, rows, cols, q, order):
    """rows: [(source, day, is_actuals)]"""
    data = []
    for i, (s, day, act) in enumerate(rows):
        data.append(dict(source=s, date=T0 + day * DAY, is_actuals=act, model='actuals' if act else 'm', y=env.real('y%d' % i, -100, 100),
                         **{'q%s' % k: NAN if act else env.real('q%s_%d' % (k, i), -100, 100) for k in cols}))
    if order == 'reversed':
        data = data[::-1]
    elif order == 'mixed':
        data = data[1::2] + data[::2]
    t = dict(date=env.datecol([d['date'] for d in data]), source=np.array([d['source'] for d in data], dtype=object), model=np.array([d['model'] for d in data], dtype=object),
             is_actuals=np.array([d['is_actuals'] for d in data]), y=env.col([d['y'] for d in data]))
    for k in cols:
        t['q%s' % k] = env.col([d['q%s' % k] for d in data])
    return env.frame(t), data


def same_rows(env, got, exp):
    """the same points: in table order"""
    xs, ys = got
    if len(xs) != len(exp) or len(ys) != len(exp):
        return [False]
    return [pd.Timestamp(x) == e[0] for x, e in zip(xs, exp)] + env.all_eq(list(ys), [e[1] for e in exp])


def judge(env, panels, data, sources, output, interval, cols, q):
    env.check('one panel per source', len(panels) == len(sources), lambda: panels)
    env.check('no panel twice', len({p['at'] for p in panels}) == len(panels))
    if len(sources) > 1:
        env.check('panels named after their sources', sorted(str(p['title']) for p in panels) == sorted(str(s) for s in sources), lambda: [p['title'] for p in panels])
    for p in panels:
        mine = [d for d in data if len(sources) == 1 or str(d['source']) == str(p['title'])]
        act = [(d['date'], d['y']) for d in mine if d['is_actuals']]
        fc = [(d['date'], d['y']) for d in mine if not d['is_actuals']]
        env.check('one trace of each kind', len(p['act']) == 1 and len(p['fc']) == 1 and not p['odd'])
        env.check('actuals of the source', same_rows(env, p['act'][0], act), lambda: (p['act'], act))
        env.check('forecast of the source', same_rows(env, p['fc'][0], fc), lambda: (p['fc'], fc))
        shown = [k for k in q if interval and k in cols and 100 - k in cols]
        exp = [[(d['date'], d['q%s' % k], d['q%s' % (100 - k)]) for d in mine if not d['is_actuals']] for k in shown]
        if output == 'png':
            env.check('interval areas', len(p['fills']) == len(exp))
            for g, e in zip(p['fills'], exp):
                e = [e] if len(e) > 1 else []
                env.check('interval of the source', len(g) == len(e) and [len(a) == len(b) and env.and_(True, *[pd.Timestamp(x[0]) == y[0] for x, y in zip(a, b)],
                          *[c for x, y in zip(a, b) for c in env.all_eq(x[1:], y[1:])]) for a, b in zip(g, e)], lambda: (g, e))
        else:
            env.check('interval areas', len(p['pairs']) == len(exp) and None not in p['pairs'])
            for g, e in zip(p['pairs'], exp):
                env.check('interval of the source', same_rows(env, (g[0], g[1]), [(x[0], x[1]) for x in e]) + same_rows(env, (g[2], g[3]), [(x[0], x[2]) for x in e]), lambda: (g, e))


def h_rows(env, output, n_src, names, free, order, interval, cols, q, size, legend):
    """the free rows belong to any source, as actuals or forecast"""
    rows = []
    for s in range(n_src):
        rows.append((names[s], s, True))
        rows.append((names[s], 5 + s, False))
    for i in range(free):
        rows.append((names[env.choice('s%d' % i, range(n_src))] if n_src > 1 else names[0], 10 + i, env.bool('a%d' % i)))
    df, data = make(env, rows, cols, q, order)
    kw = dict(path='somewhere/plot', include_interval=interval, show_legend=legend)
    if q != (5, 20):
        kw.update(pi_q1=q[0], pi_q2=q[1])
    if size:
        kw.update(width=size[0], height=size[1])
    st, v, saved, figs, axes = draw(env, df, output, **kw)
    env.check('drawn', st == 'ok' and v == 0, lambda: v)
    env.check('written once', len(saved) == 1 and saved[0][0] == output and (output == 'jupyter' or saved[0][1] == ('not/there/plot.png' if output == 'png' else 'plot.html')), lambda: saved)
    panels = png_panels(axes) if output == 'png' else html_panels(figs[0])
    judge(env, panels, data, names[:n_src], output, interval, cols, q)


def h_grid(env, output, lo, hi, size, order):
    """any number of sources"""
    n = env.cint('n', lo, hi)
    names = ['s%d' % i for i in range(n)]
    rows = [(s, 0, True) for s in names] + [(s, k, False) for s in names for k in (1, 2)]
    df, data = make(env, rows, (5, 95), (5, 20), order)
    kw = dict(width=size[0], height=size[1]) if size else {}
    st, v, saved, figs, axes = draw(env, df, output, path='plot', include_interval=True, **kw)
    env.check('drawn', st == 'ok' and v == 0, lambda: v)
    panels = png_panels(axes) if output == 'png' else html_panels(figs[0])
    judge(env, panels, data, names, output, True, (5, 95), (5, 20))
    if output == 'png':
        vis = [a for a in axes[-1].ravel() if a.visible]
        env.check('spare panels hidden', len(vis) == n and axes[-1].size >= n)


def h_refuse(env, output, path, sources):
    df, data = make(env, [(s, d, d < 1) for s in sources for d in (0, 1)], (), (5, 20), 'sorted')
    st, v, saved, figs, axes = draw(env, df, output, path=path)
    env.check('refused', st == 'ok' and v == 1, lambda: v)
    env.check('nothing drawn', not saved and not figs and not axes)


def cases_rows(tier):
    qk = tier == 'quick'
    out = []
    k = 0
    for output in ('html', 'png', 'jupyter'):
        for n_src, names in ((1, ('only',)), (2, ('a', 'b')), (2, ('b', 'a b')), (3, ('x', 'a', 'z')), (2, (7, 3))):
            for order in ('sorted', 'mixed', 'reversed'):
                k += 1
                if qk and output == 'jupyter' and k % 3:
                    continue
                cols, q = [((5, 95, 20, 80), (5, 20)), ((), (5, 20)), ((10, 90, 25, 75), (10, 25)), ((5, 95), (5, 20)), ((5, 95, 20, 80), (20, 5))][k % 5]
                out.append(dict(output=output, n_src=n_src, names=names, free=(2 if n_src > 1 else 3) if qk else (3 if n_src > 1 else 5), order=order, interval=bool(k % 4), cols=cols, q=q,
                                size=None if k % 3 == 0 else (900, 600), legend=bool(k % 2)))
    return out


def cases_grid(tier):
    out = []
    for a, b in ((2, 5), (6, 9), (10, 13)) if tier == 'quick' else [(i, i + 2) for i in range(2, 50, 3)]:
        for output, size in (('html', None), ('html', (200, 150)), ('png', (900, 600)), ('png', None)):
            out.append(dict(output=output, lo=a, hi=b, size=size, order='mixed' if a % 2 else 'sorted'))
    return out


HARNESSES = [
    Harness('rows', h_rows, cases_rows, reach=('actuals of the source', 'forecast of the source', 'interval of the source', 'panels named after their sources'), validate=1,
            bounds='1-3 sources, 5-8 rows with any values and percentiles, two to five rows of any source and kind, three row orders, html, png and jupyter'),
    Harness('grid', h_grid, cases_grid, reach=('one panel per source', 'drawn', 'spare panels hidden'), validate=1, bounds='2-13 (thorough 49) sources, any values, several sizes'),
    Harness('refuse', h_refuse, lambda t: [dict(output=o, path=p, sources=s) for o, p in (('html', None), ('png', ''), ('png', None), ('html', ''), ('pdf', 'x'), ('HTML', 'x'), ('', 'x'),
                                                                                        ('jpg', None)) for s in (('a',), ('a', 'b'))], reach=('refused', 'nothing drawn'), validate=1,
            bounds='missing paths and unknown formats'),
]
ASSUMPTIONS = ['the figure is read as handed to plotly (offline.plot / iplot); matplotlib axes and savefig are replaced by recorders, an area is drawn for runs of two or more rows']
