"""C27: the command-line tool writes what run_forecast returns for the file, in the requested folder."""
import importlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np
import pandas as pd

from symx.explore import Harness
from .common import same_table
from .pipe import Series, stubs, NAN
from .c06 import META, same_list

NAMES = dict(y='val', weight='wt', x='pos', date='when', source='src')


def load_app(env):
    """app.py is run as a script from its own folder: its siblings are top-level modules"""
    for n, m in (('forecast', env.fc), ('forecast_plot', sys.modules['anticipy.forecast_plot'])):
        sys.modules.setdefault(n, m)
    return importlib.import_module('anticipy.app')


READ_CSV = pd.read_csv
PROBE = pd.DataFrame(dict(date=pd.to_datetime(['2020-02-29 13:05:07', '2020-03-01']), source=['a,b', 'c "d"'], is_actuals=[True, False], y=[1234567.890123, 1 / 3.], q5=[np.nan, 1e-12]))


def faithful(write, a, k):
    """the options of the call keep every number, date and text"""
    buf = io.StringIO()
    write(PROBE, buf, *a, **{n: v for n, v in k.items() if n not in ('mode', 'path_or_buf')})
    buf.seek(0)
    try:
        return bool(READ_CSV(buf, parse_dates=['date'], float_precision='round_trip').equals(PROBE))
    except Exception:
        return False


def h_app(env, shapes, names, where, fname, years, all_fits, fmt, plot, via, weighted, nosource, carrier, stale=False):
    app = load_app(env)
    nm = NAMES if names else dict(y='y', weight='weight', x='x', date='date', source='source')
    ss = [Series(env, tag='s%d' % k, weighted=weighted, **sh) for k, sh in enumerate(shapes)]
    table = pd.concat([s.frame(nm, source=None if nosource else 'src%d' % k) for k, s in enumerate(ss)], ignore_index=True)
    raw = table.copy(deep=True)
    if ss[0].freq != 'x' and carrier == 'text':
        raw[nm['date']] = [d.strftime('%Y-%m-%d') for d in raw[nm['date']]]
    sol = [env.real('p%d' % i, -50, 50) for i in range(2)]

    def decide(call):
        return dict(x=env.arr(sol), cost=2. + len(call['x0']), success=True)
    opt, rec = stubs(env, decide)
    written, drawn = [], []

    real_csv = pd.DataFrame.to_csv

    def to_csv(self, path_or_buf=None, *a, **k):
        # the file holds the number of the table instead of its text
        written.append((self.copy(deep=True), k.get('index', True), a, k))
        text = 'table %d\n' % (len(written) - 1)
        if path_or_buf is None:
            return text
        if hasattr(path_or_buf, 'write'):
            path_or_buf.write(text)
        else:
            with open(path_or_buf, k.get('mode', 'w')) as f:
                f.write(text)

    def draw(*a, **k):
        names = ['df_fcast', 'output', 'path']
        d = dict(zip(names, a))
        d.update(k)
        drawn.append(d)
        if plot == 'missing':
            raise AssertionError('no plotting library')
        return 0
    home = tempfile.mkdtemp(prefix='c27')
    try:
        src, dst = os.path.join(home, 'in'), os.path.join(home, 'out')
        os.mkdir(src)
        os.mkdir(dst)
        path_in = os.path.join(src, fname)
        with open(path_in, 'w') as f:
            f.write('the table\n')
        given, folder = None, src
        if where == 'folder':
            given, folder = dst, dst
        elif where == 'slash':
            given, folder = dst + os.sep, dst
        elif where == 'file':
            given, folder = os.path.join(dst, 'any.txt'), dst
            open(given, 'w').close()
        stem = os.path.join(folder, fname.split('.')[0])
        outs = [stem + '_fcast.csv', stem + '_metadata.csv']
        if stale:
            for p in outs:
                with open(p, 'w') as f:
                    f.write('an earlier forecast\n' * 9)
        asked = []
        env.patch(pd, 'read_csv', lambda p, *a, **k: (asked.append(p), raw.copy(deep=True))[1])
        env.patch(pd.DataFrame, 'to_csv', to_csv)
        env.patch(sys.modules['anticipy.forecast_plot'], 'plot_forecast', draw)
        cols = {'col_name_' + k: v for k, v in nm.items()}
        if via == 'main':
            argv = ['app.py', '--path_in', path_in, '--forecast_years', repr(years), '--output_format', fmt]
            if given:
                argv += ['--path_out', given]
            if names:
                for k, v in cols.items():
                    argv += ['--' + k, v]
            if all_fits:
                argv += ['--include_all_fits']
            env.patch(sys, 'argv', argv)
            st, r = env.call(app.main)
        else:
            st, r = env.call(app.run_forecast_app, path_in, given, forecast_years=years, include_all_fits=all_fits, output_format=fmt, **cols)
        env.check('completes', st == 'ok', lambda: repr(r))
        left = {}
        for d, _, fs in os.walk(home):
            for f in fs:
                with open(os.path.join(d, f)) as g:
                    left[os.path.join(d, f)] = g.read()
    finally:
        env.patch(pd.DataFrame, 'to_csv', real_csv)
        shutil.rmtree(home)
    if st != 'ok':
        return
    env.check('reads the given file', asked == [path_in])
    others = {k: v for k, v in left.items() if k not in outs}
    env.check('leaves other files alone', others == dict([(path_in, 'the table\n')] + ([(given, '')] if where == 'file' else [])), lambda: sorted(others))
    want = env.fc.run_forecast(table, extrapolate_years=years, simplify_output=False, include_all_fits=all_fits, **cols)
    env.check('in the requested folder', [p in left for p in outs], lambda: (sorted(left), outs))
    for p, key in zip(outs, ('data', 'metadata')):
        text = left.get(p, '')
        at = [i for i in range(len(written)) if text == 'table %d\n' % i]
        env.check('one table', len(at) == 1, lambda: (p, text))
        if len(at) != 1:
            continue
        got, index, a0, k0 = written[at[0]]
        env.check('without row numbers', index is False)
        env.check('every digit', faithful(real_csv, a0, k0), lambda: k0)
        a, b = got.reset_index(drop=True), want[key].reset_index(drop=True)
        if key == 'data':
            env.check('columns', list(a.columns) == list(b.columns))
            env.check('forecast table', same_table(env, a, b), lambda: (a, b))
        else:
            env.check('metadata table', same_table(env, a, b, META) + [same_list(env, list(a['params']), list(b['params']))] if len(a) == len(b) else False, lambda: (a, b))
    env.check('one plot', len(drawn) == 1)
    if len(drawn) == 1:
        d = drawn[0]
        env.check('plot of the forecast', [d.get('output') == fmt, os.path.normpath(str(d.get('path'))) == stem + '_fcast'] +
                  same_table(env, d['df_fcast'].reset_index(drop=True), want['data'].reset_index(drop=True)), lambda: (d.get('output'), d.get('path')))


def h_refuse(env, what):
    app = load_app(env)
    home = tempfile.mkdtemp(prefix='c27')
    try:
        env.patch(pd, 'read_csv', lambda p, *a, **k: env.check('nothing is read', False))
        p = {'nothing': None, 'missing': os.path.join(home, 'no.csv'), 'folder': home}[what]
        st, r = env.call(app.run_forecast_app, p)
        env.check('refused', st == 'err' and isinstance(r, (AssertionError, ValueError, OSError)), lambda: repr(r))
        env.check('nothing written', os.listdir(home) == [])
    finally:
        shutil.rmtree(home)


def cases(tier):
    D = lambda n, **k: dict(dict(n=n, freq='D', start='2020-02-27'), **k)
    W = lambda n, **k: dict(dict(n=n, freq='W', start='2020-01-06'), **k)
    X = lambda n, **k: dict(dict(n=n, freq='x', start=2), **k)
    out = []

    def add(shapes, **k):
        out.append(dict(dict(shapes=shapes, names=False, where=None, fname='series.csv', years=.05, all_fits=False, fmt='png', plot='ok', via='call', weighted=True, nosource=False,
                             carrier='text'), **k))
    add([D(5)])
    add([D(5, null=(1, 2))], via='main', all_fits=True)
    add([D(5), D(5, zero=(1,))], names=True, where='slash')
    add([W(5), D(5, null=(2,))], names=True, via='main', where='folder', fmt='html')
    add([X(5, null=(1,))], where='file', plot='missing', years=.03, all_fits=True)
    add([X(5)], via='main', where='slash', fmt='jupyter', years=.02, nosource=True, fname='sales.2020.csv')
    add([D(5, order='mixed')], where='folder', fname='a_b.csv', weighted=False, nosource=True)
    add([D(5, zero=(0, 4))], via='main', plot='missing', where='file', names=True, all_fits=True, nosource=True)
    add([D(5, x0=40.)], names=True, where='folder')
    add([D(5, x0=11.5, order='mixed')], names=True, via='main', nosource=True, weighted=False, all_fits=True)
    add([W(5, x0=3.), D(5, x0=7.)])
    add([D(5), D(5, null=(0,))], where='folder', stale=True, weighted=False)
    add([W(5)], via='main', stale=True)
    add([X(5), X(5, null=(1,))], names=True, via='main', where='file', years=.03)
    if tier != 'quick':
        k = 0
        for sh in ([D(6, null=(1, 3))], [W(5), D(5)], [X(6, zero=(2,)), X(5)], [D(5), W(5, null=(0,)), D(5)]):
            for where in (None, 'folder', 'slash', 'file'):
                k += 1
                add(sh, where=where, via=('call', 'main')[k % 2], names=bool(k % 3), all_fits=bool(k % 2), years=.01 * (1 + k % 4), plot=('ok', 'missing')[k % 2],
                    fname=('d.csv', 'e.f.csv', 'noext')[k % 3], weighted=bool(k % 4), stale=k % 5 == 0)
    return out


HARNESSES = [
    Harness('app', h_app, cases, reach=('forecast table', 'metadata table', 'in the requested folder', 'plot of the forecast', 'completes'), validate=1,
            bounds='files with 1-3 sources of 5-6 rows, every value, weight and null pattern, default and own column names, four kinds of output path, both entry points'),
    Harness('refuse', h_refuse, lambda t: [dict(what=w) for w in ('nothing', 'missing', 'folder')], reach=('refused', 'nothing written'), bounds='three unusable input paths'),
]
ASSUMPTIONS = ['pandas reads and writes csv text correctly: the table is handed over at read_csv and taken at to_csv; the plotting function is replaced by a recorder (C24 decides it)',
               'the optimizer result is the same arbitrary point for every model and source']
