#!/opt/venv/bin/python
"""check.py C07 [--tier quick|thorough] [--only harness] [-v]      run a check
   check.py --replay FILE                                          re-run a recorded counterexample on the real code
   check.py --server                                               (internal) replay process"""
import os
import sys

BASE_ENV = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1',
                OMP_NUM_THREADS='1', TZ='UTC', SYMX_ENV='1')
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('SYMX_ENV') != '1' or not sys.executable.startswith('/opt/venv'):
    os.environ.update(BASE_ENV)
    import tempfile
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)


def main():
    import argparse
    import json
    import shutil
    import tempfile
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--server', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--workers', type=int)
    ap.add_argument('--deadline', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    mpl = None
    if 'MPLCONFIGDIR' not in os.environ:
        mpl = tempfile.mkdtemp(prefix='symx_mpl_')
        os.environ['MPLCONFIGDIR'] = mpl
    try:
        if a.server:
            from symx.explore import server_main
            return server_main()
        if a.replay:
            from symx.report import replay_file
            return replay_file(a.replay)
        from symx.report import run_check
        return run_check(a)
    finally:
        if mpl:
            shutil.rmtree(mpl, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
