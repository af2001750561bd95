"""Path exploration over worker processes, counterexample replay in clean processes, evidence."""
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class Harness:
    def __init__(self, name, f, cases, reach=(), bounds='', validate=6, exc_ok=False):
        self.name = name
        self.f = f
        self._cases = cases
        self.reach = reach
        self.bounds = bounds
        self.validate = validate

    def cases(self, tier):
        return self._cases(tier) if callable(self._cases) else list(self._cases)


def get_module(prop):
    return importlib.import_module('props.' + prop.lower())


# ---------------------------------------------------------------------------- replay (clean process)
def run_concrete(mod, hname, params, values, structs):
    from .env import ConcEnv, Stop
    h = [x for x in mod.HARNESSES if x.name == hname][0]
    env = ConcEnv(params, values, structs)
    exc = None
    done = False
    import numpy as np
    np.random.seed(0)
    try:
        h.f(env, **params)
        done = True
    except Stop:
        pass
    except Exception as e:
        exc = '%s: %s' % (type(e).__name__, e)
        env.tb = traceback.format_exc()
        env.failed.append(('exception', 0, exc + '\n' + env.tb[-1800:]))
    finally:
        env.unpatch()
    return dict(failed=env.failed, exc=exc, obs=env.obs, done=done, diverged=env.diverged, missing=env.missing[:20],
                reached=env.reached, skipped=env.skipped)


def server_main():
    """JSON lines on stdin/stdout; runs harnesses on concrete values against the unmodified package."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.path.insert(0, HERE)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    from . import loader
    loader.load_plain()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            mod = get_module(req['prop'])
            res = run_concrete(mod, req['harness'], req['params'], req['values'], req['structs'])
        except BaseException as e:
            res = dict(failed=[], exc='replay error: %r' % e, obs={}, done=False, diverged=['error'], missing=[],
                       reached={}, server_error=traceback.format_exc()[-3000:])
        out.write(json.dumps(res) + '\n')
        out.flush()


class Server:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'check.py'), '--server'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, cwd=HERE)

    def ask(self, req):
        import select
        for _ in range(2):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps(req) + '\n')
                self.p.stdin.flush()
                r, _, _ = select.select([self.p.stdout], [], [], 120)
                if r:
                    line = self.p.stdout.readline()
                    if line:
                        return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            try:
                self.p.kill()
            except Exception:
                pass
            self.p = None
        return dict(failed=[], exc='replay process died', obs={}, done=False, diverged=['died'], missing=[], reached={})

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


# ---------------------------------------------------------------------------- symbolic worker
class Violation(Exception):
    pass


class Worker:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = get_module(prop)
        self.srv = Server()
        self.hs = {h.name: h for h in self.mod.HARNESSES}
        self.rng = random.Random(seed)
        self.validated = collections.Counter()
        self.gap_budget = 300

    def req(self, hname, params, values, structs):
        from .env import frac_str
        vals = {}
        for k, v in values.items():
            vals[k] = v if isinstance(v, (bool, str)) else frac_str(v)
        return dict(prop=self.prop, harness=hname, params=params, values=vals, structs=structs)

    def run_path(self, hname, params, prefix, st):
        from . import core, patches
        from .env import SymEnv
        import z3
        h = self.hs[hname]
        c = core.Ctx(prefix)
        core.Ctx.cur = c
        found = []

        def report(env, label, ok, cond, margin, info):
            if ok is None:
                st['inconclusive'].append('%s: solver gave up on %s' % (hname, label))
                for m in c.diverse_models(self.rng, 3 if self.gap_budget > 0 else 0, 4.0):
                    self.gap_budget -= 1
                    try:
                        r = self.req(hname, params, c.values(m), dict(env.structs))
                    except Exception:
                        continue
                    res = self.srv.ask(r)
                    st['replays'] += 1
                    if res['failed']:
                        found.append(dict(req=r, res=res, label=label, info='found on a path the solver did not decide'))
                        c.abort('violation')
                return
            if margin is not None:
                # exact equality fails: does a clear difference exist for inputs of ordinary size?
                box = [z3.And(e <= 1000000, e >= -1000000) for k, (t, e) in c.inputs.items() if t == 'real']
                box += [z3.And(e <= 1000000, e >= -1000000) for e in _uf_terms([cond] + c.constraints)]
                r, _ = c._check(margin, *box)
                if r == z3.unsat:
                    env.discharged += 1
                    st['tolerance'] += 1
                    c.add_soft(cond)
                    return
            else:
                margin = z3.Not(cond)
            txt = ''
            confirmed = None
            cands = []
            import itertools
            n = 0
            last = None
            for m in itertools.chain(c.nice_models(margin), c.nice_models(z3.Not(cond))):
                n += 1
                try:
                    vals = c.values(m)
                except Exception as e:
                    last = dict(error=repr(e))
                    continue
                uf = c.uf_values(m)
                for tab in ([uf, None] if uf else [None]):
                    r = self.req(hname, params, vals, dict(env.structs, **({'__uf__': tab} if tab else {})))
                    res = self.srv.ask(r)
                    st['replays'] += 1
                    last = dict(req=r, res=res)
                    if res['failed']:
                        break
                if res['failed']:
                    confirmed = dict(req=r, res=res, label=label)
                    break
                if n >= 6:
                    break
            try:
                txt = str(info() if callable(info) else info) if info is not None else ''
            except BaseException:
                txt = ''
            if confirmed:
                confirmed['info'] = txt[:1500]
                found.append(confirmed)
                c.abort('violation')
            if any(_has_uf(x) for x in [cond] + c.constraints):
                st['inconclusive'].append('%s %s: %s: spurious counterexample through an uninterpreted function (%s)' % (
                    hname, json.dumps(params)[:150], label, txt[:200]))
            else:
                st['unreproduced'].append(dict(harness=hname, params=params, label=label, info=txt[:500], last=last))
            c.add_soft(cond)

        env = SymEnv(params, c, report)
        t0 = time.time()
        status = 'done'
        try:
            h.f(env, **params)
            if c.aborted:
                status = c.aborted
        except core.PathAbort as e:
            status = e.why
        except Exception as e:
            status = 'exception'
            c.aborted = None
            tb = traceback.format_exc()
            if os.environ.get('SYMX_DEBUG'):
                sys.stderr.write(tb)
            try:
                import itertools
                tried = 0
                for m in itertools.chain(c.nice_models(z3.BoolVal(True), limit=1),
                                         c.diverse_models(self.rng, 10 if self.gap_budget > 0 else 0)):
                    tried += 1
                    self.gap_budget -= 1
                    r = self.req(hname, params, c.values(m), dict(env.structs))
                    res = self.srv.ask(r)
                    st['replays'] += 1
                    if res['failed']:
                        found.append(dict(req=r, res=res, label='exception', info=repr(e)))
                        break
                if tried and not found:
                    st['gaps'].append('%s %s: %s' % (hname, json.dumps(params)[:200], tb[-1500:]))
            except Exception as e2:
                st['gaps'].append('%s: %r / %r' % (hname, e, e2))
        finally:
            env.unpatch()
            core.Ctx.cur = None
        if status not in ('done', 'exception', 'violation', 'assumption', 'stop'):
            st['outside'][status] = st['outside'].get(status, 0) + 1
        st['paths'] += 1
        if status == 'done':
            st['done'] += 1
        st['decisions'] += len(c.decisions) - len(prefix)
        st['discharged'] += env.discharged
        st['queries'] += c.queries
        st['solver_s'] += c.solver_s
        st['unknown'] += c.unknown
        for g in c.gaps:
            st['gaps'].append(g)
        if status in ('done',):
            for k, v in env.reached.items():
                key = hname + ':' + k
                st['reached'][key] = st['reached'].get(key, 0) + v
        st['violations'] += found
        # validation of the symbolic layer against the real code
        vk = (hname, json.dumps(params, sort_keys=True))
        if status == 'done' and not found and (self.validated[vk] < h.validate or self.rng.random() < 0.02) \
                and self.validated[vk] < 4 * h.validate:
            self.validated[vk] += 1
            self.validate(c, env, hname, params, st)
        return c.alts

    def validate(self, c, env, hname, params, st):
        import z3
        c.aborted = None
        m = None
        for m in c.nice_models(z3.BoolVal(True), limit=1):
            break
        if m is None:
            return
        try:
            vals = c.values(m)
        except Exception:
            return
        r = self.req(hname, params, vals, dict(env.structs))
        res = self.srv.ask(r)
        st['validated'] += 1
        if res['failed']:
            st['violations'].append(dict(req=r, res=res, label='validation', info='found while validating a path'))
            return
        bad = None
        if res.get('skipped'):
            return
        if not res['done']:
            bad = 'replay did not finish: %s %s' % (res['exc'], res['diverged'])
        elif res['missing']:
            bad = 'replay asked for unknown inputs %s' % res['missing'][:3]
        else:
            for k, v in env.obs.items():
                try:
                    ev = eval_obs(m, v)
                except Exception as e:
                    bad = 'cannot evaluate %s: %r' % (k, e)
                    break
                d = diff_obs(ev, res['obs'].get(k), k)
                if d:
                    bad = d
                    break
        if bad:
            st['mismatches'].append(dict(harness=hname, params=params, what=bad, req=r))
        elif len(st['samples']) < 2:
            st['samples'].append(dict(harness=hname, params=params, inputs={k: str(v) for k, v in list(r['values'].items())[:16]},
                                      structs=r['structs'], checks=list(env.reached)[:12]))

    def run_slice(self, tasks, seconds):
        """depth-first from the given tasks for a while; returns (stats, leftover)"""
        st = dict(paths=0, done=0, decisions=0, discharged=0, queries=0, solver_s=0.0, unknown=0, replays=0,
                  validated=0, gaps=[], unreproduced=[], inconclusive=[], violations=[], reached={}, mismatches=[],
                  samples=[], outside={}, tolerance=0)
        from . import loader
        loader.ENTERED.clear()
        stack = list(tasks)
        t0 = time.time()
        while stack:
            hname, params, prefix = stack.pop()
            alts = self.run_path(hname, params, prefix, st)
            for a in alts:
                stack.append((hname, params, a))
            if st['violations'] or time.time() - t0 > seconds:
                break
        st['entered'] = dict(loader.ENTERED)
        return st, stack


def worker_main(conn, prop, tier, seed):
    try:
        w = Worker(prop, tier, seed)
        while True:
            msg = conn.recv()
            if msg is None:
                break
            tasks, seconds = msg
            st, left = w.run_slice(tasks, seconds)
            conn.send((st, left))
        w.srv.close()
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException:
        try:
            conn.send(('crash', traceback.format_exc()))
        except Exception:
            pass


def eval_obs(m, v):
    import z3
    import numpy as np
    import pandas as pd
    from . import core
    from .env import _plain
    if core.is_sym(v):
        if type(v) in (core.SReal, core.SInt):
            e = m.eval(v.e, model_completion=True)
            if _has_uf(v.e):
                return None
            return float(core.zval(e))
        if type(v) is core.SBool:
            return bool(core.zval(m.eval(v.e, model_completion=True)))
        if type(v) is core.STime:
            return 'T%.6f' % float(core.zval(m.eval(v.t, model_completion=True)))
        return None
    if isinstance(v, (pd.Series, pd.Index)):
        v = list(v)
    if isinstance(v, np.ndarray):
        v = v.item() if v.ndim == 0 else list(v) if v.ndim == 1 else [list(x) for x in v]
        if not isinstance(v, list):
            return eval_obs(m, v)
    if isinstance(v, (list, tuple)):
        return [eval_obs(m, x) for x in v]
    if isinstance(v, dict):
        return {str(k): eval_obs(m, x) for k, x in v.items()}
    return _plain(v)


def _uf_terms(es):
    """real-valued applications of uninterpreted functions"""
    import z3
    seen, stack, out = set(), list(es), []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and z3.is_real(x):
            out.append(x)
        stack.extend(x.children())
    return out


def _has_uf(e):
    import z3
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            return True
        stack.extend(x.children())
    return False


def diff_obs(a, b, path):
    if a is None:
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return '%s: %r vs %r' % (path, sorted(a), b)
        for k in a:
            d = diff_obs(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return '%s: lengths %r vs %r' % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_obs(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, bool) or isinstance(b, bool):
        fa = float(a) if isinstance(a, (bool, float)) else a
        fb = float(b) if isinstance(b, (bool, float)) else b
        return None if fa == fb else '%s: %r vs %r' % (path, a, b)
    if isinstance(a, float) and isinstance(b, float):
        return None if abs(a - b) <= 1e-6 * max(1, abs(a), abs(b)) else '%s: %r vs %r' % (path, a, b)
    if isinstance(a, str) and ('<v' in a):
        return None
    return None if a == b else '%s: %r vs %r' % (path, a, b)


# ---------------------------------------------------------------------------- driver
def explore(prop, tier, seed, workers=None, deadline=None, only=None, verbose=False):
    t0 = time.time()
    mod = get_module(prop)
    workers = workers or int(os.environ.get('SYMX_WORKERS', '8'))
    deadline = deadline or (780 if tier == 'quick' else float(os.environ.get('SYMX_THOROUGH_S', '6000')))
    tasks = collections.deque()
    per = {}
    for h in mod.HARNESSES:
        if only and h.name not in only:
            continue
        for p in h.cases(tier):
            tasks.append((h.name, p, []))
    n_cases = len(tasks)
    total = dict(paths=0, done=0, decisions=0, discharged=0, queries=0, solver_s=0.0, unknown=0, replays=0,
                 validated=0, gaps=[], unreproduced=[], inconclusive=[], violations=[], reached={}, mismatches=[],
                 samples=[], outside={}, entered={}, tolerance=0)
    workers = max(1, min(workers, mp.cpu_count()))
    procs = []
    mpc = mp.get_context('fork')
    for i in range(workers):
        a, b = mpc.Pipe()
        p = mpc.Process(target=worker_main, args=(b, prop, tier, seed + i), daemon=True)
        p.start()
        b.close()
        procs.append([p, a, None])
    from multiprocessing.connection import wait
    stop = False
    crashed = []
    try:
        while True:
            for w in procs:
                if w[2] is None and tasks and not stop and w[0].is_alive():
                    idle = sum(1 for x in procs if x[2] is None)
                    k = max(1, min(40, len(tasks) // (len(procs) * 2)))
                    batch = [tasks.popleft() for _ in range(min(k, len(tasks)))]
                    sec = 0.4 if len(tasks) < 2 * len(procs) else 2.0
                    w[1].send((batch, sec))
                    w[2] = batch
            busy = [w for w in procs if w[2] is not None]
            if not busy:
                break
            for conn in wait([w[1] for w in busy], timeout=1.0):
                w = [x for x in procs if x[1] is conn][0]
                try:
                    msg = conn.recv()
                except EOFError:
                    msg = ('crash', 'worker died')
                if msg[0] == 'crash':
                    crashed.append(msg[1])
                    total['gaps'].append('worker crash: ' + msg[1][-1500:])
                    w[2] = None
                    continue
                st, left = msg
                w[2] = None
                for k in ('paths', 'done', 'decisions', 'discharged', 'queries', 'solver_s', 'unknown', 'replays', 'validated', 'tolerance'):
                    total[k] += st[k]
                for k in ('gaps', 'unreproduced', 'inconclusive', 'violations', 'mismatches'):
                    if len(total[k]) < 200:
                        total[k] += st[k]
                total['samples'] += st['samples'][:1] if len(total['samples']) < 8 else []
                for k in ('reached', 'outside', 'entered'):
                    for a, b in st[k].items():
                        total[k][a] = total[k].get(a, 0) + b
                if st['violations'] and not getattr(mod, 'COLLECT_ALL', False):
                    stop = True
                tasks.extendleft(left)
                if verbose and st['paths']:
                    print('%.0fs paths=%d pending=%d queries=%d gaps=%d unrep=%d viol=%d' % (
                        time.time() - t0, total['paths'], len(tasks), total['queries'], len(total['gaps']),
                        len(total['unreproduced']), len(total['violations'])), file=sys.stderr)
            if time.time() - t0 > deadline:
                stop = True
            if stop and not any(w[2] is not None for w in procs):
                break
            if stop and time.time() - t0 > deadline + 40:
                break
    finally:
        for w in procs:
            try:
                if w[2] is None:
                    w[1].send(None)
                else:
                    w[0].terminate()
            except Exception:
                pass
        for w in procs:
            w[0].join(3)
            if w[0].is_alive():
                w[0].kill()
    total['pending'] = len(tasks) + sum(1 for w in procs if w[2] is not None)
    total['complete'] = total['pending'] == 0 and not stop
    total['wall'] = time.time() - t0
    total['cases'] = n_cases
    return mod, total
