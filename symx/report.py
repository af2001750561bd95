import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


def known_findings(prop):
    """entries 'known: property=<id> match=<substring> :: description'"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    return out


def run_check(a):
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    from . import loader
    t0 = time.time()
    loader.load()
    from .explore import explore, Server
    prop = a.prop.upper()
    mod, tot = explore(prop, a.tier, a.seed, workers=a.workers, deadline=a.deadline, only=a.only, verbose=a.v)
    wall = time.time() - t0
    # known findings: each is a recorded concrete input, replayed on the real code
    kf_lines = []
    for kf in getattr(mod, 'KNOWN_FINDINGS', []):
        srv = Server()
        res = srv.ask(dict(prop=prop, harness=kf['harness'], params=kf['params'], values=kf['values'], structs=kf['structs']))
        srv.close()
        if res['failed']:
            kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    missing = []
    for h in mod.HARNESSES:
        if a.only and h.name not in a.only:
            continue
        for r in h.reach:
            if not tot['reached'].get(h.name + ':' + r):
                missing.append(h.name + ':' + r)
    repo_fns = sorted(k for k in tot['entered'])
    cov = dict(
        states=tot['done'], transitions=tot['decisions'], traces_validated_against_impl=tot['validated'],
        samples=tot['samples'][:8] or [dict(note='no validated path in this run')],
        explanation='Bounded symbolic execution of the current source: states = completed symbolic paths, transitions = '
                    'fork decisions taken; every obligation on every path is decided by z3 for all values of the symbolic '
                    'inputs that follow this path.',
        exhaustive=bool(tot['complete']),
        paths_started=tot['paths'], cases=tot['cases'], obligations=tot['discharged'] + len(tot['violations']) + len(tot['unreproduced']) + len(tot['inconclusive']),
        discharged=tot['discharged'], discharged_within_tolerance_only=tot['tolerance'], solver_queries=tot['queries'], solver_seconds=round(tot['solver_s'], 2),
        solver_unknown=tot['unknown'], replays=tot['replays'], pending_paths=tot['pending'],
        paths_outside_bounds=tot['outside'], checks_reached=tot['reached'], checks_not_reached=missing,
        functions_encoded=repo_fns, model_mismatches=tot['mismatches'][:5], model_mismatch_count=len(tot['mismatches']),
        engine_gaps=tot['gaps'][:5], engine_gap_count=len(tot['gaps']), unreproduced=tot['unreproduced'][:5],
        inconclusive=tot['inconclusive'][:10],
        bounds={h.name: h.bounds for h in mod.HARNESSES}, known_findings=kf_lines,
    )
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON, wall_s=round(wall, 2),
              violations=len(tot['violations']))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d paths (%d completed), %d obligations discharged, %d queries, %.1fs solver, %.1fs wall, validated %d, '
          'mismatches %d, gaps %d, complete=%s%s' % (prop, a.tier, tot['paths'], tot['done'], tot['discharged'], tot['queries'],
          tot['solver_s'], wall, tot['validated'], len(tot['mismatches']), len(tot['gaps']), tot['complete'],
          ', outside %s' % tot['outside'] if tot['outside'] else ''))
    for l in kf_lines:
        print(l)
    if tot['violations']:
        v = tot['violations'][0]
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        blob = json.dumps(v, indent=1, default=str)
        path = os.path.join(d, '%s_%s.json' % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(blob)
        print('counterexample (%s): harness %s params %s' % (v['label'], v['req']['harness'], v['req']['params']))
        print('  inputs: %s %s' % ({k: x for k, x in v['req']['values'].items()}, v['req']['structs']))
        for fl in v['res']['failed'][:3]:
            print('  failed on the real code: %s %s' % (fl[0], fl[2]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for g in tot['gaps'][:3]:
        print('ENGINE-GAP', g)
    for g in tot['mismatches'][:3]:
        print('MODEL-MISMATCH', json.dumps(g, default=str)[:1500])
    for g in tot['inconclusive'][:3]:
        print('INCONCLUSIVE', g)
    if missing:
        print('NOT-REACHED', missing)
    if tot['unreproduced']:
        for u in tot['unreproduced'][:3]:
            print('UNREPRODUCED', json.dumps(u, default=str)[:3000])
    if len(tot['unreproduced']) + len(tot['gaps']) > tot['discharged']:
        print('mostly undecided')
        return 2
    if tot['discharged'] == 0:
        print('nothing was checked')
        return 2
    return 0


COMMON = [
    'Real arithmetic stands for floating point unless a harness says otherwise; counterexamples are confirmed in floats.',
    'The installed pandas/numpy/scipy and the patches of symx/patches.py are trusted; sampled paths are re-run on the unmodified stack.',
]


def replay_file(path):
    v = json.load(open(path))
    from . import loader
    loader.load_plain()
    from .explore import run_concrete, get_module
    r = v['req']
    res = run_concrete(get_module(r['prop']), r['harness'], r['params'], r['values'], r['structs'])
    print(json.dumps(res, indent=1, default=str)[:6000])
    return 1 if res['failed'] else 0
