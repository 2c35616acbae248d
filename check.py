#!/usr/bin/env python3
"""check.py <property id> : verify the contracts that decide one property of /repo.

exit 0  every obligation discharged (KNOWN-FINDING lines for listed findings)
exit 1  VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2  the check itself could not run (tool missing, internal error)
"""
import concurrent.futures as cf
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from jv import engine, registry, fuzz          # noqa: E402

TRUSTED = [
    'cbmc 6.11.0: C front end (goto-cc), DFCC contract instrumentation, symbolic execution, bit-vector/array encoding',
    'SAT/SMT back end named in checker_cmd (MiniSat unless stated otherwise)',
    'clang 18 AST (only to locate edits of the scratch copy, see jv/prep.py)',
    'the contract stubs in /verif/contracts for functions outside the unit under contract',
    'LP64 little-endian x86-64 data model; machine arithmetic is modelled bit-precisely',
]


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    for tool in ('goto-cc', 'goto-instrument', 'cbmc', 'clang', 'gcc'):
        if not shutil.which(tool):
            print('missing tool', tool)
            return 2
    prop = registry.PROPS[pid]
    hs = [h for h in prop['harnesses'] if tier == 'thorough' or not h.thorough]
    only = os.environ.get('JV_ONLY')
    if only:
        hs = [h for h in hs if h.name in only.split(',')]
    evdir = os.path.join(VERIF, 'evidence')
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='jv-%s-' % pid)
    budget = 800 if tier == 'quick' else 7200
    deadline = t0 + budget
    results = []
    try:
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('JV_JOBS', '8'))) as ex:
            futs = [ex.submit(engine.verify, h, work, deadline) for h in
                    sorted(hs, key=lambda x: -x.weight)]
            for f in futs:
                results.append(f.result())
        bad = [r for r in results if not r.ok and r.status != 'skipped']
        engine.STOP['on'] = False
        # no counterexample replayed: look for a concrete failing input on the native harness
        if bad and not any(r.replay and r.replay.get('reproduced') for r in bad):
            for r in bad:
                if r.h.native and time.time() < deadline:
                    rp = fuzz.search(r.h, work, seed, min(30, deadline - time.time()), seeds=r.tapes)
                    if rp:
                        r.replay = rp
                        break
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'known']
    viol, kf = [], []
    for r in bad:
        if r.status == 'failed' and r.failed:
            left = []
            for ent in r.failed:
                m = [k for k in known if k['harness'] == r.h.name and k['obligation'] == ent[1]]
                if m:
                    kf.append(m[0])
                else:
                    left.append(ent)
            if not left and not (r.replay and r.replay.get('fuzz')):
                continue
        viol.append(r)

    proved = [r for r in results if r.status == 'proved']
    bnd = [r for r in results if r.status == 'bounded']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': prop.get('level', 'proof'),
        'coverage': {
            'obligations': sum(r.obligations for r in results),
            'discharged': sum(r.discharged for r in results),
            'checker_cmd': '; '.join(sorted({r.cmd for r in results if r.cmd})),
            'trusted_base': TRUSTED + prop.get('trusted', []),
            'functions_under_contract': sorted({f for r in results for f in r.contract_functions()}),
            'loops_with_invariants': sorted({l for r in results for l in r.loops}),
            'harnesses': [r.summary() for r in results],
            'proved_harnesses': len(proved), 'bounded_harnesses': len(bnd),
            'solver_s': round(sum(r.solver_s for r in results), 2),
            'reachability_covers': sum(r.covers for r in results),
        },
        'assumptions': prop.get('assumptions', []) + sorted({a for r in results for a in r.h.assumes}),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if prop.get('level') == 'other':
        ev['coverage']['explanation'] = prop.get('explanation', '')
    if not only:
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    for r in results:
        print('%-28s %-8s %4d/%4d obligations, %d covers, %.1fs' %
              (r.h.name, r.status, r.discharged, r.obligations, r.covers, r.wall_s))
        if not r.ok and r.status != 'skipped':
            for e in r.failed[:6]:
                print('    FAILED %s: %s [%s]' % (e[0], e[1], e[3]))
            for c in r.covers_missing:
                print('    UNREACHABLE cover: %s' % c)
            if not r.failed:
                print('    ' + r.log[-1500:].replace('\n', '\n    '))
    for k in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if not viol:
        return 0
    rp = [r for r in viol if r.replay and r.replay.get('reproduced')]
    path = os.path.join(rdir, '%s.json' % pid)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'violations': [
            {'harness': r.h.name, 'source': r.h.src, 'unit': r.h.tu, 'function': r.h.enforce,
             'status': r.status, 'failed_obligations': [
                 {'name': e[0], 'description': e[1], 'location': e[3]} for e in r.failed],
             'unreachable_covers': r.covers_missing, 'replay': r.replay,
             'verifier': r.cmd, 'verifier_output': r.log[-6000:]} for r in viol]}, f, indent=1)
    for r in rp[:1]:
        print('replayed on the real code: %s' % json.dumps(r.replay)[:1500])
    print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if rp else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
