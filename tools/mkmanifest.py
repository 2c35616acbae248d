#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the registry"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from jv import registry
NA = {
 'C35': 'thread schedules: the deductive back end available here (CBMC function contracts) verifies sequential '
        'functions; no concurrent separation logic verifier for C is installed. The sequential half (every shared '
        'setting is only reached through the atomic helpers and latches) is part of C21, C22 and C23.',
 'C36': 'a statement about a physical noise source (min-entropy of CPU timing); no contract over the code can express it. '
        'The code-level preconditions it rests on are C04, C05-C10, C12, C13 and C24.',
 'C37': 'total correctness needs a fairness assumption on the timer and the clock thread and ranking arguments over them; '
        'CBMC loop contracts as used here establish partial correctness only. The bound on the recovery ladder is part of C18.',
}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i not in registry.PROPS:
        na.append({'property': i, 'reason': NA.get(i, 'no contract harness has been completed for it')})
        continue
    pr = registry.PROPS[i]
    bd = [h.bounded for h in pr['harnesses'] if h.bounded]
    fn = sorted({f for h in pr['harnesses'] for f in ([h.enforce] if isinstance(h.enforce, str) else h.enforce) if f} |
                {f for h in pr['harnesses'] for f in h.functions})
    note = 'Contracts on %s, every obligation discharged for all inputs (loops by invariant or complete unwinding). ' % ', '.join(fn)
    if bd:
        note += 'Bounded stand-ins, not counted as proved: ' + '; '.join(sorted(set(bd))) + '. '
    note += 'Trusted: CBMC 6.11 and its solvers, clang for locating edits, the contract stubs of callees outside the unit.'
    if pr.get('note'):
        note += ' ' + pr['note']
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification of the real code (CBMC/DFCC function contracts, loop invariants)',
                   'level': 'proof', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 -c "import jv.registry"', 'checks': checks, 'not_applicable': na}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', [x['property'] for x in na])
