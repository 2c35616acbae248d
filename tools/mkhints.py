#!/usr/bin/env python3
"""record the surviving loop invariants of loop harnesses as a starting point (speed only)"""
import json, os, sys, tempfile, shutil, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from jv import engine, registry
hp = os.path.join(engine.VERIF, 'jv', 'hints.json')
names = sys.argv[1:]
done = set()
for pid, p in registry.PROPS.items():
    for h in p['harnesses']:
        if h.loops and (not names or h.name in names or h.hint in names) and (h.hint or h.name) not in done:
            done.add(h.hint or h.name)
            h.timeout = 3000
            w = tempfile.mkdtemp()
            real = engine.load_hints
            engine.load_hints = lambda: {}
            r = engine.verify(h, w)
            engine.load_hints = real
            shutil.rmtree(w)
            print(h.name, r.status, round(r.wall_s), r.failed[:5], r.covers_missing, r.log[-500:], flush=True)
            if r.ok:
                d = engine.load_hints()
                d[h.hint or h.name] = r.invariants
                json.dump(d, open(hp, 'w'), indent=1, sort_keys=True)
