"""Search for a concrete failing tape on the native harness (used only after an
obligation was lost, to turn 'proof lost' into a replayed counterexample).
Deterministic from VERIF_SEED."""
import os
import random
import time
import concurrent.futures as cf

from . import engine

INTERESTING = [0, 0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 19, 20, 21, 31, 32, 33, 63, 64, 100,
               127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 0x7fff, 0xffff, 0x10000,
               0x1ffff, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63,
               (1 << 64) - 1]


def tape(rng):
    mode = rng.random()
    out = []
    last = 0
    for _ in range(600):
        x = rng.random()
        if mode < 0.3:
            v = rng.choice(INTERESTING)
        elif mode < 0.5:
            v = rng.randrange(0, 4)
        elif mode < 0.6:
            v = 0
        elif x < 0.5:
            v = rng.choice(INTERESTING)
        elif x < 0.6:
            v = last
        elif x < 0.8:
            v = rng.randrange(0, 1 << rng.choice([2, 4, 8, 16, 32]))
        else:
            v = rng.getrandbits(64)
        last = v
        out.append(v)
    return out


def mutate(rng, seed):
    t = list(seed)
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        if not t:
            break
        i = rng.randrange(len(t))
        t[i] = rng.choice([0, rng.choice(INTERESTING), t[i] ^ (1 << rng.randrange(64)), t[i] + 1, t[i] - 1,
                           t[i] & 0xffff, rng.getrandbits(8)]) & ((1 << 64) - 1)
    if rng.random() < 0.5:
        t = t[:rng.randrange(len(t) // 2, len(t) + 1)]
    return t


def search(h, work, seed, budget, seeds=()):
    r = engine.Result(h)
    try:
        tup = engine.tu_path(h, work, r, suffix='.fz')
    except Exception:
        return None
    exe, cmd, log = engine.native_build(h, tup, work, '.fz')
    if not exe:
        return None
    rng = random.Random(seed)
    end = time.time() + budget
    n = 0

    def one(i_t):
        i, t = i_t
        tf = '%s.%d.tape' % (exe, i)
        with open(tf, 'w') as f:
            f.write('\n'.join('%x' % v for v in t) + '\n')
        env = dict(os.environ, JV_TAPE=tf, ASAN_OPTIONS='detect_leaks=0')
        rc, o, e, _ = engine.run([exe], 10, env=env, cwd=work)
        os.unlink(tf)
        return rc, (o + e)[-3000:]

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        while time.time() < end:
            ts = [mutate(rng, rng.choice(seeds)) if seeds and rng.random() < 0.6 else tape(rng)
                  for _ in range(64)]
            for t, (rc, txt) in zip(ts, ex.map(one, enumerate(ts))):
                n += 1
                if engine.is_failure(rc, txt):
                    return {'reproduced': True, 'fuzz': True, 'tries': n, 'output': txt, 'build': cmd,
                            'how': 'concrete input found by searching the native harness',
                            'tape': ['%x' % v for v in t]}
    return None
