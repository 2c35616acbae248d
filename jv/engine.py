"""Contract-verification engine: goto-cc -> goto-instrument --dfcc -> cbmc, with native replay."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import prep

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JV_REPO', '/repo')
CONTRACTS = os.path.join(VERIF, 'contracts')


class H:
    """One verification harness.

    src      harness file in contracts/
    tu       repo-relative translation unit included as JV_TU (None: harness includes nothing)
    enforce  function(s) whose contract is enforced with --dfcc ('' : plain assertions)
    replace  functions replaced by contract (--replace-call-with-contract)
    rename   same-TU functions whose calls are redirected to contract stubs
    loops    loop-contract generator (see loops.py) or None
    bounded  text of the bound if this harness is only a bounded stand-in
    """

    def __init__(self, name, src, tu=None, enforce='', defs=(), rename=(), replace=(),
                 unwind=None, unwindset=(), args=(), solver=None, timeout=600, loops=None,
                 bounded=None, fallback=None, covers=True, functions=(), roots=(), mem_gb=8,
                 checks=True, note='', inc=(), native_defs=(), nondet_static=(), stop=(),
                 native=True, fallback_of=None, tu_cflags=None, native_tu=(), thorough=False, weight=1,
                 assumes=(), fnret=None, hint=None):
        self.__dict__.update(locals())
        del self.__dict__['self']


def cflags(h):
    return ['-I' + REPO, '-I' + REPO + '/src', '-I' + REPO + '/arch', '-I' + CONTRACTS] + \
        ['-I' + i for i in h.inc]


BASE_DEFS = ['-DJENT_CONF_ENABLE_INTERNAL_TIMER']


def defs_of(h):
    d = list(h.defs)
    if not any(x.startswith('-U') or x == 'NO_TIMER' for x in d):
        d = BASE_DEFS + d
    return [x for x in d if x != 'NO_TIMER']


class Stopped(Exception):
    pass


STOP = {'on': False, 'procs': set()}


def stop_all():
    """a violation is already replayed: the other harnesses need not finish"""
    STOP['on'] = True
    for p in list(STOP['procs']):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def run(cmd, timeout, mem_gb=None, env=None, cwd=None):
    if STOP['on']:
        raise Stopped()
    t = time.time()
    pre = None
    if mem_gb:
        import resource

        def pre():
            lim = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            os.setsid()
    else:
        pre = os.setsid
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre, env=env, cwd=cwd)
    STOP['procs'].add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = -99
    STOP['procs'].discard(p)
    if STOP['on']:
        raise Stopped()
    return rc, o.decode(errors='replace'), e.decode(errors='replace'), time.time() - t


class Result:
    def __init__(self, h):
        self.h = h
        self.ok = False
        self.status = 'error'      # proved | bounded | failed | lost | error
        self.props = []            # (name, description, status, loc)
        self.failed = []
        self.covers_missing = []
        self.covers = 0
        self.obligations = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.log = ''
        self.cmd = ''
        self.trace = None
        self.replay = None         # dict describing native replay
        self.functions = []
        self.loops = []
        self.tapes = []            # counterexample tapes (seeds of the search for a failing input)

    def contract_functions(self):
        e = self.h.enforce
        e = [e] if isinstance(e, str) else list(e)
        return [x for x in e if x] + list(self.h.functions)

    def summary(self):
        return {'harness': self.h.name, 'unit': self.h.tu, 'status': self.status,
                'functions': self.contract_functions(), 'obligations': self.obligations,
                'discharged': self.discharged, 'covers': self.covers,
                'loops': self.loops, 'bounded': self.h.bounded, 'solver': self.h.solver or 'minisat',
                'solver_s': round(self.solver_s, 2), 'wall_s': round(self.wall_s, 2)}


def is_failure(rc, txt):
    if rc == 66:
        return True
    return rc not in (0, 77, -99) and ('AddressSanitizer' in txt or 'runtime error' in txt)


def solver_args(s):
    if not s:
        return []
    return {'cvc5': ['--cvc5'], 'z3': ['--z3'], 'cadical': ['--sat-solver', 'cadical'],
            'minisat': ['--sat-solver', 'minisat2']}[s]


def parse_cbmc_json(out):
    try:
        data = json.loads(out)
    except Exception:
        return None, None, ''
    res, status, msgs = None, None, []
    for item in data:
        if 'result' in item:
            res = item['result']
        if 'cProverStatus' in item:
            status = item['cProverStatus']
        if 'messageText' in item:
            msgs.append(item['messageText'])
    return res, status, '\n'.join(msgs)


def extract_tape(trace):
    tape = []
    for s in trace:
        if s.get('stepType') == 'assignment' and s.get('lhs') == 'jv_tape_v':
            v = s.get('value', {})
            b = v.get('binary')
            if b is not None:
                tape.append(int(b, 2))
            else:
                d = v.get('data', '0').rstrip('uUlL')
                tape.append(int(d, 0) & (2**64 - 1))
    return tape[1:] if tape and trace_has_static_init(trace) else tape


def trace_has_static_init(trace):
    """the first assignment to jv_tape_v is its zero initialisation"""
    for s in trace:
        if s.get('stepType') == 'assignment' and s.get('lhs') == 'jv_tape_v':
            fn = s.get('sourceLocation', {}).get('function', '')
            return fn != 'jv_u64'
    return False


def native_build(h, tupath, workdir, tag=''):
    exe = os.path.join(workdir, h.name + tag + '.native')
    cmd = ['gcc', '-O0', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
           '-fno-builtin', '-DJV_NATIVE', *defs_of(h), *h.native_defs, *cflags(h)]
    if tupath:
        cmd += ['-DJV_TU="%s"' % tupath]
    cmd += [os.path.join(CONTRACTS, h.src), *[os.path.join(REPO, x) for x in h.native_tu],
            '-Wl,--unresolved-symbols=ignore-all', '-o', exe, '-lpthread']
    rc, o, e, _ = run(cmd, 120)
    return (exe if rc == 0 else None), ' '.join(cmd), o + e


def native_run(exe, tape, workdir, timeout=60):
    tf = '%s.%x.tape' % (exe, abs(hash(tuple(tape))))
    with open(tf, 'w') as f:
        f.write('\n'.join('%x' % v for v in tape) + '\n')
    env = dict(os.environ, JV_TAPE=tf, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0',
               UBSAN_OPTIONS='print_stacktrace=1')
    rc, o, e, _ = run([exe], timeout, env=env, cwd=workdir)
    os.unlink(tf)
    return rc, (o + e)[-4000:]


def native_replay(h, tupath, workdir, tape, tag=''):
    """run the verifier's counterexample, and its prefixes (the rest of the inputs zero), on the real code"""
    exe, cmd, log = native_build(h, tupath, workdir, tag)
    if not exe:
        return {'reproduced': False, 'reason': 'native harness does not build', 'log': log[-3000:]}
    tape = list(tape)
    cuts = [len(tape)] + sorted({max(0, len(tape) - k) for k in range(1, 40)} |
                                {len(tape) * k // 16 for k in range(1, 16)}, reverse=True)
    first = None
    for n in cuts:
        rc, txt = native_run(exe, tape[:n], workdir, 20)
        how = None
        if rc == 66:
            how = 'postcondition/requirement false on the real code'
        elif rc == -99 and n == len(tape) and not h.loops:
            how = 'the real code did not terminate within 20 s on this input'
        elif is_failure(rc, txt):
            how = 'memory error / undefined behaviour on the real code'
        if how:
            return {'reproduced': True, 'how': how, 'output': txt, 'build': cmd, 'tape': ['%x' % v for v in tape[:n]]}
        if first is None:
            first = {'reproduced': False, 'reason': 'native run exit %d' % rc, 'output': txt, 'build': cmd}
    return first


def verify(h, workdir, deadline=None):
    r = Result(h)
    t0 = time.time()
    try:
        _verify(h, workdir, r, deadline)
    except Stopped:
        r.status = 'skipped'
        r.failed = []
    except prep.PrepError as e:
        r.status = 'lost'
        r.log += '\nPREP: %s' % e
    r.wall_s = time.time() - t0
    if r.replay and r.replay.get('reproduced') and not STOP['on']:
        stop_all()
    return r


def enf(h):
    e = [h.enforce] if isinstance(h.enforce, str) else list(h.enforce)
    return [x for x in e if x]


def load_hints():
    p = os.path.join(VERIF, 'jv', 'hints.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return json.load(f)


def tu_path(h, workdir, r, suffix=''):
    if not h.tu:
        return None
    src = os.path.join(REPO, h.tu)
    if not h.rename:
        return src
    out = os.path.join(workdir, h.name + suffix + '.' + os.path.basename(h.tu))
    prep.prepare(src, cflags(h) + defs_of(h), rename=h.rename, out=out)
    return out


def compile_gb(h, tup, workdir, r, suffix='', loops=False, extra=()):
    a = os.path.join(workdir, h.name + suffix + '.gb')
    b = os.path.join(workdir, h.name + suffix + '.i.gb')
    cmd = ['goto-cc', '-DJV_CBMC', '-w', *([] if h.covers else ['-DJV_NOCOVER']), *defs_of(h), *extra, *cflags(h)]
    if tup:
        cmd += ['-DJV_TU="%s"' % tup]
    cmd += ['--function', 'jv_harness', os.path.join(CONTRACTS, h.src), '-o', a]
    rc, o, e, _ = run(cmd, 120)
    r.log += e[-3000:] if rc else ''
    if rc:
        r.log += '\n[goto-cc failed] ' + ' '.join(cmd) + '\n' + o[-2000:]
        return None
    enf = [h.enforce] if isinstance(h.enforce, str) else list(h.enforce)
    enf = [x for x in enf if x]
    if enf or h.replace or loops:
        cmd2 = ['goto-instrument', '--dfcc', 'jv_harness']
        for x in enf:
            cmd2 += ['--enforce-contract', x]
        for x in h.replace:
            cmd2 += ['--replace-call-with-contract', x]
        if loops:
            cmd2 += ['--apply-loop-contracts']
        cmd2 += [a, b]
        rc, o, e, _ = run(cmd2, 300)
        if rc:
            r.log += '\n[goto-instrument failed] ' + ' '.join(cmd2) + '\n' + (o + e)[-4000:]
            return None
        r.cmd = ' '.join(cmd2[:-2])
        return b
    return a


def cbmc_cmd(h, gb, unwind=None):
    cmd = ['cbmc', gb, *solver_args(h.solver)]
    u = h.unwind if unwind is None else unwind
    if u is not None:
        cmd += ['--unwind', str(u)]
    if h.unwindset:
        cmd += ['--unwindset', ','.join(h.unwindset)]
    if not h.checks:
        cmd += ['--no-standard-checks']
    return cmd + list(h.args)


PROP = re.compile(r'^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')


def parse_cbmc_text(o):
    """the '** Results:' section of cbmc's plain output"""
    i = o.find('** Results:')
    if i < 0:
        return None
    res, f, fn = [], '', ''
    for l in o[i:].splitlines():
        m = PROP.match(l)
        if m:
            res.append({'property': m.group(1), 'description': m.group(3), 'status': m.group(4),
                        'sourceLocation': {'file': f, 'line': m.group(2) or '', 'function': fn}})
            continue
        m = re.match(r'^(\S+) function (\S+)$', l)
        if m:
            f, fn = m.groups()
    return res


def decide(h, gb, r, cmd, timeout):
    rc, o, e, dt = run(cmd + ['--verbosity', '6'], timeout, h.mem_gb)
    r.solver_s += dt
    if rc == -99:
        r.log += '\n[cbmc timeout after %ds] %s' % (timeout, ' '.join(cmd))
        return None
    res = parse_cbmc_text(o)
    if res is None or rc not in (0, 10):
        r.log += '\n[cbmc gave no result, rc=%s] %s\n%s' % (rc, ' '.join(cmd), o[-1500:] + e[-1500:])
        return None
    return res


def classify(h, res, r):
    r.obligations = r.discharged = r.covers = 0
    r.failed, r.covers_missing, r.props = [], [], []
    for p in res:
        d = p.get('description', '')
        st = p['status']
        loc = p.get('sourceLocation', {})
        ent = (p['property'], d, st, '%s:%s %s' % (loc.get('file', ''), loc.get('line', ''), loc.get('function', '')))
        if d.startswith('JVCOVER: '):
            r.covers += 1
            if st != 'FAILURE':
                r.covers_missing.append(d[9:])
            continue
        r.props.append(ent)
        r.obligations += 1
        if st == 'SUCCESS':
            r.discharged += 1
        else:
            r.failed.append(ent)


def get_trace(h, gb, cmd, ent, timeout):
    rc, o, e, dt = run(cmd + ['--json-ui', '--trace', '--property', ent[0], '--verbosity', '4'],
                       timeout, h.mem_gb)
    res, status, msgs = parse_cbmc_json(o)
    if not res:
        return None
    for p in res:
        if p['property'] == ent[0] and 'trace' in p:
            return p['trace']
    return None


def replay_failures(h, gb, cmd, r, tup, workdir, timeout, tag=''):
    """try to replay the verifier's counterexamples natively; first reproduced one wins"""
    if not h.native:
        return
    order = sorted(r.failed, key=lambda x: (not x[1].startswith('JV: '), 'ensures' not in x[1],
                                            'unwinding' in x[1], 'assign' in x[1]))
    tries = 0
    for ent in order[:4]:
        tr = get_trace(h, gb, cmd, ent, timeout)
        if tr is None:
            continue
        tape = extract_tape(tr)
        rp = native_replay(h, tup, workdir, tape, tag)
        rp['obligation'] = {'name': ent[0], 'description': ent[1], 'location': ent[3]}
        rp.setdefault('tape', ['%x' % v for v in tape])
        r.tapes.append(tape)
        if r.replay is None or rp['reproduced']:
            r.replay = rp
        if rp['reproduced']:
            return
        tries += 1


def _verify(h, workdir, r, deadline):
    tmo = h.timeout
    if h.loops:
        return _verify_loops(h, workdir, r, deadline)
    tup = tu_path(h, workdir, r)
    gb = compile_gb(h, tup, workdir, r)
    if gb is None:
        r.status = 'lost'
        return
    cmd = cbmc_cmd(h, gb)
    r.cmd = (r.cmd + ' && ' if r.cmd else '') + ' '.join(['cbmc'] + cmd[2:])
    res = decide(h, gb, r, cmd, tmo)
    if res is None:
        r.status = 'lost'
        return
    classify(h, res, r)
    if r.failed:
        r.status = 'failed'
        replay_failures(h, gb, cmd, r, tup, workdir, tmo)
        return
    if r.covers_missing or r.obligations == 0:
        r.status = 'vacuous'
        return
    r.ok = True
    r.status = 'bounded' if h.bounded else 'proved'


def _verify_loops(h, workdir, r, deadline):
    from . import loops as L
    L.houdini(h, workdir, r, deadline)
