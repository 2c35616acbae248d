"""Loop contracts for the loops that no constant bounds.

Every loop reachable from the function under contract inside its translation unit
(constant-trip loops excepted: these are unwound completely, with unwinding
assertions) is cut at its head by text inserted into the loop condition of the
scratch copy:

  first visit   assert the invariant (base case); forget everything the loop may
                change (all locals it writes, the unit's globals it writes and,
                through the harness' jv_loop_havoc(), every object of the harness);
                assume the invariant
  second visit  assert the invariant (inductive step); end of path

which is the inductive loop rule: the state after the first visit stands for the
state at the head of every iteration.  The invariant is the conjunction of the
candidates that survive (Houdini): candidates relate the integer and pointer
locals in scope with each other, with their values at loop entry and with the
harness' ghost counters, plus the harness' own invariants over ghost state.  None
names a local variable of the code, so the code may be rewritten freely as long
as some candidate set is inductive and strong enough.
"""
import os
import re
import time

from . import engine, prep

INT = re.compile(r'^(const )?(volatile )?(unsigned |signed )?(char|short|int|long|long long|size_t|ssize_t|'
                 r'uint8_t|uint16_t|uint32_t|uint64_t|int8_t|int16_t|int32_t|int64_t|__u8|__u16|__u32|__u64|u8|u32|u64|'
                 r'unsigned short|unsigned int|unsigned long|unsigned|bool|_Bool|ptrdiff_t|loff_t)( int)?$')


def is_int(t):
    return bool(INT.match(t.replace('volatile ', '').replace('const ', '').strip()))


def qual(d):
    t = d.get('type', {})
    return t.get('qualType', '')


def strip_cv(t):
    return re.sub(r'\b(const|volatile|restrict|static)\b', '', t).replace('  ', ' ').strip()


def is_ptr(t):
    return t.endswith('*') and '(' not in t


def has_var(e):
    for n in prep._iter(e):
        if n.get('kind') in ('MemberExpr', 'CallExpr', 'ArraySubscriptExpr'):
            return True
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') in ('VarDecl', 'ParmVarDecl'):
            return True
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '*':
            return True
    return False


def const_trip(loop):
    """for (i = const; i REL const; i += const): left to complete unwinding"""
    if loop['kind'] == 'ForStmt':
        init, _, cond, inc, _ = (loop['inner'] + [{}] * 5)[:5]
        if not cond or cond.get('kind') != 'BinaryOperator' or not inc:
            return False
        if has_var(cond['inner'][1]):
            return False
        if init.get('kind') == 'DeclStmt':
            v = init['inner'][0]
            return bool(v.get('inner')) and not has_var(v['inner'][-1])
        if init.get('kind') == 'BinaryOperator' and init.get('opcode') == '=':
            return not has_var(init['inner'][1])
    if loop['kind'] == 'DoStmt':     # do { } while (0)
        c = loop['inner'][-1]
        return not has_var(c)
    return False


class Cut:
    def __init__(self):
        self.loops = []     # dict(id, fname, cands)


def skip_ws(s, i):
    while i < len(s):
        if s[i] in ' \t\r\n\\':
            i += 1
        elif s.startswith('/*', i):
            i = s.index('*/', i) + 2
        elif s.startswith('//', i):
            i = s.index('\n', i)
        else:
            return i
    return i


def match(s, i):
    """index just after the bracket matching s[i]"""
    close = {'(': ')', '{': '}', '[': ']'}
    st = []
    while i < len(s):
        if s.startswith('/*', i):
            i = s.index('*/', i) + 2
            continue
        if s.startswith('//', i):
            i = s.index('\n', i)
            continue
        c = s[i]
        if c in '"\'':
            j = i + 1
            while s[j] != c:
                j += 2 if s[j] == '\\' else 1
            i = j + 1
            continue
        if c in '({[':
            st.append(close[c])
        elif c in ')}]':
            if not st or st.pop() != c:
                raise prep.PrepError('unbalanced brackets')
            if not st:
                return i + 1
        i += 1
    raise prep.PrepError('unbalanced brackets')


def split_for(s, a, b):
    """positions of the two top-level ';' between a and b"""
    pos, i = [], a
    while i < b:
        if s.startswith('/*', i):
            i = s.index('*/', i) + 2
            continue
        if s.startswith('//', i):
            i = s.index('\n', i)
            continue
        if s[i] in '({[':
            i = match(s, i)
            continue
        if s[i] == ';':
            pos.append(i)
        i += 1
    return pos


def stmt_end(s, i):
    """end of the statement starting at i (compound or simple up to ';', or control)"""
    i = skip_ws(s, i)
    if s[i] == '{':
        return match(s, i)
    m = re.match(r'(if|for|while|switch)\b', s[i:])
    if m:
        j = skip_ws(s, i + len(m.group(1)))
        j = match(s, j)
        e = stmt_end(s, j)
        if m.group(1) == 'if':
            k = skip_ws(s, e)
            if re.match(r'else\b', s[k:]):
                return stmt_end(s, k + 4)
        return e
    if re.match(r'do\b', s[i:]):
        e = stmt_end(s, i + 2)
        k = skip_ws(s, e)
        k = skip_ws(s, k + 5)
        k = match(s, k)
        return skip_ws(s, k) + 1
    while s[i] != ';':
        i = match(s, i) if s[i] in '({[' else i + 1
    return i + 1


def candidates(lid, scope, assigned, ghosts, globs, consts=(), pghosts=(), pairs=()):
    """[(text)] over locals; entry values are jv_e<lid>_<name>"""
    ints = [d for d in scope if is_int(qual(d))]
    aints = [d['name'] for d in ints if d['id'] in assigned]
    others = [d['name'] for d in ints if d['id'] not in assigned]
    ptrs = [d['name'] for d in scope if is_ptr(strip_cv(qual(d))) and d['id'] in assigned]
    e = lambda v: 'jv_e%d_%s' % (lid, v)
    U = lambda x: '(uint64_t)(%s)' % x
    c = []
    for v in aints:
        c.append('%s == %s' % (v, e(v)))
        c.append('%s <= %s' % (v, e(v)))
        c.append('%s >= %s' % (v, e(v)))
        for k in ('0', '1'):
            c.append('%s == %s' % (v, k))
        for k in consts:
            c.append('%s <= %s' % (v, k))
        for g in ghosts:
            c.append('%s == %s' % (U(v), U(g)))
            c.append('%s + %s == %s + %s' % (U(v), U(g), U(e(v)), U(e(g))))
            c.append('%s - %s == %s - %s' % (U(v), U(g), U(e(v)), U(e(g))))
        for w in others:
            c.append('%s < %s' % (U(v), U(w)))
            c.append('%s <= %s' % (U(v), U(w)))
        for w in aints:
            if v < w:
                c.append('%s + %s == %s + %s' % (U(v), U(w), U(e(v)), U(e(w))))
                c.append('%s - %s == %s - %s' % (U(v), U(w), U(e(v)), U(e(w))))
    for t in pairs:
        for v in aints:
            for w in aints:
                if v != w:
                    c.append(t.format(v=v, w=w, ev=e(v), ew=e(w)))
    for p in ptrs:
        c.append('%s == %s' % (p, e(p)))
        for g in pghosts:
            c.append('(const void *)%s == (const void *)%s' % (p, g))
        for g in ghosts:
            c.append('%s == %s + (%s - %s)' % (p, e(p), g, e(g)))
        for v in aints:
            c.append('%s == %s + (%s - %s)' % (p, e(p), v, e(v)))
            c.append('%s == %s - (%s - %s)' % (p, e(p), v, e(v)))
    return c


def calls_boundary(funcs, node, names):
    c = prep.calls_in(node)
    return bool((c | {x for f in prep.reachable(funcs, sorted(c), names) for x in prep.calls_in(funcs[f])}) & names)


def transform(h, workdir, r, out, keep=None):
    """write the cut copy; returns list of candidate strings 'lid|text'"""
    src = os.path.join(engine.REPO, h.tu)
    with open(src, 'rb') as f:
        enc = f.read()
    text = enc.decode('latin-1')
    fl = engine.cflags(h) + engine.defs_of(h)
    ast = prep.load_ast(src, fl)
    funcs = prep.functions(ast, src)
    roots = list(funcs) if h.roots == ['*'] else h.roots or engine.enf(h)
    L = h.loops
    ghosts = L.get('ghosts', [])
    pany = L.get('ptr_havoc', {})     # pointer type -> expression for any value it may have
    edits = []
    decls = []
    cands = []
    ren = h.rename(funcs) if callable(h.rename) else h.rename
    edits += prep.rename_edits(ast, src, enc, ren)
    lid = 0
    names = []
    globs = {n['id']: n for n in ast['inner'] if n.get('kind') == 'VarDecl'}
    for fname in prep.reachable(funcs, roots, set(h.stop) | set(ren)):
        fn = funcs[fname]
        for lp, scope in prep.loops_of(fn, src):
            if (const_trip(lp) and not L.get('cut_const')) or (fname in L.get('unwind_funcs', ())):
                continue
            if L.get('calling') and not calls_boundary(funcs, lp, set(ren) | set(L['calling'])):
                continue
            b = prep._exploc(lp['range']['begin'], src)
            if b is None:
                continue
            kw = {'WhileStmt': 'while', 'ForStmt': 'for', 'DoStmt': 'do'}[lp['kind']]
            if not text.startswith(kw, b[0]):
                continue
            assigned = prep.assigned_vars(lp)
            locs = [d for d in scope if d.get('name')]
            # innermost declaration of a name wins
            uniq = {}
            for d in locs:
                uniq[d['name']] = d
            locs = list(uniq.values())
            gl = []
            for f2 in prep.reachable(funcs, [fname], set(h.stop) | set(ren)):
                for i in prep.assigned_vars(funcs[f2]):
                    if i in globs and globs[i].get('name') and not globs[i]['name'].startswith('jv_'):
                        gl.append(globs[i])
            tm = [t.replace('{v}', d['name']).replace('{ev}', 'jv_e%d_%s' % (lid, d['name'])).replace('{L}', str(lid))
                  for t in L.get('templates', ()) for d in locs if is_int(qual(d)) and d['id'] in assigned]
            cs = tm + candidates(lid, locs, assigned, ghosts, gl, L.get('consts', ()), L.get('pghosts', ()), L.get('pairs', ())) + [x.replace('{L}', str(lid)) for x in L.get('inv', ())]
            snap, havoc = [], []
            for d in locs:
                t = qual(d)
                nm = d['name']
                if d['id'] not in assigned:
                    continue
                if is_int(t):
                    decls.append('static %s jv_e%d_%s;' % (strip_cv(t), lid, nm))
                    snap.append('jv_e%d_%s = %s;' % (lid, nm, nm))
                    havoc.append('{ %s jv_nd; %s = jv_nd; }' % (strip_cv(t), nm))
                elif strip_cv(t) in pany:
                    decls.append('static %s jv_e%d_%s;' % (strip_cv(t), lid, nm))
                    snap.append('jv_e%d_%s = %s;' % (lid, nm, nm))
                    havoc.append('%s = %s;' % (nm, pany[strip_cv(t)]))
                elif is_ptr(strip_cv(t)):
                    decls.append('static %s jv_e%d_%s;' % (t.rsplit('*', 1)[0] + '*', lid, nm))
                    snap.append('jv_e%d_%s = %s;' % (lid, nm, nm))
                    havoc.append('{ long jv_nd; __CPROVER_assume(jv_nd > -(1l << 50) && jv_nd < (1l << 50)); %s = jv_e%d_%s + jv_nd; }' % (nm, lid, nm))
                else:
                    havoc.append('__CPROVER_havoc_object(&%s);' % nm)
            for g in ghosts:
                decls.append('static __typeof__(%s) jv_e%d_%s;' % (g, lid, g))
                snap.append('jv_e%d_%s = %s;' % (lid, g, g))
            for g in {x['name'] for x in gl}:
                havoc.append('__CPROVER_havoc_object(&%s);' % g)
            decls.append('static int jv_v%d;' % lid)
            live = []
            for c in cs:
                key = '%d|%s' % (lid, c)
                if keep is None or key in keep:
                    live.append((len(cands), c))
                    cands.append(key)
            chk = ''.join('__CPROVER_assert((%s), "JVINV:%d:%s");' % (c, n, '%s') for n, c in live)
            base = chk.replace('%s")', 'base")')
            step = chk.replace('%s")', 'step")')
            hard = ''.join('__CPROVER_assert((%s), "JV: loop invariant: %s");' % (x.replace('{L}', str(lid)), x.split('(')[0])
                           for x in L.get('hard', ()))
            base, step = hard + base, hard + step
            # instances, at the loop counters, of what the harness assumes for all positions
            inst = ''.join('__CPROVER_assume(%s);' % t.replace('{v}', d['name'])
                           for t in L.get('inst', ()) for d in locs if is_int(qual(d)) and d['id'] in assigned)
            asm = inst + ''.join('__CPROVER_assume(%s);' % c for _, c in live)
            ptrok = ''.join('__CPROVER_assert(__CPROVER_POINTER_OBJECT(%s) == __CPROVER_POINTER_OBJECT(jv_e%d_%s), '
                            '"JV-LOOP: pointer stays within its object");' % (d['name'], lid, d['name'])
                            for d in locs if d['id'] in assigned and is_ptr(strip_cv(qual(d))) and strip_cv(qual(d)) not in pany)
            # buffers the loop may write through a pointer are made known to the harness
            hook = ''.join('jv_loop_ptr(%s);' % d['name'] for d in locs
                           if L.get('ptr_hook') and re.match(L['ptr_hook'], strip_cv(qual(d))))
            snap.insert(0, 'jv_loop_ptr(0);' + hook if L.get('ptr_hook') else '')
            head = ('({ if (!jv_v%d) { jv_v%d = 1; %s jv_loop_entry(%d); %s %s jv_loop_havoc(); jv_v%d = 1; %s } else { %s %s __CPROVER_assume(0); } 1; })'
                    % (lid, lid, ' '.join(snap), lid, base, ' '.join(havoc), lid, asm, ptrok, step))
            # locate the text
            i = skip_ws(text, b[0] + len(kw))
            if kw == 'do':
                if text[i] != '{':
                    continue
                edits.append((i + 1, 0, (' ' + head + '; ').encode()))
                end = stmt_end(text, b[0])
            else:
                if text[i] != '(':
                    continue
                j = match(text, i)
                if kw == 'while':
                    edits.append((i + 1, 0, (head + ' && (').encode()))
                    edits.append((j - 1, 0, b')'))
                else:
                    sc = split_for(text, i + 1, j - 1)
                    if len(sc) != 2:
                        continue
                    cond = text[sc[0] + 1:sc[1]].strip()
                    if cond:
                        edits.append((sc[0] + 1, 0, (' ' + head + ' && (').encode()))
                        edits.append((sc[1], 0, b')'))
                    else:
                        edits.append((sc[0] + 1, 0, (' ' + head).encode()))
                end = stmt_end(text, b[0])
            edits.append((b[0], 0, ('{ jv_v%d = 0; ' % lid).encode()))
            edits.append((end, 0, b' }'))
            names.append('%s loop %d' % (fname, lid))
            lid += 1
    body = prep.apply_edits(enc, edits)
    # entry-value declarations go before the first function that is reachable
    first = min([prep._exploc(funcs[f]['range']['begin'], src)[0]
                 for f in funcs if prep._exploc(funcs[f]['range']['begin'], src)] or [0])
    pre = prep.apply_edits(enc[:first], [e for e in edits if e[0] < first])
    if not body.startswith(pre):
        raise prep.PrepError('internal: cannot place declarations')
    line = text[:first].count('\n') + 1
    res = b'#line 1 "%s"\n' % src.encode() + pre + \
        ('\n' + '\n'.join(decls) + '\n#line %d "%s"\n' % (line, src)).encode() + body[len(pre):]
    with open(out, 'wb') as f:
        f.write(res)
    r.loops = names
    return cands, lid


def houdini(h, workdir, r, deadline):
    hints = engine.load_hints().get(h.hint or h.name)
    out = os.path.join(workdir, h.name + '.cut.' + os.path.basename(h.tu))
    t_end = time.time() + h.timeout
    if deadline:
        t_end = min(t_end, deadline)
    attempts = ([set(hints)] if hints is not None else []) + [None]
    last = None
    for start in attempts:
        keep = start
        for rnd in range(40):
            cands, nl = transform(h, workdir, r, out, keep)
            if nl == 0 and not h.loops.get('optional'):
                r.log += '\n[no loop to cut: unwound instead]'
            gb = engine.compile_gb(h, out, workdir, r, suffix='.cut')
            if gb is None:
                break
            cmd = engine.cbmc_cmd(h, gb)
            left = t_end - time.time()
            if left < 1:
                r.log += '\n[out of time in invariant inference]'
                break
            res = engine.decide(h, gb, r, cmd, left)
            if res is None:
                break
            bad = set()
            rest = []
            ninv = 0
            for p in res:
                m = re.match(r'JVINV:(\d+):(base|step)', p.get('description', ''))
                if m:
                    ninv += 1
                    if p['status'] != 'SUCCESS':
                        bad.add(cands[int(m.group(1))])
            if os.environ.get('JV_DEBUG'):
                print(h.name, 'round', rnd, 'cands', len(cands), 'bad', len(bad), round(r.solver_s, 1),
                      [p['description'] for p in res if p['status'] != 'SUCCESS'], flush=True)
            if bad:
                keep = set(cands) - bad
                continue
            engine.classify(h, res, r)
            r.cmd = (r.cmd + ' && ' if r.cmd else '') + ' '.join(['cbmc'] + cmd[2:])
            r.invariants = sorted(cands)
            if not r.failed:
                if r.covers_missing or r.obligations == 0:
                    r.status = 'vacuous'
                else:
                    r.ok = True
                    r.status = 'proved'
                return
            last = (list(r.failed), r.obligations, r.discharged, r.covers, gb, cmd)
            break
        if time.time() > t_end - 5:
            break
    r.status = 'failed' if last else 'lost'
    if last:
        # the counterexample of the cut program may be a real run already
        r.failed, r.obligations, r.discharged, r.covers = last[:4]
        left = max(10, min(200, (deadline or time.time() + 200) - time.time() - 60))
        tup = engine.tu_path(h, workdir, r, suffix='.n')
        engine.replay_failures(h, last[4], last[5], r, tup, workdir, left, '.n')
        if r.replay and r.replay.get('reproduced'):
            return
    from . import fuzz
    rp = fuzz.search(h, workdir, 1, 15, seeds=r.tapes)
    if rp:
        r.replay = rp
        return
    bounded_search(h, workdir, r, deadline)


def bounded_search(h, workdir, r, deadline):
    """look for a real counterexample by unrolling up to a bound"""
    b = engine.Result(h)
    tup = engine.tu_path(h, workdir, b, suffix='.b')
    gb = engine.compile_gb(h, tup, workdir, b, suffix='.b')
    if gb is None:
        r.log += b.log
        return
    for u in h.loops.get('bounds', (3, 6)):
        cmd = engine.cbmc_cmd(h, gb, unwind=max(u, h.loops.get('min_unwind', u))) + ['--no-unwinding-assertions']
        left = (deadline or time.time() + 300) - time.time() - 60
        if left < 5:
            break
        res = engine.decide(h, gb, b, cmd, min(left, 120))
        if res is None:
            continue
        engine.classify(h, res, b)
        if b.failed:
            engine.replay_failures(h, gb, cmd, b, tup, workdir, min(left, 120), '.b')
            r.tapes += b.tapes
            if b.replay and b.replay.get('reproduced'):
                r.replay = b.replay
                return
