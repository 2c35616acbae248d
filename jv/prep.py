"""Mechanical preparation of one /repo translation unit for the verifier.

The text that is verified is the text of /repo's file.  Two edits are made on a
scratch copy, both located through clang's AST, neither of which changes what a
function computes:

  * rename:  a reference to a function that is a *contract boundary* and lives in
    the same translation unit is redirected to the contract stub (`<f>__jv`), the
    source-level equivalent of goto-instrument --replace-call-with-contract;
  * loops:   loop contracts (__CPROVER_loop_invariant / __CPROVER_assigns) are
    inserted between a loop head and its body.

Nothing is dropped.  `#line` keeps diagnostics pointing at /repo.
"""
import json
import subprocess


class PrepError(Exception):
    pass


def _walk_locs(node, st, path):
    """resolve the implicit 'file' of every location (clang prints it only when it changes)"""
    if isinstance(node, dict):
        if 'offset' in node:
            if 'file' in node:
                st['file'] = node['file']
            else:
                node['file'] = st['file']
            return
        for k, v in node.items():
            if k in ('loc', 'range', 'begin', 'end', 'spellingLoc', 'expansionLoc'):
                _walk_locs(v, st, path)
        for v in node.get('inner', ()):
            _walk_locs(v, st, path)


def load_ast(path, cflags):
    p = subprocess.run(['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
                        *cflags, path], capture_output=True)
    if p.returncode != 0:
        raise PrepError('clang cannot parse %s: %s' % (path, p.stderr.decode()[-2000:]))
    ast = json.loads(p.stdout)
    _walk_locs(ast, {'file': path}, path)
    return ast


def _loc(l, path):
    """offset in the main file, or None"""
    if not l:
        return None
    if 'offset' in l:
        return (l['offset'], l.get('tokLen', 0)) if l['file'] == path else None
    for k in ('spellingLoc', 'expansionLoc'):
        if k in l and 'offset' in l[k] and l[k]['file'] == path:
            return (l[k]['offset'], l[k].get('tokLen', 0))
    return None


def _exploc(l, path):
    if not l:
        return None
    if 'offset' in l:
        return (l['offset'], l.get('tokLen', 0)) if l['file'] == path else None
    e = l.get('expansionLoc')
    if e and e.get('file') == path:
        return (e['offset'], e.get('tokLen', 0))
    return None


def functions(ast, path):
    out = {}
    for n in ast.get('inner', ()):
        if n.get('kind') == 'FunctionDecl' and \
                any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', ())):
            out[n['name']] = n
    return out


LOOPS = ('WhileStmt', 'ForStmt', 'DoStmt')


def _iter(node):
    yield node
    for c in node.get('inner', ()):
        yield from _iter(c)


def _strip(e):
    while e.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and e.get('inner'):
        e = e['inner'][-1]
    return e


def assigned_vars(node):
    """ids of local variables / parameters written (or address-taken) below node"""
    ids = set()

    def base(e):
        e = _strip(e)
        while e.get('kind') in ('MemberExpr', 'ArraySubscriptExpr'):
            if e['kind'] == 'MemberExpr' and e.get('isArrow'):
                return None
            if e['kind'] == 'ArraySubscriptExpr' and e['inner'][0].get('castKind') != 'ArrayToPointerDecay':
                return None         # element of what a pointer refers to: the pointer itself stays
            e = _strip(e['inner'][0])
        if e.get('kind') == 'DeclRefExpr':
            return e['referencedDecl']['id']
        return None

    for n in _iter(node):
        k = n.get('kind')
        if k == 'BinaryOperator' and n.get('opcode') == '=' or k == 'CompoundAssignOperator':
            b = base(n['inner'][0])
            if b:
                ids.add(b)
        elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--', '&'):
            b = base(n['inner'][0])
            if b:
                ids.add(b)
        elif k == 'ImplicitCastExpr' and n.get('castKind') == 'ArrayToPointerDecay':
            b = base(n['inner'][0])
            if b:
                ids.add(b)
    return ids


def loops_of(fn, path):
    """[(loop node, [in-scope local VarDecl/ParmVarDecl])] in source order"""
    res = []

    def rec(n, scope):
        k = n.get('kind')
        if k in ('CompoundStmt',):
            scope = list(scope)
            for c in n.get('inner', ()):
                if c.get('kind') == 'DeclStmt':
                    for d in c.get('inner', ()):
                        rec(d, scope)
                        if d.get('kind') == 'VarDecl':
                            scope.append(d)
                else:
                    rec(c, scope)
            return
        if k == 'ForStmt':
            scope = list(scope)
            init = n['inner'][0] if n.get('inner') else {}
            if init.get('kind') == 'DeclStmt':
                for d in init.get('inner', ()):
                    if d.get('kind') == 'VarDecl':
                        scope.append(d)
        if k in LOOPS:
            res.append((n, list(scope)))
        for c in n.get('inner', ()):
            rec(c, scope)

    params = [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
    for c in fn.get('inner', ()):
        if c.get('kind') == 'CompoundStmt':
            rec(c, list(params))
    return res


def calls_in(node):
    s = set()
    for n in _iter(node):
        if n.get('kind') == 'DeclRefExpr' and \
                n.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
            s.add(n['referencedDecl']['name'])
    return s


def reachable(funcs, roots, stop=()):
    seen, todo = [], list(roots)
    while todo:
        f = todo.pop(0)
        if f in seen or f not in funcs or f in stop:
            continue
        seen.append(f)
        todo.extend(sorted(calls_in(funcs[f])))
    return seen


def rename_edits(ast, path, text, rename):
    edits, seen = [], set()
    if not rename:
        return edits
    m = rename if isinstance(rename, dict) else {n: n + '__jv' for n in rename}
    for n in _iter(ast):
        if n.get('kind') == 'DeclRefExpr' and \
                n.get('referencedDecl', {}).get('kind') == 'FunctionDecl' and \
                n['referencedDecl']['name'] in m:
            l = _loc(n['range']['begin'], path)
            if l is None or l in seen:
                continue
            nm = n['referencedDecl']['name']
            if text[l[0]:l[0] + l[1]] != nm.encode():
                continue
            seen.add(l)
            edits.append((l[0], l[1], m[nm].encode()))
    return edits


def apply_edits(text, edits):
    out, pos = [], 0
    for off, ln, new in sorted(edits, key=lambda e: (e[0], e[1] > 0)):
        out.append(text[pos:off])
        out.append(new)
        pos = off + ln
    out.append(text[pos:])
    return b''.join(out)


def prepare(path, cflags, rename=(), out=None):
    """copy of the unit with the boundary calls redirected"""
    with open(path, 'rb') as f:
        text = f.read()
    ast = load_ast(path, cflags)
    funcs = functions(ast, path)
    ren = rename(funcs) if callable(rename) else rename
    b = apply_edits(text, rename_edits(ast, path, text, ren))
    with open(out, 'wb') as f:
        f.write(b'#line 1 "%s"\n' % path.encode() + b)
    return funcs
