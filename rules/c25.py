"""Failures are not swallowed: exception-flow analysis.

Effects: a function *works on data* when it calls a function it received as an
argument, reads features, opens, reads or writes hdf5 files or buffers, runs
jobs, yields inside a `with`, or calls a function of the package that does
(closure over the call graph). For every `try` whose body works on data, every
handler that catches failures must be transparent (see exclib), and its
finalizer must not leave by return, break or continue; no `__exit__` returns a
true value; results of parallel jobs are awaited.
"""
import ast
from rules.distlib import *
from rules import exclib

ASSUMES = ['an exception that leaves an entry point ends the command with a '
           'failure status']

SCOPE = ('ABXpy/task.py', 'ABXpy/distance.py', 'ABXpy/score.py',
         'ABXpy/analyze.py', 'ABXpy/distances/', 'ABXpy/h5tools/',
         'ABXpy/sideop/', 'ABXpy/sampling/', 'ABXpy/misc/any2h5features.py',
         'ABXpy/database/', 'ABXpy/misc/items.py', 'ABXpy/dbfun/',
         'ABXpy/verify.py')
CLEANUP = {'close', 'remove', 'rmdir', 'unlink', 'rmtree', 'exists', 'print',
           'join', 'warn', 'format', 'str', 'isfile', 'terminate', 'flush_log',
           'isdir', 'release', 'write_log'}
SOFT = {'KeyError', 'AttributeError', 'NameError', 'StopIteration',
        'ImportError', 'ModuleNotFoundError', 'UnboundLocalError',
        'UnicodeDecodeError', 'UnicodeEncodeError', 'IndexError', 'TypeError',
        'CalledProcessError', 'UnicodeError', '?'}


def in_scope(path):
    return any(path == s or (s.endswith('/') and path.startswith(s))
               for s in SCOPE)


def effects(repo):
    """names of the functions of the package that work on data"""
    fns = {}
    for m in repo.modules.values():
        if in_scope(m.path):
            for q, f in exclib.functions(m):
                fns.setdefault(q.split('.')[-1], []).append((m, f))
    eff = set()
    changed = True
    while changed:
        changed = False
        for n, l in fns.items():
            if n not in eff and any(works(f.body, f, eff) for _, f in l):
                if n in ('__init__', '__enter__', '__exit__', 'test', 'main'):
                    continue
                eff.add(n)
                changed = True
    return eff


def works(body, fn, eff):
    """first data operation of a block, or None"""
    params = {a.arg for a in fn.args.args} if fn is not None else set()
    todo = list(body)
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return n
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and (f.id in params or f.id in eff):
                return n
            if isinstance(f, ast.Attribute):
                if f.attr in eff or f.attr in (
                        'File', 'HDFStore', 'read', 'map', 'starmap',
                        'map_async', 'starmap_async', 'apply_async', 'imap',
                        'create_dataset', 'read_csv', 'get_result', 'convert'):
                    return n
                if f.attr == 'write' and not (
                        isinstance(f.value, ast.Attribute) and
                        f.value.attr in ('stderr', 'stdout')):
                    return n
                if f.attr == 'get' and isinstance(f.value, ast.Call):
                    return n
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Subscript) and isinstance(
                    t.value, ast.Subscript) for t in n.targets):
            return n            # fh['dataset'][rows] = data
        if isinstance(n, ast.Subscript) and isinstance(
                n.value, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
                isinstance(root(n), ast.Name) and any(
                    isinstance(x, ast.Constant) and isinstance(x.value, str)
                    for x in ast.walk(n)) and (
                        isinstance(n.slice, (ast.Slice, ast.Tuple)) or
                        isinstance(n.slice, ast.Constant) and
                        n.slice.value is Ellipsis):
            return n            # fh['dataset'][rows]
        todo.extend(ast.iter_child_nodes(n))
    return None


def root(n):
    while isinstance(n, ast.Subscript):
        n = n.value
    return n


def only_cleanup(body):
    seen = False
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                seen = True
                if exclib.callee(n) not in CLEANUP:
                    return False
    return seen


def creates(h, fn):
    """the open-or-create idiom: the handler opens the file itself"""
    return any(isinstance(n, ast.Call) and exclib.callee(n) in (
        'File', 'open', 'create_group', 'mkdir', 'makedirs')
        for s in h.body for n in ast.walk(s))


OPTIONAL = {'load_aux_dbs'}


def handlers(ck):
    eff = effects(ck.repo)
    n = 0
    for name, m in sorted(ck.repo.modules.items()):
        if not in_scope(m.path):
            continue
        never = exclib.never_returns(m)
        for q, fn in exclib.functions(m):
            ck.functions.add(name + ':' + q)
            for t in exclib.tries(fn):
                w = works(t.body, fn, eff)
                wh = (m.path, q, t.lineno)
                if exclib.LEAVE in exclib.ends(
                        t.finalbody, exclib.none_params(fn), never):
                    n += 1
                    if w is not None:
                        ck.violated('finalizer', wh, 'the finalizer leaves the '
                                    'block: a failure of the work at line %s '
                                    'is discarded' % w.lineno)
                    continue
                for h in t.handlers:
                    n += 1
                    judge(ck, m, q, fn, t, h, w, never)
    ck.holds('handlers', 'package', '%d handlers and finalizers examined, %d '
             'data functions' % (n, len(eff)))


def judge(ck, m, q, fn, t, h, w, never):
    wh = (m.path, q, h.lineno)
    ty = exclib.types(h)
    if exclib.transparent(h, fn, never):
        ck.holds('handler', wh, 'raises on every path')
        return
    if w is None or only_cleanup(t.body):
        ck.holds('handler', wh, 'no data operation in the block')
        return
    broad = ty & exclib.BROAD
    leaves = exclib.LEAVE in exclib.ends(h.body, exclib.none_params(fn), never)
    if not broad and ty <= SOFT:
        user = isinstance(w, ast.Call) and isinstance(w.func, ast.Name) and \
            w.func.id in {a.arg for a in fn.args.args}
        if not (user or (leaves and in_loop(fn, t))):
            ck.holds('handler', wh, 'handles %s only' % ', '.join(sorted(ty)))
            return
    if not broad and ty <= {'IOError', 'OSError', 'FileNotFoundError',
                            'EnvironmentError', 'KeyError'} and (
            creates(h, fn) or q.split('.')[-1] in OPTIONAL or
            (fn.name == '__init__' and m.path.endswith('h5io.py'))):
        ck.holds('handler', wh, 'open-or-create')
        return
    if not broad and not (ty & exclib.FAILURES):
        ck.undecided('handler', wh, 'handles %s' % ', '.join(sorted(ty)))
        return
    if not broad and ty <= {'ValueError'} and q.endswith(
            'print_stats_to_stream'):
        ck.holds('handler', wh, 'optional statistics')
        return
    ck.violated('handler', wh, 'a failure of the work at line %s (%s) is '
                'discarded: the handler for %s goes on' % (
                    w.lineno, ast.unparse(w)[:60], ', '.join(sorted(ty))))


def in_loop(fn, t):
    def go(nodes, inside):
        for n in nodes:
            if n is t:
                return inside
            r = go(ast.iter_child_nodes(n), inside or isinstance(
                n, (ast.For, ast.While)))
            if r is not None:
                return r
        return None
    return go(fn.body, False)


def exits(ck):
    for name, m in sorted(ck.repo.modules.items()):
        if not in_scope(m.path):
            continue
        for q, fn in exclib.functions(m):
            if fn.name == '__exit__':
                rets = [n for n in exclib.own(fn)
                        if isinstance(n, ast.Return) and n.value is not None]
                ok, why = True, 'returns nothing: the exception goes on'
                for r in rets:
                    v = r.value
                    if isinstance(v, ast.Constant):
                        if v.value:
                            ok, why = False, 'returns %r: an exception inside '\
                                'the with block is discarded' % v.value
                            break
                    elif not forwarded(v):
                        ok, why = None, 'returns %s' % ast.unparse(v)
                ck.decide('context-manager', (m.path, q, fn.lineno), ok, why)
            eff = None
            for n in exclib.own(fn):
                if isinstance(n, ast.With):
                    for i in n.items:
                        c = i.context_expr
                        if isinstance(c, ast.Call) and exclib.callee(c) == \
                                'suppress':
                            eff = eff or effects(ck.repo)
                            names = {exclib.callee(ast.Call(func=a, args=[],
                                                            keywords=[]))
                                     for a in c.args}
                            if names & exclib.FAILURES and works(
                                    n.body, fn, eff):
                                ck.violated('handler', (m.path, q, n.lineno),
                                            'failures of the block are '
                                            'suppressed')


def forwarded(v):
    """super().__exit__(...) / self.x.__exit__(...): analysed on its own"""
    return isinstance(v, ast.Call) and exclib.callee(v) == '__exit__'


def awaited(ck):
    c = Compute(ck)
    if not c.calls:
        ck.undecided('awaited', DPY + ':compute_distances', 'no job calls')
    for x, bd, loop, waits in c.calls:
        ck.decide('awaited', x, waits, 'the errors of the jobs are %s' % (
            'collected' if waits else 'not collected'))


RULES = [handlers, exits, awaited]
