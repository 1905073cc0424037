"""Temporary files: where they are made, and that they are removed.

Typestate analysis over the events of task generation (sorting of the pairs
included). Every temporary file or directory is created in the directory the
caller asked for; on the normal path it is removed under the condition and in
the loop it was created; on exceptional paths every operation between creation
and removal that can fail lies in a `try` whose finalizer removes it, or in a
`with` whose exit method does. Files opened inside a temporary directory are
removed likewise, unless the directory is removed with its contents, and the
descriptor of a temporary file is closed.
"""
import ast

from rules.common import *
from rules.c10 import RISKY, catch_all, conj_

ASSUMES = ['removing files does not itself fail']

CLASSES = {'H52NP', 'NP2H5', 'H5IO', 'ProgressDisplay'}
HARMLESS = ('os.path', 'builtins', 'os.close', 'warnings')
REMOVES = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs',
           'shutil.rmtree'}


def unwrap(t):
    """path of an opened file"""
    return t.args[0] if t.op == 'h5file' else t


def inside(p, d):
    """the path p lies in the directory d"""
    return p.op == 'pathjoin' and p.args[0] is d or \
        p.op == 'concat' and p.args[0] is d


def implied(g, f):
    """every condition of g is one of f"""
    have = {x.id for x in conj_(f)}
    return all(x.id in have for x in conj_(g))


def protectors(rem, evs, pos):
    """ids of the try / with statements whose failure leads to rem"""
    out = set()
    for r in rem:
        for c in r.ctx:
            if c[0] == 'finally':
                out.add(id(c[1]))
            if c[0] == 'handler' and catch_all(c[2]):
                out.add(id(c[1]))
        for x in evs[pos[id(r)]:]:
            if x.kind == 'exit' and x.recv is not None and \
                    x.recv.op == 'ref' and \
                    len(x.loops) == len(r.loops) and not any(
                        c[0] == 'with' and c[1] is x.recv for c in r.ctx):
                if '__exit__' in r.where[1] or r.where[1] != x.where[1]:
                    out.add(x.recv.id)
                break
    return out


def check(ck, evs, want):
    pos = {id(e): i for i, e in enumerate(evs)}
    enters = {}
    for e in evs:
        if e.kind == 'enter':
            enters[e.where] = e
    made = []
    for e in evs:
        n = str(e.name)
        if e.kind == 'call' and n.startswith('tempfile.'):
            what = n.split('.')[1]
            if what in ('mkstemp', 'mkdtemp', 'mktemp', 'NamedTemporaryFile',
                        'TemporaryFile', 'TemporaryDirectory',
                        'SpooledTemporaryFile'):
                d = e.kwargs.get('dir')
                if d is None and len(e.args) >= 3:
                    d = e.args[2]
                made.append((e, what, d))
    if not made:
        ck.undecided('tmp-dir', 'ABXpy/task.py:Task._generate_pairs',
                     'no temporary file recognised')
    for e, what, d in made:
        if d is want:
            ck.holds('tmp-dir', e, 'made in the directory asked for')
        elif d is None or d is NONE or not any(x.op in ('fresh', 'xcall',
                                                        'ucall')
                                               for x in subterms(d)) and \
                not any(x is want for x in subterms(d)):
            ck.violated('tmp-dir', e, 'made in %s, not in the temporary '
                        'directory asked for' % (
                            'the default directory' if d in (None, NONE)
                            else show(d, 3)))
        else:
            ck.undecided('tmp-dir', e, show(d, 3))
        r = e.result
        if what == 'mkstemp':
            fd, path = tuple_of(r, 0), tuple_of(r, 1)
            if path is None:
                ck.undecided('tmp-removed', e, 'result of mkstemp')
                continue
            cl = [x for x in evs if x.kind == 'call' and str(x.name) in
                  ('os.close', 'os.fdopen', 'open') and any(
                      a is fd for a in x.args)]
            if cl:
                ck.holds('tmp-descriptor', cl[0], 'closed')
            elif any(fd is y for x in evs if x is not e for a in x.args
                     if isinstance(a, T) for y in subterms(a)):
                ck.undecided('tmp-descriptor', e, 'descriptor')
            else:
                ck.violated('tmp-descriptor', e, 'the descriptor of the '
                            'temporary file stays open')
            removed(ck, evs, pos, e, path, False)
        elif what == 'mkdtemp':
            whole = removed(ck, evs, pos, e, r, True)
            for o in evs:
                if o.kind == 'call' and o.result is not None and \
                        o.result.op == 'h5file' and \
                        inside(o.result.args[0], r) and not whole:
                    removed(ck, evs, pos, o, o.result.args[0], False)
        elif any(x.kind == 'enter' and x.recv is r for x in evs):
            ck.holds('tmp-removed', e, 'with statement')
        else:
            ck.undecided('tmp-removed', e, what)


def tuple_of(t, i):
    if t is not None and t.op == 'tuple':
        return t.args[i]
    return None


def removed(ck, evs, pos, e, path, isdir):
    """removal of the path created by event e; returns whether its contents
    are removed too"""
    rem = [x for x in evs[pos[id(e)] + 1:] if x.kind == 'call' and
           str(x.name) in REMOVES and x.args and x.args[0] is path]
    up = [x for x in evs[pos[id(e)] + 1:] if x.kind == 'call' and
          str(x.name) == 'shutil.rmtree' and x.args and
          inside(path, x.args[0])]
    rem += up
    whole = any(str(x.name) == 'shutil.rmtree' for x in rem)
    if not rem:
        # handed to something that could remove it?
        far = [x for x in evs[pos[id(e)] + 1:] if x.kind in
               ('ucall', 'opaque', 'call', 'new') and any(
                   isinstance(a, T) and any(y is path for y in subterms(a))
                   for a in list(x.args) + list(x.kwargs.values())) and
               not str(x.name).startswith(('os.', 'h5py', 'ABXpy'))]
        unk = [x for x in evs if x.kind == 'call' and str(x.name) in REMOVES
               and x.args and opaque_in(x.args[0])]
        ck.decide('tmp-removed', e, None if far or unk else False,
                  'the temporary %s is never removed' % (
                      'directory' if isdir else 'file'))
        return whole
    normal = [x for x in rem if not any(c[0] == 'handler' for c in x.ctx)]
    if not normal:
        ck.violated('tmp-removed', e, 'removed only when something fails '
                    '(line %s)' % rem[0].where[2])
        return whole
    g = e.guard(('branch',))
    full = [x for x in normal if implied(x.guard(('branch',)), g)]
    if not full:
        gs = normal[0].guard(('branch',))
        bad = [y for y in conj_(gs) if y.id not in
               {z.id for z in conj_(g)}]
        ck.decide('tmp-removed', e, None if any(opaque_in(y) for y in bad)
                  else False, 'removed only if %s' % show(bad[0], 3))
        return whole
    last = full[0]
    if len(last.loops) > len(e.loops) or \
            [l.id for l in e.loops] != [l.id for l in last.loops]:
        ck.decide('tmp-removed', e, False if len(e.loops) > len(last.loops)
                  else None, 'made in each turn of a loop, removed once')
        return whole
    prot = protectors(rem, evs, pos)
    n = 0
    i, j = pos[id(e)], pos[id(last)]
    for x in evs[i + 1:j]:
        if x.kind not in RISKY or x.kind in ('exit', 'cast') or \
                str(x.name).startswith(HARMLESS):
            continue
        if x.kind == 'enter' or str(x.name) in REMOVES or \
                x.kind == 'method' and x.name == 'close':
            continue
        own = x.result is not None and x.result.op == 'h5file' and (
            x.result.args[0] is path or inside(x.result.args[0], path)) and \
            x.where[1].endswith('__enter__')
        if own:
            continue
        n += 1
        ok = False
        for c in x.ctx:
            if c[0] == 'try' and id(c[1]) in prot:
                ok = True
            if c[0] == 'with' and c[1].id in prot:
                ok = True
        if not ok:
            ck.violated('tmp-exceptions', e, 'if the %s %s at line %s fails, '
                        'it is not removed' % (x.kind, x.name, x.where[2]))
            return whole
    ck.holds('tmp-removed', e, 'removed at line %s; %d operations protected'
             % (last.where[2], n))
    return whole


def on_failure(ck):
    """exit methods that remove something do so when the body failed"""
    for mod in ck.repo.modules.values():
        for cls in [n for n in mod.tree.body if isinstance(n, ast.ClassDef)]:
            ms = {f.name: f for f in cls.body
                  if isinstance(f, ast.FunctionDef)}
            if '__exit__' not in ms or not any(
                    isinstance(c, ast.Attribute) and c.attr in (
                        'remove', 'rmdir', 'rmtree', 'unlink')
                    for c in ast.walk(cls)):
                continue
            normal, failed = [removals(ck, mod, cls, ms, f)
                              for f in (False, True)]
            if normal is None or failed is None:
                ck.undecided('tmp-failed', '%s:%s' % (mod.path, cls.name),
                             'exit method')
                continue
            for k, e in normal.items():
                if k in failed:
                    ck.holds('tmp-failed', e, 'also when the body failed')
                else:
                    ck.violated('tmp-failed', e, 'not removed when the body '
                                'of the with statement failed')


def removals(ck, mod, cls, ms, failed):
    it = interp(ck.repo, classes=CLASSES)
    st = State()
    exc = [sym('etype'), sym('evalue'), sym('etrace')]

    def dec(c, i):
        if c.op == 'eq' and c.args[1] is NONE and c.args[0] in exc:
            return False
        if c.op == 'truth' and c.args[0] in exc:
            return True
        return None
    try:
        a = ms['__init__'].args.args[1:] if '__init__' in ms else []
        o = it.instantiate('%s:%s' % (mod.name, cls.name),
                           [sym(x.arg) for x in a], {}, st, None)
        if '__enter__' in ms:
            it.call_method(o, '__enter__', [], {}, st, None)
        n = len(it.events)
        it.decide = dec
        it.call_method(o, '__exit__', exc if failed else [NONE] * 3, {}, st,
                       None)
    except Exception:
        return None
    ck.saw(it)
    out = {}
    for e in it.events[n:]:
        if e.kind == 'call' and str(e.name) in REMOVES and e.args:
            g = e.guard(('branch',))
            if g is TRUE or not any(x in exc for x in subterms(g)):
                out[str(e.name), show(e.args[0], 6)] = e
    return out


def generation(ck):
    it, st, t, n0, st0 = generated(ck.repo, 1, 1, (), None, classes=CLASSES)
    ck.saw(it)
    check(ck, it.events[n0:], sym('tmp'))


RULES = [generation, on_failure]
