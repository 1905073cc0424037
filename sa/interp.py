"""Gated-SSA style abstract interpreter over the Python AST.

Every function is analysed once per calling context with abstract arguments;
control-flow joins become gated (ite) terms, loops over abstract domains
become canonical iteration variables with solved or opaque recurrences, and
every effectful call, store, raise and context entry is logged as an Event
with its guard, loop nest and protection (with / try-finally) context.
Nothing of the analysed program is executed.
"""
import ast
import copy

from .terms import *
from . import terms as tm
from .repo import AnalysisBroken


class Dead(Exception):
    """no fall-through: every path raised"""


LIBCONST = {'os.extsep': '.', 'os.sep': '/', 'os.curdir': '.',
            'os.linesep': '\n', 'os.pathsep': ':', 'os.path.sep': '/',
            'os.path.extsep': '.', 'os.path.curdir': '.'}


def hashes(t):
    """whether the hash of a value depends on the hash seed"""
    return t.op == 'const' and isinstance(t.args[0], str) or \
        t.op == 'tuple' and any(hashes(x) for x in t.args)


class LibError(Exception):
    """an exception of a run on library values; names: its classes"""

    def __init__(self, names, st=None, why=''):
        Exception.__init__(self, '%s: %s' % (names[0], why))
        self.names, self.st, self.why = names, st, why


PARENTS = {
    'OSError': ['IOError', 'EnvironmentError'],
    'IOError': ['OSError', 'EnvironmentError'],
    'FileNotFoundError': ['OSError', 'IOError', 'EnvironmentError'],
    'KeyError': ['LookupError'], 'IndexError': ['LookupError'],
    'UnicodeDecodeError': ['UnicodeError', 'ValueError']}


def raised(name, st, why=''):
    return LibError([name] + PARENTS.get(name, []) +
                    ['Exception', 'BaseException'], st, why)


class Obj(object):
    __slots__ = ('kind', 'data', 'cls')

    def __init__(self, kind, data, cls=None):
        self.kind, self.data, self.cls = kind, data, cls


class State(object):
    __slots__ = ('heap', 'pc', 'path')

    def __init__(self, heap=None, pc=(), path=TRUE):
        self.heap = heap if heap is not None else {}
        self.pc = pc            # facts known here: (condition, value, origin)
        self.path = path        # condition under which the enclosing body
        #                         (function or loop iteration) gets here

    def copy(self):
        return State(dict(self.heap), self.pc, self.path)

    def set(self, o):
        self.heap, self.pc, self.path = o.heap, o.pc, o.path


def join_path(p, q):
    a = {x.id: x for x in (p.args if p.op == 'and' else (p,))}
    b = {x.id: x for x in (q.args if q.op == 'and' else (q,))}
    common = [x for i, x in a.items() if i in b]
    ra = [x for i, x in a.items() if i not in b]
    rb = [x for i, x in b.items() if i not in a]
    return and_(*(common + [or_(and_(*ra), and_(*rb))]))


class Func(object):
    def __init__(self, module, node, frame=None, cls=None, name=None):
        self.module, self.node, self.frame, self.cls = module, node, frame, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.is_gen = (not isinstance(node, ast.Lambda)) and _has_yield(node)

    @property
    def qual(self):
        return '%s:%s%s' % (self.module.name,
                            self.cls.name + '.' if self.cls else '', self.name)


def _has_yield(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Loop(object):
    """one abstract loop level"""
    n = 0

    def __init__(self, kind, doms, guard, node, where):
        Loop.n += 1
        self.id = Loop.n
        self.kind, self.doms, self.guard = kind, doms, guard
        self.node, self.where = node, where
        self.brk = []
        self.cond = None
        self.entry = TRUE   # condition under which the loop is reached
        self.slots = {}
        self.dels = {}      # dictionary entries deleted per iteration

    def __repr__(self):
        return '<loop %s over %s>' % (self.id, [d for _, d in self.doms])


class Event(object):
    def __init__(self, kind, name, recv, args, kwargs, pc, loops, ctx, where,
                 node, stack):
        self.kind, self.name, self.recv = kind, name, recv
        self.args, self.kwargs = args, kwargs
        self.pc, self.loops, self.ctx = pc, loops, ctx
        self.where, self.node, self.stack = where, node, stack
        self.result = None
        self.bound = None
        self.state = None
        self.path = TRUE

    def guard(self, origins=('branch', 'loop')):
        g = [c if b else not_(c) for c, b, o in self.pc if o in origins]
        have = {}
        for c, b, o in self.pc:
            have[(c if b else not_(c)).id] = 1
        p = self.path
        for x in (p.args if p.op == 'and' else (p,)):
            if x.id not in have:
                g.append(x)
        return and_(*g)

    def __repr__(self):
        return '%s:%s %s %s(%s)' % (self.where[0], self.where[2], self.kind,
                                    self.name, ', '.join(map(str, self.args)))


class Outcome(object):
    __slots__ = ('fall', 'rets', 'brks', 'conts')

    def __init__(self, fall=None):
        self.fall = fall
        self.rets, self.brks, self.conts = [], [], []


BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict)
               else __builtins__)

MAXDEPTH = 30


def as_genexp(fn):
    """a generator function that is one loop yielding one expression"""
    if hasattr(fn, '_genexp'):
        return fn._genexp
    fn._genexp = None
    body = [x for x in fn.body if not (
        isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.For) or body[0].orelse:
        return None
    loop = body[0]
    last = loop.body[-1]
    if not (isinstance(last, ast.Expr) and isinstance(last.value, ast.Yield)
            and last.value.value is not None):
        return None
    pre = {}
    for x in loop.body[:-1]:
        if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and
                isinstance(x.targets[0], ast.Name)) or \
                x.targets[0].id in pre:
            return None
        pre[x.targets[0].id] = x.value
    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr))
           for v in pre.values() for x in ast.walk(v)):
        return None
    uses = [x.id for y in loop.body for x in ast.walk(y)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]
    if any(uses.count(k) != 1 for k in pre):
        return None

    class Inline(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in pre and isinstance(n.ctx, ast.Load):
                return self.visit(copy.deepcopy(pre[n.id]))
            return n
    elt = Inline().visit(copy.deepcopy(last.value.value))
    g = ast.GeneratorExp(elt, [ast.comprehension(loop.target, loop.iter, [],
                                                 0)])
    fn._genexp = ast.copy_location(g, loop)
    return g


class Interp(object):
    def __init__(self, repo, opaque=(), decide=None, opaque_classes=(),
                 exact=False):
        # keep casts and shape changes in the terms
        self.exact = exact
        self.repo = repo
        self.events = []
        self.loops = []
        self.ctx = []
        self.stack = []
        self.funcs = {}
        self.fids = {}
        self.nextid = 0
        self.uniq = 0
        self.indexed = False
        self.opaque = set(opaque)
        self.opaque_classes = set(opaque_classes)
        self.decide = decide
        self.yield_hooks = []
        self.framefunc = {}
        self.positions = False
        self.phi_info = {}
        self.dreads = set()
        self.modcache = {}
        self.notes = []
        self.undecided = []
        self.iterations = 0
        self.natives = {}
        self.handling = []  # library exceptions being handled
        self.set_order, self.permuted = None, 0
        self.kept = {}
        self.lib = None     # model of library values (sa.pdlib)
        self.analysed = set()
        self.cur_frame = None
        from . import models
        self.models = models

    # ------------------------------------------------------------- utilities
    def fresh(self, base):
        self.uniq += 1
        return mk('fresh', base, self.uniq)

    def alloc(self, st, obj):
        self.nextid += 1
        st.heap[self.nextid] = obj
        return mk('ref', self.nextid)

    def new_list(self, st, vals):
        return self.alloc(st, Obj('list', tuple(('i', TRUE, v) for v in vals)))

    def new_dict(self, st, items=()):
        return self.alloc(st, Obj('dict', tuple(((), TRUE, k, v)
                                                for k, v in items)))

    def new_set(self, st, vals):
        return self.alloc(st, Obj('set', tuple(('i', TRUE, v) for v in vals)))

    def obj(self, st, t):
        return st.heap.get(t.args[0]) if t.op == 'ref' else None

    def where(self, node):
        f = self.stack[-1] if self.stack else None
        return (f.module.path if f else '?', f.qual if f else '?',
                getattr(node, 'lineno', 0))

    def event(self, kind, name, recv, args, kwargs, st, node):
        e = Event(kind, name, recv, tuple(args), dict(kwargs), st.pc,
                  tuple(self.loops), tuple(self.ctx), self.where(node), node,
                  tuple(f.qual for f in self.stack))
        e.path = st.path
        self.events.append(e)
        return e

    def facts(self, st):
        return {c.id: b for c, b, o in st.pc}

    def truth(self, t, st):
        """condition term for the truthiness of t"""
        t = self.simp(t, st)
        if t.op == 'const':
            return const(bool(t.args[0]))
        if t.op == 'av':
            return const(self.lib.truth(self.lib.store[t.args[0]]))
        if t.op in BOOLOPS:
            return self.norm_cond(t, st)
        if t.op == 'ref':
            o = st.heap[t.args[0]]
            if o.kind in ('list', 'set', 'dict'):
                if not o.data:
                    return FALSE
                c = []
                for s in o.data:
                    g = s[1]
                    if o.kind != 'dict' and s[0] == 'i':
                        if g is TRUE:
                            return TRUE
                        c.append(g)
                    elif o.kind == 'dict' and not s[0]:
                        if g is TRUE:
                            return TRUE
                        c.append(g)
                    else:
                        return lt(ZERO, self.length(t, st))
                return or_(*c)
            if o.kind == 'inst':
                return TRUE
        if t.op in ('tuple', 'list', 'set'):
            return const(bool(t.args))
        if t.op in ('func', 'class', 'ext', 'bound'):
            return TRUE
        if t.op == 'dict' and t.args:
            return TRUE
        if t.op == 'ite':
            return ite(t.args[0], self.truth(t.args[1], st),
                       self.truth(t.args[2], st))
        if t.op in ('len', 'poly') or t.op in ('card',):
            return ne(t, ZERO) if not nonneg(t) else lt(ZERO, t)
        return mk('truth', t)

    def norm_cond(self, t, st):
        f = self.facts(st)
        if t.id in f:
            return const(f[t.id])
        n = not_(t)
        if n.id in f:
            return const(not f[n.id])
        if t.op == 'and':
            return and_(*[self.norm_cond(x, st) for x in t.args])
        if t.op == 'or':
            return or_(*[self.norm_cond(x, st) for x in t.args])
        if t.op == 'lt' and st.pc and self.implied(t, st):
            return TRUE
        return t

    def implied(self, t, st):
        """a < b follows from a single fact by a constant margin"""
        d = sub(t.args[1], t.args[0])
        for c, b, o in st.pc:
            f = c if b else not_(c)
            if f.op in ('lt', 'le') and numeric(f.args[0]) and \
                    numeric(f.args[1]):
                e = sub(d, sub(f.args[1], f.args[0]))
                if f.op == 'lt' and nonneg(e):
                    return True
                if f.op == 'le' and positive(e):
                    return True
        return False

    def simp(self, t, st):
        if t.op == 'ite':
            c = self.norm_cond(t.args[0], st)
            if c.op == 'const':
                return self.simp(t.args[1] if c.args[0] else t.args[2], st)
        return t

    # --------------------------------------------------------------- snapshot
    def snap(self, t, st, memo=None):
        """replace references to containers by their current value"""
        if t.op == 'ref':
            o = st.heap.get(t.args[0])
            if o is None or o.kind in ('inst', 'frame', 'genexp'):
                return t
            if memo and t.id in memo:
                return t
            memo = (memo or set()) | {t.id}
            if o.kind in ('list', 'set'):
                return self.seqterm(o.kind, [
                    (s[0],) + tuple(s[1:-1]) + (self.snap(s[-1], st, memo),)
                    for s in o.data])
            if o.kind == 'dict':
                return mk('dict', *[mk('ent', self.domsterm(l), g,
                                       self.snap(k, st, memo),
                                       self.snap(v, st, memo))
                                    for l, g, k, v in o.data])
            return t
        if t.op == 'ite':
            return ite(t.args[0], self.snap(t.args[1], st, memo),
                       self.snap(t.args[2], st, memo))
        if any(x.op == 'ref' for x in subterms(t)):
            m = {}
            for x in subterms(t):
                if x.op == 'ref':
                    y = self.snap(x, st, memo)
                    if y is not x:
                        m[x.id] = y
            return subst(t, m)
        return t

    def domsterm(self, doms):
        return mk('doms', *[mk('dom', iv, d) for iv, d in doms])

    def seqterm(self, kind, segs):
        if kind == 'set' and not any(s[0] != 'i' for s in segs) and \
                all(s[1] is TRUE for s in segs):
            vs = {s[2].id: s[2] for s in segs}
            return mk('set', *[vs[i] for i in sorted(vs)])
        if all(s[0] == 'i' and s[1] is TRUE for s in segs):
            return mk('list', *[s[2] for s in segs])
        if len(segs) == 1:
            s = segs[0]
            if s[0] == 'x' and s[1] is TRUE:
                return s[2] if kind == 'list' else mk('setof', s[2])
            if s[0] == 'c':
                r = mk('lcomp', self.domsterm(s[1]), s[2], s[3])
                return r if kind == 'list' else mk('setof', r)
        parts = []
        for s in segs:
            if s[0] == 'i':
                parts.append(mk('li', s[1], s[2]))
            elif s[0] == 'x':
                parts.append(mk('lx', s[1], s[2]))
            else:
                parts.append(mk('lcomp', self.domsterm(s[1]), s[2], s[3]))
        r = mk('lcat', *parts)
        return r if kind == 'list' else mk('setof', r)

    def length(self, t, st=None):
        if t.op == 'ref' and st is not None:
            o = st.heap[t.args[0]]
            if o.kind in ('list', 'set', 'dict'):
                t = self.snap(t, st)
                if t.op == 'dict':
                    r = ZERO
                    for e in t.args:
                        r = add(r, models_count(e.args[0], e.args[1]))
                    return r
        if t.op == 'set':
            return self.distinct_count(t.args)
        return self.models.length(t)

    def distinct_count(self, vs):
        """number of different values"""
        n = ZERO
        for i, v in enumerate(vs):
            if v.op == 'const' and all(w.op == 'const' for w in vs[:i]) or \
                    v.op in ('av', 'ref'):
                n = add(n, ONE)
                continue
            n = add(n, ite(or_(*[eq(v, w) for w in vs[:i]]), ZERO, ONE))
        return n

    # ----------------------------------------------------------------- merge
    def merge(self, c, s1, s2):
        """state that is s1 if c else s2 (either may be None)"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if c.op == 'const':
            return s1 if c.args[0] else s2
        h = {}
        for k in s1.heap.keys() | s2.heap.keys():
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b or b is None:
                h[k] = a
            elif a is None:
                h[k] = b
            else:
                h[k] = self.merge_obj(c, a, b)
        pc = []
        other = {(x.id, y) for x, y, o in s2.pc}
        for x in s1.pc:
            if (x[0].id, x[1]) in other:
                pc.append(x)
        return State(h, tuple(pc), join_path(s1.path, s2.path))

    def merge_obj(self, c, a, b):
        if a.kind in ('frame', 'inst'):
            d = {}
            for k in list(a.data) + [k for k in b.data if k not in a.data]:
                x, y = a.data.get(k, UNBOUND), b.data.get(k, UNBOUND)
                d[k] = x if x is y else ite(c, x, y)
            return Obj(a.kind, d, a.cls)
        if a.kind in ('list', 'set'):
            if a.data == b.data:
                return a
            n = 0
            while n < len(a.data) and n < len(b.data) and \
                    a.data[n] == b.data[n]:
                n += 1
            out = list(a.data[:n])
            nc = not_(c)
            ra, rb = a.data[n:], b.data[n:]
            if len(ra) == len(rb) and ra and all(
                    x[0] == y[0] == 'i' and x[1] is y[1]
                    for x, y in zip(ra, rb)) and a.kind == 'list':
                out += [('i', x[1], ite(c, x[2], y[2]))
                        for x, y in zip(ra, rb)]
            else:
                out += [self.gseg(s, c) for s in ra]
                out += [self.gseg(s, nc) for s in rb]
            return Obj(a.kind, tuple(out))
        if a.kind == 'dict':
            if a.data == b.data:
                return a
            out, used = [], set()
            bk = {(e[0], e[2].id): e for e in b.data}
            for e in a.data:
                k = (e[0], e[2].id)
                f = bk.get(k)
                if f is None:
                    out.append((e[0], and_(e[1], c), e[2], e[3]))
                else:
                    used.add(k)
                    out.append((e[0], ite(c, e[1], f[1]), e[2],
                                e[3] if e[3] is f[3] else ite(c, e[3], f[3])))
            for e in b.data:
                if (e[0], e[2].id) not in used:
                    out.append((e[0], and_(e[1], not_(c)), e[2], e[3]))
            return Obj('dict', tuple(out))
        return a

    def gseg(self, s, c):
        if s[0] == 'c':
            return ('c', s[1], and_(s[2], c), s[3])
        return (s[0], and_(s[1], c), s[2])

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        out = Outcome()
        for i, s in enumerate(stmts):
            if st is None:
                break
            o = self.exec_stmt(s, st, fr)
            out.rets += o.rets
            out.brks += o.brks
            out.conts += o.conts
            st = o.fall
        out.fall = st
        return out

    def exec_stmt(self, s, st, fr):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.notes.append('unsupported statement %s at %s' % (
                type(s).__name__, self.where(s)))
            return Outcome(st)
        try:
            return m(s, st, fr)
        except Dead:
            return Outcome(None)

    def x_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return Outcome(st)
        self.ev(s.value, st, fr)
        return Outcome(st)

    def x_Pass(self, s, st, fr):
        return Outcome(st)
    x_Global = x_Pass
    x_Nonlocal = x_Pass

    def x_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.setvar(st, fr, nm, self.modref(
                a.name if a.asname else a.name.split('.')[0]))
        return Outcome(st)

    def x_ImportFrom(self, s, st, fr):
        for a in s.names:
            self.setvar(st, fr, a.asname or a.name,
                        self.resolve_from(s.module or '', a.name))
        return Outcome(st)

    def x_FunctionDef(self, s, st, fr):
        f = Func(self.stack[-1].module, s, fr)
        t = self.functerm(f)
        for d in s.decorator_list:
            self.notes.append('decorated nested function %s' % s.name)
        self.setvar(st, fr, s.name, t)
        return Outcome(st)

    def x_ClassDef(self, s, st, fr):
        self.setvar(st, fr, s.name, self.fresh('localclass ' + s.name))
        return Outcome(st)

    def functerm(self, f):
        self.nextid += 1
        self.funcs[self.nextid] = f
        return mk('func', self.nextid)

    def x_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return Outcome(st)

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return Outcome(st)

    def x_AugAssign(self, s, st, fr):
        tgt = s.target
        load = ast.copy_location(_as_load(tgt), tgt)
        old = self.ev(load, st, fr)
        v = self.ev(s.value, st, fr)
        o = self.obj(st, old)
        if o is not None and o.kind == 'list' and isinstance(s.op, ast.Add):
            self.extend(old, v, st)
            return Outcome(st)
        if o is not None and o.kind == 'set' and isinstance(s.op, ast.BitOr):
            self.extend(old, v, st)
            return Outcome(st)
        self.event('inplace', type(s.op).__name__, old, (v,), {}, st, s)
        self.assign(tgt, self.binop(type(s.op).__name__, old, v, st), st, fr)
        return Outcome(st)

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(st, fr, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fr)
                idx = self.ev(t.slice, st, fr)
                self.event('delitem', 'del', base, (idx,), {}, st, s)
                o = self.obj(st, base)
                if o is not None and o.kind == 'dict':
                    out = []
                    for e in o.data:
                        if e[2] is idx and not e[0]:
                            continue
                        g = e[1]
                        if e[0] and self.loops and e[2] is idx and \
                                self.loops[-1].kind == 'for' and \
                                [d[0] for d in e[0]] == [
                                    d[0] for d in self.loops[-1].doms]:
                            # every iteration deletes its own entry
                            l = self.loops[-1]
                            l.dels[(base.args[0], idx.id)] = and_(
                                l.guard, st.path)
                            out.append(e)
                            continue
                        if e[0]:
                            g = and_(g, not_(mk('deleted', base, e[2],
                                                len(self.events))))
                        out.append((e[0], g, e[2], e[3]))
                    # deletion of abstract entries keeps the entry template
                    st.heap[base.args[0]] = Obj('dict', tuple(
                        e if e[0] else f for e, f in zip(
                            [x for x in o.data if not (x[2] is idx and
                                                       not x[0])], out)))
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st, fr)
                self.event('delattr', t.attr, base, (), {}, st, s)
        return Outcome(st)

    def x_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        self.event('assert', 'assert', None, (c,), {}, st, s)
        if self.lib is not None and c is not TRUE:
            if c is not FALSE:
                self.lib.unknown('assertion %s' % show(c, 3))
            raise raised('AssertionError', st, self.where(s))
        if c is FALSE:
            return Outcome(None)
        if c is not TRUE:
            st.pc = st.pc + ((c, True, 'assert'),)
        return Outcome(st)

    def x_Raise(self, s, st, fr):
        v = self.ev(s.exc, st, fr) if s.exc is not None else NONE
        self.event('raise', 'raise', None, (v,), {}, st, s)
        if self.lib is not None:
            if s.exc is None and self.handling:
                e = self.handling[-1]
                raise LibError(e.names, st, e.why)
            n = v.args[0] if v.op == 'exception' else v.args[
                0].rpartition('.')[2] if v.op == 'ext' else None
            if n is None:
                self.lib.unknown('raise %s' % show(v, 3))
            raise raised(n, st, self.where(s))
        return Outcome(None)

    def x_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        o = Outcome(None)
        o.rets.append((st, v))
        return o

    def x_Break(self, s, st, fr):
        o = Outcome(None)
        o.brks.append(st)
        return o

    def x_Continue(self, s, st, fr):
        o = Outcome(None)
        o.conts.append(st)
        return o

    def decide3(self, c):
        if c.op == 'const':
            return bool(c.args[0])
        d = self.decide(c, self)
        if d is not None:
            return d
        if c.op == 'not':
            d = self.decide3(c.args[0])
            return None if d is None else not d
        if c.op in ('and', 'or'):
            ds = [self.decide3(x) for x in c.args]
            stop = c.op == 'or'
            if stop in ds:
                return stop
            if None not in ds:
                return not stop
        return None

    def branch(self, c, st, then, els, origin='branch'):
        """run two continuations under c / not c and join"""
        if c.op == 'const':
            return (then if c.args[0] else els)(st)
        d = self.decide3(c) if self.decide else None
        if d is None and self.lib is not None:
            self.lib.unknown('condition %s' % show(c, 3))
        if d is not None:
            st.pc = st.pc + ((c, d, 'assume'),)
            return (then if d else els)(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + ((c, True, origin),)
        s2.pc = st.pc + ((c, False, origin),)
        s1.path, s2.path = and_(st.path, c), and_(st.path, not_(c))
        o1, o2 = then(s1), els(s2)
        out = Outcome()
        out.rets = o1.rets + o2.rets
        out.brks = o1.brks + o2.brks
        out.conts = o1.conts + o2.conts
        if o1.fall is not None and o2.fall is not None:
            out.fall = self.merge(c, o1.fall, o2.fall)
        else:
            f = o1.fall or o2.fall
            if f is not None:
                dead = o2 if f is o1.fall else o1
                if not (dead.rets or dead.brks or dead.conts):
                    # the other side always raises
                    if f.path is and_(st.path, c if f is o1.fall
                                      else not_(c)):
                        f.path = st.path
                    f.pc = tuple((a, b, 'raise') if (a is c and o == origin)
                                 else (a, b, o) for a, b, o in f.pc)
            out.fall = f
        return out

    def x_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        return self.branch(c, st,
                           lambda x: self.exec_block(s.body, x, fr),
                           lambda x: self.exec_block(s.orelse, x, fr))

    def x_With(self, s, st, fr):
        return self.with_items(s.items, s.body, st, fr, s)

    def with_items(self, items, body, st, fr, node):
        if not items:
            return self.exec_block(body, st, fr)
        it = items[0]
        cm = self.ev(it.context_expr, st, fr)

        def rest(state, value):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, value, state, fr)
            return self.with_items(items[1:], body, state, fr, node)

        cm = self.simp(cm, st)
        if cm.op == 'gencall':       # @contextmanager generator function
            return self.run_contextmanager(cm, rest, st, fr, node)
        o = self.obj(st, cm)
        e = self.event('enter', 'with', cm, (), {}, st, node)
        if o is not None and o.kind == 'inst' and \
                self.find_method(o.cls, '__enter__'):
            val = self.call_method(cm, '__enter__', [], {}, st, node)
            self.ctx.append(('with', cm, e))
            try:
                out = rest(st, val)
            finally:
                self.ctx.pop()
            if out.fall is not None:
                self.call_method(cm, '__exit__', [NONE, NONE, NONE], {},
                                 out.fall, node)
                self.event('exit', 'with', cm, (), {}, out.fall, node)
            return out
        self.ctx.append(('with', cm, e))
        try:
            out = rest(st, self.models.enter_value(self, cm, st))
        finally:
            self.ctx.pop()
        if out.fall is not None:
            self.event('exit', 'with', cm, (), {}, out.fall, node)
        return out

    def run_contextmanager(self, cm, rest, st, fr, node):
        f = self.funcs[cm.args[0]]
        fr2 = mk('ref', cm.args[1])
        result = []

        saved_stack = list(self.stack)

        def hook(value, state):
            inner = self.stack
            self.stack = saved_stack
            try:
                o = rest(state, value)
            finally:
                self.stack = inner
            result.append(o)
            if o.fall is None:
                raise Dead()
            state.set(o.fall)
            return NONE
        self.stack = self.stack + [f]
        self.yield_hooks.append((cm.args[1], hook))
        try:
            o = self.exec_block(f.node.body, st, fr2)
        finally:
            self.yield_hooks.pop()
            self.stack = saved_stack
        out = Outcome()
        states = [o.fall] if o.fall is not None else []
        states += [s for s, v in o.rets]
        out.fall = self.join_states(states)
        for r in result:
            out.rets += r.rets
            out.brks += r.brks
            out.conts += r.conts
        return out

    def join_states(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        r = states[-1]
        for s in reversed(states[:-1]):
            r = self.merge(self.pcdiff(s, r), s, r)
        return r

    def pcdiff(self, s, r):
        """condition that selects s rather than r"""
        other = {x.id for x in (r.path.args if r.path.op == 'and'
                                else (r.path,))}
        return and_(*[x for x in (s.path.args if s.path.op == 'and'
                                  else (s.path,)) if x.id not in other])

    def x_Try(self, s, st, fr):
        entry = None
        if s.handlers:
            entry = st.copy()
        tid = ('try', s, self.where(s))
        pc0, path0 = st.pc, st.path
        body_ctx = [tid]
        self.ctx.append(tid)
        # NameError idiom: decide from the bindings
        name_guard = None
        if s.handlers and all(self.handler_name(h) in ('NameError',
                                                       'UnboundLocalError')
                              for h in s.handlers):
            conds = []
            for n in ast.walk(ast.Module(s.body, [])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    v = self.getvar_raw(st, fr, n.id)
                    if v is not None:
                        conds.append(unbound_cond(v))
                    elif n.id not in BUILTINS and not self.modname(n.id):
                        conds.append(TRUE)
            name_guard = or_(*conds) if conds else FALSE
        try:
            out = self.exec_block(s.body, st, fr)
        except LibError as e:
            self.ctx.pop()
            return self.lib_handler(s, e, fr, pc0, path0)
        except BaseException:
            self.ctx.pop()
            raise
        self.ctx.pop()
        if self.lib is not None:
            return self.lib_done(s, out, fr)
        if out.fall is not None and s.orelse:
            o2 = self.exec_block(s.orelse, out.fall, fr)
            out.fall = o2.fall
            out.rets += o2.rets
            out.brks += o2.brks
            out.conts += o2.conts
        for i, h in enumerate(s.handlers):
            if name_guard is FALSE:
                break
            hs = entry.copy()
            c = name_guard if name_guard is not None else mk(
                'exc', s.lineno, i, self.handler_name(h) or '')
            if h.name:
                self.setvar(hs, fr, h.name, self.fresh('exception'))
            hs.pc = hs.pc + ((c, True, 'except'),)
            hs.path = and_(hs.path, c)
            self.ctx.append(('handler', s, h))
            try:
                oh = self.exec_block(h.body, hs, fr)
            finally:
                self.ctx.pop()
            out.rets += oh.rets
            out.brks += oh.brks
            out.conts += oh.conts
            if name_guard is not None and c is TRUE:
                out.fall = oh.fall
            elif oh.fall is not None:
                out.fall = self.merge(c, oh.fall, out.fall)
        if s.finalbody:
            self.ctx.append(('finally', s))
            try:
                if out.fall is not None:
                    # the finalizer runs on every exit of the body
                    pc, path = out.fall.pc, out.fall.path
                    out.fall.pc, out.fall.path = pc0, path0
                    of = self.exec_block(s.finalbody, out.fall, fr)
                    out.fall = of.fall
                    if of.fall is not None:
                        of.fall.pc, of.fall.path = pc, path
                    out.rets += of.rets
                elif out.rets:
                    # still log the finalizer's effects once
                    st2 = out.rets[-1][0].copy()
                    self.exec_block(s.finalbody, st2, fr)
                else:
                    self.exec_block(s.finalbody, (entry or st).copy(), fr)
            finally:
                self.ctx.pop()
        return out

    def lib_handler(self, s, e, fr, pc0, path0):
        """an exception the library model raises in the body of a try"""
        for h in s.handlers:
            ts = [None] if h.type is None else h.type.elts if isinstance(
                h.type, ast.Tuple) else [h.type]
            ns = {t.attr if isinstance(t, ast.Attribute) else
                  getattr(t, 'id', None) for t in ts if t is not None}
            if h.type is None or ns & set(e.names):
                st = e.st
                st.pc, st.path = pc0, path0
                if h.name:
                    self.setvar(st, fr, h.name, self.fresh('exception'))
                self.handling.append(e)
                try:
                    return self.lib_done(s, self.exec_block(h.body, st, fr),
                                         fr, handled=True)
                finally:
                    self.handling.pop()
        if s.finalbody:
            o = self.exec_block(s.finalbody, e.st, fr)
            if o.fall is None:
                return o
        raise e

    def lib_done(self, s, out, fr, handled=False):
        if not handled and out.fall is not None and s.orelse:
            o2 = self.exec_block(s.orelse, out.fall, fr)
            o2.rets, o2.brks, o2.conts = out.rets + o2.rets, \
                out.brks + o2.brks, out.conts + o2.conts
            out = o2
        if s.finalbody:
            for x in ([out.fall] if out.fall is not None else []) + [
                    r[0] for r in out.rets]:
                self.exec_block(s.finalbody, x, fr)
        return out

    def handler_name(self, h):
        if h.type is None:
            return None
        if isinstance(h.type, ast.Tuple):
            return '|'.join(sorted(_dotted(e) or '?' for e in h.type.elts))
        return _dotted(h.type)

    # ------------------------------------------------------------------ loops
    def x_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)

        def bindbody(value_fn):
            def run(state):
                v = value_fn(state)
                self.assign(s.target, v, state, fr)
                return self.exec_block(s.body, state, fr)
            return run
        out = self.iterate(it, bindbody, st, s)
        if s.orelse and out.fall is not None:
            o = self.exec_block(s.orelse, out.fall, fr)
            out.fall = o.fall
            out.rets += o.rets
        return out

    def iterate(self, it, bindbody, st, node):
        """run bindbody(value) for the elements of it, in order"""
        it = self.simp(it, st)
        out = Outcome(st)
        segs = self.segments(it, st)
        for seg in segs:
            if out.fall is None:
                break
            st = out.fall
            kind = seg[0]
            if kind == 'i':
                g, v = seg[1], seg[2]
                run = bindbody(v if callable(v) else (lambda s_, v=v: v))
                if g is TRUE:
                    o = run(st)
                else:
                    o = self.branch(self.norm_cond(g, st), st, run,
                                    lambda x: Outcome(x), 'loop')
                out.rets += o.rets
                f = o.fall
                for cs in o.conts:
                    f = self.merge(self.pcdiff(cs, f), cs, f) if f else cs
                out.fall = f
                if o.brks:
                    out.brks += o.brks
            else:
                doms, guard, v = seg[1], seg[2], seg[3]
                o = self.abstract_loop(doms, guard, bindbody(
                    v if callable(v) else (lambda s_, v=v: v)), st, node)
                out.rets += o.rets
                out.fall = o.fall
        for b in out.brks:
            out.fall = self.merge(self.pcdiff(b, out.fall), b, out.fall) \
                if out.fall is not None else b
        out.brks = []
        return out

    def depth_of(self, dom):
        return sum(1 for l in self.loops for _, d in l.doms if d is dom)

    def ivar(self, dom):
        return mk('iv', dom, self.depth_of(dom))

    def rng(self, n):
        return mk('range', ZERO, n, ONE)

    def hashed(self, o):
        return tuple(self.hash_order(o.data)) if o.kind == 'set' else o.data

    def hash_order(self, segs):
        """the elements of a set, in one of the orders strings may hash to
        (set_order: None the order of insertion, 1 or -1 that of the names)
        """
        if self.set_order is None or len(segs) < 2 or any(
                s[0] != 'i' or s[1] is not TRUE or not hashes(s[2])
                for s in segs):
            return segs
        self.permuted += 1
        return sorted(segs, key=lambda s: show(s[2], 9),
                      reverse=self.set_order < 0)

    def segments(self, it, st):
        """decompose an iterable into concrete items and abstract segments"""
        o = self.obj(st, it)
        if it.op == 'av':
            return [('i', TRUE, self.lib.term(self, x, st))
                    for x in self.lib.seq(self.lib.store[it.args[0]])]
        if o is not None:
            if o.kind in ('list', 'set'):
                segs = []
                for s in self.hashed(o):
                    if s[0] == 'i':
                        segs.append(s)
                    elif s[0] == 'x':
                        for z in self.segments(s[2], st):
                            segs.append(self.gseg2(z, s[1]))
                    else:
                        segs.append(self.reloop(s[1], s[2], s[3]))
                return segs
            if o.kind == 'dict':
                segs = []
                for l, g, k, v in o.data:
                    if l:
                        segs.append(self.reloop(l, g, k))
                    else:
                        segs.append(('i', g, k))
                return segs
            if o.kind == 'genexp':
                return [('g', it)] if False else self.genexp_segments(it, o, st)
            if o.kind == 'inst':
                return [self.seq_seg(mk('iterof', it))]
        if it.op == 'ite':
            segs = []
            for c, t in ((it.args[0], it.args[1]),
                         (not_(it.args[0]), it.args[2])):
                for z in self.segments(t, st):
                    segs.append(self.gseg2(z, c))
            return segs
        if it.op in ('tuple', 'list', 'vec'):
            return [('i', TRUE, x) for x in it.args]
        if it.op == 'set':
            return self.hash_order([('i', TRUE, x) for x in sorted(
                it.args, key=lambda t: (t.op, repr(t.args) if
                                        t.op == 'const' else show(t)))])
        if it.op == 'dict':
            return [('i', e.args[1], e.args[2]) if not e.args[0].args else
                    self.reloop(tuple((d.args[0], d.args[1])
                                      for d in e.args[0].args),
                                e.args[1], e.args[2]) for e in it.args]
        if it.op == 'lcat':
            segs = []
            for p in it.args:
                if p.op == 'li':
                    segs.append(('i', p.args[0], p.args[1]))
                elif p.op == 'lx':
                    for z in self.segments(p.args[1], st):
                        segs.append(self.gseg2(z, p.args[0]))
                else:
                    segs.append(self.reloop(
                        tuple((d.args[0], d.args[1]) for d in p.args[0].args),
                        p.args[1], p.args[2]))
            return segs
        if it.op == 'lcomp':
            return [self.reloop(tuple((d.args[0], d.args[1])
                                      for d in it.args[0].args),
                                it.args[1], it.args[2])]
        if it.op == 'setof':
            return self.segments(it.args[0], st)
        if it.op == 'range':
            lo, hi, stp = it.args
            if is_num(lo) and is_num(hi) and is_num(stp) and \
                    abs(hi.args[0] - lo.args[0]) <= 64:
                return [('i', TRUE, const(i)) for i in
                        range(lo.args[0], hi.args[0], stp.args[0])]
            iv = self.ivar(it)
            return [('c', ((iv, it),), TRUE, iv)]
        if it.op == 'const' and isinstance(it.args[0], str):
            return [('i', TRUE, const(ch)) for ch in it.args[0]]
        if it.op == 'zip':
            return self.zip_segments([self.segments(a, st) for a in it.args],
                                     it, st)
        if it.op == 'enumerate':
            segs = self.segments(it.args[0], st)
            start = it.args[1]
            if all(s[0] == 'i' and s[1] is TRUE for s in segs):
                return [('i', TRUE, tup(add(start, const(i)), s[2]))
                        for i, s in enumerate(segs)]
            if len(segs) == 1 and segs[0][0] == 'c' and \
                    len(segs[0][1]) == 1:
                doms, g, v = segs[0][1:]
                iv, d = doms[0]
                if d.op == 'range' and g is TRUE and d.args[2] is ONE:
                    pos = sub(iv, d.args[0])
                else:
                    pos = mk('ordinal', iv, g)
                return [('c', doms, g, tup(add(start, pos), v))]
            return [self.seq_seg(it)]
        if it.op == 'items':
            return self.item_segments(it.args[0], st)
        if it.op == 'reversed':
            segs = self.segments(it.args[0], st)
            if all(s[0] == 'i' for s in segs):
                return list(reversed(segs))
            if len(segs) == 1 and segs[0][0] == 'c':
                return segs     # order is kept by the domain of the caller
            return [self.seq_seg(it)]
        if it.op == 'groupby':
            iv = mk('gkey', it, self.depth_of(it))
            return [('c', ((iv, it),), TRUE,
                     tup(iv, self.models.group_frame(it, iv)))]
        if it.op in ('groups', 'gsize'):
            gb = it.args[0]
            iv = mk('gkey', gb, self.depth_of(gb))
            if it.op == 'gsize':
                return [('c', ((iv, gb),), TRUE,
                         self.models.gi(it, iv))]
            return [('c', ((iv, gb),), TRUE, iv)]
        return [self.seq_seg(it)]

    def gseg2(self, s, g):
        if s[0] == 'c':
            return ('c', s[1], and_(s[2], g), s[3])
        return (s[0], and_(s[1], g), s[2])

    def item_segments(self, d, st):
        d = self.simp(d, st)
        o = self.obj(st, d)
        if o is not None and o.kind == 'dict':
            segs = []
            for l, g, k, v in o.data:
                if l:
                    segs.append(self.reloop(l, g, tup(k, v)))
                else:
                    segs.append(('i', g, tup(k, v)))
            return segs
        if d.op == 'dict':
            return [('i', e.args[1], tup(e.args[2], e.args[3]))
                    if not e.args[0].args else
                    self.reloop(tuple((x.args[0], x.args[1])
                                      for x in e.args[0].args),
                                e.args[1], tup(e.args[2], e.args[3]))
                    for e in d.args]
        if d.op in ('groups', 'gsize'):
            gb = d.args[0]
            iv = mk('gkey', gb, self.depth_of(gb))
            return [('c', ((iv, gb),), TRUE, tup(iv, self.models.gi(d, iv)))]
        if d.op == 'ite':
            return [self.gseg2(s, d.args[0])
                    for s in self.item_segments(d.args[1], st)] + \
                   [self.gseg2(s, not_(d.args[0]))
                    for s in self.item_segments(d.args[2], st)]
        dom = mk('keys', d)
        iv = self.ivar(dom)
        return [('c', ((iv, dom),), TRUE, tup(iv, self.models.gi(d, iv)))]

    def reloop(self, doms, guard, val):
        """re-open a stored comprehension, renaming clashing variables"""
        m = {}
        nd = []
        for iv, d in doms:
            d2 = subst(d, m)
            k = self.depth_of(d2) + sum(1 for _, x in nd if x is d2)
            iv2 = mk(iv.op, d2, k)
            if iv2 is not iv:
                m[iv.id] = iv2
            nd.append((iv2, d2))
        return ('c', tuple(nd), subst(guard, m), subst(val, m))

    def seq_seg(self, it):
        dom = self.rng(self.models.length(it))
        iv = self.ivar(dom)
        return ('c', ((iv, dom),), TRUE, self.models.gi(it, iv))

    def zip_segments(self, lists, it, st):
        if all(s[0] == 'i' and s[1] is TRUE for l in lists for s in l):
            return [('i', TRUE, tup(*[s[2] for s in row]))
                    for row in zip(*lists)]
        if all(len(l) == 1 and l[0][0] == 'c' and len(l[0][1]) == 1 and
               l[0][2] is TRUE for l in lists):
            d0 = lists[0][0][1][0][1]
            vals = []
            # all lists run over a domain of the same length
            iv0 = lists[0][0][1][0][0]
            same = all(l[0][1][0][1] is d0 for l in lists)
            if same or all(l[0][1][0][1].op == 'range' and
                           l[0][1][0][1].args[2] is ONE for l in lists):
                if not same:
                    lens = [sub(l[0][1][0][1].args[1], l[0][1][0][1].args[0])
                            for l in lists]
                    n = lens[0]
                    for x in lens[1:]:
                        n = minmax('min', n, x)
                    dom = self.rng(n)
                    iv = self.ivar(dom)
                    for l in lists:
                        (i, d), = l[0][1]
                        vals.append(subst(l[0][3], {i.id: add(
                            iv, d.args[0])}))
                    return [('c', ((iv, dom),), TRUE, tup(*vals))]
                for l in lists:
                    (i, d), = l[0][1]
                    vals.append(subst(l[0][3], {i.id: iv0}))
                return [('c', ((iv0, d0),), TRUE, tup(*vals))]
        parts = []
        n = None
        for a in it.args:
            a = self.snap(a, st)
            parts.append(a)
            x = self.models.length(a)
            n = x if n is None else minmax('min', n, x)
        dom = self.rng(n)
        iv = self.ivar(dom)
        return [('c', ((iv, dom),), TRUE,
                 tup(*[self.models.gi(p, iv) for p in parts]))]

    def genexp_segments(self, it, o, st):
        node, fr = o.data
        gens = node.generators

        def expand(k, frame_bind):
            pass
        # only one generator is opened lazily; nested ones are eager
        g = gens[0]
        src = o.cls
        segs = []
        for s in self.segments(src, st):
            def val(state, s=s):
                fr2 = self.alloc(state, Obj('frame', {}, fr))
                v = s[-1](state) if callable(s[-1]) else s[-1]
                self.assign(g.target, v, state, fr2)
                if len(gens) == 1 and not g.ifs:
                    return self.ev(node.elt, state, fr2)
                return self.ev(node.elt, state, fr2)
            if len(gens) > 1 or g.ifs:
                return self.segments(self.comp_eager(node, 'list', st, fr),
                                     st)
            if s[0] == 'i':
                segs.append(('i', s[1], val))
            else:
                segs.append(('c', s[1], s[2], val))
        return segs

    # value slots of the heap that differ between two states
    def diff(self, h0, h1):
        out = []
        for k, a in h0.items():
            b = h1.get(k)
            if b is a or b is None:
                continue
            if a.kind in ('frame', 'inst'):
                for n in set(a.data) | set(b.data):
                    if a.data.get(n, UNBOUND) is not b.data.get(n, UNBOUND):
                        out.append((k, 'v', n))
            elif a.kind in ('list', 'set'):
                if a.data != b.data:
                    out.append((k, 'L', None))
            elif a.kind == 'dict':
                if a.data != b.data:
                    ka = {e[2].id: e for e in a.data if not e[0]}
                    kb = {e[2].id: e for e in b.data if not e[0]}
                    for i, e in ka.items():
                        f = kb.get(i)
                        if f is not None and (f[3] is not e[3] or
                                              f[1] is not e[1]):
                            out.append((k, 'K', e[2]))
                    if any((e[0], e[2].id) not in
                           {(f[0], f[2].id) for f in a.data}
                           for e in b.data):
                        out.append((k, 'D', None))
        return out

    def slot_get(self, st, slot):
        k, kind, n = slot
        o = st.heap.get(k)
        if o is None:
            return UNBOUND
        if kind == 'v':
            return o.data.get(n, UNBOUND)
        if kind == 'K':
            for e in o.data:
                if e[2] is n and not e[0]:
                    return e[3]
        return UNBOUND

    def slot_set(self, st, slot, v):
        k, kind, n = slot
        o = st.heap[k]
        if kind == 'v':
            d = dict(o.data)
            d[n] = v
            st.heap[k] = Obj(o.kind, d, o.cls)
        elif kind == 'K':
            st.heap[k] = Obj('dict', tuple(
                (e[0], e[1], e[2], v) if e[2] is n and not e[0] else e
                for e in o.data))

    def loop_states(self, o):
        return [s for s in [o.fall] + o.conts if s is not None]

    def run_body(self, body, st, loop, brk_as_cont=True):
        self.loops.append(loop)
        self.iterations += 1
        if self.iterations > 60000:
            raise AnalysisBroken('loop analysis does not converge')
        try:
            return body(st)
        finally:
            self.loops.pop()

    def abstract_loop(self, doms, guard, body, st, node, cond_fn=None):
        kind = 'while' if cond_fn else 'for'
        loop = Loop(kind, doms, guard, node, self.where(node))
        loop.entry = and_(st.path, *[c if b else not_(c)
                                     for c, b, o in st.pc])
        entry = st.copy()

        def prep(slots, values):
            s = entry.copy()
            s.path = TRUE
            for sl in slots:
                if sl[1] in ('v', 'K'):
                    self.slot_set(s, sl, values[sl])
                else:
                    o = s.heap[sl[0]]
                    if o.kind in ('list', 'set'):
                        s.heap[sl[0]] = Obj(o.kind, o.data + (
                            ('x', TRUE, mk('grow', loop.id, sl[0])),))
                    elif sl[0] in dphi:
                        phi = dphi[sl[0]]
                        dom = mk('keys', phi)
                        iv = self.ivar(dom)
                        s.heap[sl[0]] = Obj('dict', o.data + (
                            (((iv, dom),), TRUE, iv, mk('getitem', phi, iv)),))
            if cond_fn:
                c = self.truth(cond_fn(s), s)
                loop.cond = c
                if c is not TRUE:
                    s.pc = s.pc + ((c, True, 'while'),)
            if guard is not TRUE:
                s.pc = s.pc + ((guard, True, 'loop'),)
            return s

        def once(slots, values):
            mark = len(self.events)
            s = prep(slots, values)
            o = self.run_body(body, s, loop)
            states = self.loop_states(o)
            brks = o.brks
            end = self.join_states(states + brks)
            return o, end, mark

        slots, values, dphi = [], {}, {}
        seen, self.dreads = self.dreads, set()
        # discover the loop-carried slots to a fixpoint
        for _ in range(6):
            mark = len(self.events)
            uniq = self.uniq
            o, end, _m = once(slots, values)
            if end is None:
                break
            found = [s for s in self.diff(entry.heap, end.heap)]
            new = [s for s in found if s not in slots]
            # tables that grow and are looked up in the same loop
            grown = [s[0] for s in found if s[1] == 'D' and
                     s[0] in self.dreads and s[0] not in dphi]
            for k in grown:
                dphi[k] = mk('phi', loop.id, 'dict', k)
            if not new and not grown:
                break
            del self.events[mark:]
            for s in new:
                slots.append(s)
                if s[1] in ('v', 'K'):
                    nm = s[2] if s[1] == 'v' else show(s[2])
                    values[s] = mk('phi', loop.id, '%s' % (nm,), s[0])
        self.dreads |= seen
        if end is None:
            # the body never completes an iteration normally
            out = Outcome(entry)
            out.rets = self.loop_rets(o, entry, doms, guard, loop)
            if o.brks:
                out.fall = self.join_states([entry] + o.brks)
            return out
        loop.brk = [self.pcdiff(b, entry) for b in o.brks]
        # solve recurrences
        inits = {s: self.slot_get(entry, s) for s in slots}
        nexts = {s: self.slot_get(end, s) for s in slots}
        for k, phi in dphi.items():
            ref = mk('ref', k)
            self.phi_info[phi.id] = (loop, self.snap(ref, entry),
                                     self.snap(ref, end))
        finals = {}
        solved = {}
        doms_t = self.domsterm(doms)
        phis = {values[s].id for s in slots if s in values}

        def has_phi(t):
            return any(x.id in phis for x in subterms(t))
        brk = loop.brk and not all(b is FALSE for b in loop.brk)
        for s in slots:
            if s[1] not in ('v', 'K'):
                continue
            phi, init, nxt = values[s], inits[s], nexts[s]
            self.phi_info[phi.id] = (loop, init, nxt)
            if nxt is phi:
                solved[s] = init
                finals[s] = init
                continue
            if kind == 'while':
                finals[s] = phi
                continue
            fin = None
            if brk and not (nxt.op == 'ite' and all(
                    b is not_(nxt.args[0]) or b is nxt.args[0]
                    for b in loop.brk)):
                finals[s] = mk('loopout', phi, init, nxt)
                continue
            if nxt.op == 'ite':
                # forall / exists pattern
                c, a, b = nxt.args
                if a is phi and not has_phi(c) and not has_phi(b) and \
                        not depends(b, doms):
                    fin = ite(mk('forall', doms_t, guard, c), init, b)
                elif b is phi and not has_phi(c) and not has_phi(a) and \
                        not depends(a, doms):
                    fin = ite(mk('forall', doms_t, guard, not_(c)), init, a)
            elif nxt.op == 'and' and phi in nxt.args:
                rest = and_(*[x for x in nxt.args if x is not phi])
                if not has_phi(rest):
                    fin = and_(init, mk('forall', doms_t, guard, rest))
            elif nxt.op == 'or' and phi in nxt.args:
                rest = or_(*[x for x in nxt.args if x is not phi])
                if not has_phi(rest):
                    fin = or_(init, not_(mk('forall', doms_t, guard,
                                            not_(rest))))
            if fin is not None:
                finals[s] = fin
                continue
            if nxt.op == 'ite' and isbool(nxt.args[0]):
                e = map_ite(nxt, lambda x: sub(x, phi) if numeric(x)
                            else x)
            else:
                e = sub(nxt, phi) if numeric(nxt) and numeric(init) else nxt
            if not has_phi(e) and numeric(init) and not has_unbound(init) \
                    and has_phi(nxt) and not brk:
                if len(doms) == 1 and not depends(e, doms) and \
                        guard is TRUE and doms[0][1].op == 'range' and \
                        doms[0][1].args[2] is ONE:
                    iv, d = doms[0]
                    solved[s] = add(init, mul(e, sub(iv, d.args[0])))
                    finals[s] = add(init, mul(e, sub(d.args[1], d.args[0])))
                else:
                    solved[s] = add(init, mk('psum', doms_t, guard, e))
                    finals[s] = add(init, mk('sum', doms_t, guard, e))
                continue
            f = fill_pattern(nxt, phi)
            if f is not None and not any(has_phi(x) for u in f for x in u):
                r = init
                for g, idx, val in f:
                    r = mk('fill', r, doms_t, and_(guard, g), idx, val)
                finals[s] = r
                continue
            if not has_phi(nxt) and not has_unbound(nxt):
                finals[s] = mk('lastof', doms_t, guard, nxt, init)
                continue
            finals[s] = mk('loopout', phi, init, nxt)
        loop.slots = {self.slotname(s): (values[s], inits[s], nexts[s])
                      for s in slots if s in values}
        used = set()
        if solved and any(solved[s] is not values[s] for s in solved):
            # second pass with the solved values, for exact event arguments
            vals = dict(values)
            vals.update(solved)
            del self.events[mark:]
            # opaque values are the same as in the recurrences
            top, self.uniq = self.uniq, uniq
            o, end, _m = once(slots, vals)
            self.uniq = max(top, self.uniq)
            m = {values[s].id: v for s, v in solved.items()}
            for s in slots:
                if s in finals:
                    finals[s] = subst(finals[s], m)
        # after-state
        out = Outcome()
        after = entry.copy()
        # objects allocated in the body stay reachable as templates
        for k, v in end.heap.items():
            if k not in after.heap:
                after.heap[k] = v
        for s in slots:
            if s in finals:
                self.slot_set(after, s, finals[s])
        for s in slots:
            k = s[0]
            if s[1] == 'L':
                a, b = entry.heap[k], end.heap[k]
                data = list(a.data)
                n = len(a.data) + 1
                if b.data[:len(a.data)] == a.data:
                    for seg in b.data[n:]:
                        data.append(self.lift(seg, doms, guard, loop))
                else:
                    data = [('x', TRUE, mk('loopseq', loop.id, k))]
                after.heap[k] = Obj(a.kind, tuple(data))
            elif s[1] == 'D':
                a, b = after.heap[k], end.heap[k]
                have = {(e[0], e[2].id) for e in a.data}
                data = list(a.data)
                own = [e for e in b.data if k not in dphi or not e[0] or
                       e[0][0][1] is not mk('keys', dphi[k])]
                if k in dphi and any(
                        x is dphi[k] for e in own for t in e[1:]
                        for x in subterms(t)):
                    t = mk('loopout', *((dphi[k],) +
                                        self.phi_info[dphi[k].id][1:]))
                    iv = self.ivar(mk('keys', t))
                    after.heap[k] = Obj('dict', (
                        (((iv, mk('keys', t)),), TRUE, iv,
                         mk('getitem', t, iv)),))
                    continue
                for e in own:
                    if (e[0], e[2].id) in have:
                        continue
                    if kind == 'while':
                        l = ((mk('wv', loop.id), mk('while', loop.id)),)
                    else:
                        l = doms
                    data.append((l + e[0], and_(guard, e[1]), e[2], e[3]))
                after.heap[k] = Obj('dict', tuple(data))
        for (k, kid), g in loop.dels.items():
            o_ = after.heap.get(k)
            if o_ is not None:
                after.heap[k] = Obj(o_.kind, tuple(
                    (e[0], and_(e[1], not_(g)), e[2], e[3])
                    if e[2].id == kid and e[0] else e for e in o_.data),
                    o_.cls)
        if kind == 'while':
            # the loop is left when the condition fails at the head
            if not brk:
                c = loop.cond
                if c is not None and c.op != 'const':
                    after.pc = after.pc + ((c, False, 'while'),)
        out.fall = after
        out.rets = self.loop_rets(o, entry, doms, guard, loop)
        return out

    def loop_rets(self, o, entry, doms, guard, loop):
        for s, v in o.rets:
            if loop.kind == 'while':
                c = mk('exists', mk('while', loop.id), s.path)
            else:
                c = not_(mk('forall', self.domsterm(doms), guard,
                            not_(s.path)))
            s.path = and_(entry.path, c)
        return list(o.rets)

    def slotname(self, s):
        return str(s[2]) if s[1] == 'v' else show(s[2]) if s[2] is not None \
            else str(s[0])

    def lift(self, seg, doms, guard, loop):
        if loop.kind == 'while':
            doms = ((mk('wv', loop.id), mk('while', loop.id)),)
        if seg[0] == 'i':
            return ('c', doms, and_(guard, seg[1]), seg[2])
        if seg[0] == 'c':
            return ('c', doms + seg[1], and_(guard, seg[2]), seg[3])
        t = seg[2]
        d = self.rng(self.models.length(t))
        iv = mk('iv', d, 7)
        return ('c', doms + ((iv, d),), and_(guard, seg[1]),
                self.models.gi(t, iv))

    def x_While(self, s, st, fr):
        # a statically false condition never runs
        c0 = self.truth(self.ev(s.test, st.copy(), fr), st)
        if c0 is FALSE:
            return Outcome(st)

        def cond(state):
            return self.ev(s.test, state, fr)

        def body(state):
            return self.exec_block(s.body, state, fr)
        return self.abstract_loop((), TRUE, body, st, s, cond_fn=cond)

    # ------------------------------------------------------------ assignment
    def setvar(self, st, fr, name, v):
        f = fr
        o = st.heap[f.args[0]]
        # nonlocal declarations
        while o.kind == 'frame' and name in o.data.get('%nonlocal', ()):
            f = o.cls
            o = st.heap[f.args[0]]
        d = dict(o.data)
        d[name] = v
        st.heap[f.args[0]] = Obj('frame', d, o.cls)

    def getvar_raw(self, st, fr, name):
        f = fr
        while f is not None and f.op == 'ref':
            o = st.heap[f.args[0]]
            if name in o.data:
                return o.data[name]
            f = o.cls
        return None

    def assign(self, tgt, v, st, fr):
        if isinstance(tgt, ast.Name):
            self.setvar(st, fr, tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tgt.elts)
                    if isinstance(e, ast.Starred)]
            o = self.obj(st, v)
            if star:
                items = self.concrete_items(v, st)
                i = star[0]
                if items is not None:
                    k = len(tgt.elts) - i - 1
                    for e, x in zip(tgt.elts[:i], items[:i]):
                        self.assign(e, x, st, fr)
                    self.assign(tgt.elts[i].value, self.new_list(
                        st, items[i:len(items) - k]), st, fr)
                    for e, x in zip(tgt.elts[i + 1:], items[len(items) - k:]):
                        self.assign(e, x, st, fr)
                    return
            items = None if star else self.concrete_items(v, st)
            if items is not None and len(items) == len(tgt.elts):
                for e, x in zip(tgt.elts, items):
                    self.assign(e, x, st, fr)
                return
            for i, e in enumerate(tgt.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, self.getitem(v, const(i), st), st, fr)
        elif isinstance(tgt, ast.Attribute):
            base = self.ev(tgt.value, st, fr)
            self.setattr_(base, tgt.attr, v, st, tgt)
        elif isinstance(tgt, ast.Subscript):
            base = self.ev(tgt.value, st, fr)
            idx = self.ev(tgt.slice, st, fr)
            self.setitem(base, idx, v, st, tgt, fr)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, st, fr)

    def setattr_(self, base, name, v, st, node):
        base = self.simp(base, st)
        if base.op == 'av':
            self.lib.setattr(self, base, name, v, st)
            return
        o = self.obj(st, base)
        if o is not None and o.kind == 'inst':
            d = dict(o.data)
            d[name] = v
            st.heap[base.args[0]] = Obj('inst', d, o.cls)
        self.event('setattr', name, base, (v,), {}, st, node)

    def setitem(self, base, idx, v, st, tgt, fr):
        base = self.simp(base, st)
        if base.op == 'av':
            self.lib.setitem(self, base, idx, v, st)
            return
        o = self.obj(st, base)
        sv = self.snap(v, st)
        if o is not None and o.kind == 'dict':
            data = []
            done = False
            for e in o.data:
                if e[2] is idx and not e[0]:
                    data.append(((), TRUE, idx, v))
                    done = True
                else:
                    data.append(e)
            if not done:
                data.append(((), TRUE, idx, v))
            st.heap[base.args[0]] = Obj('dict', tuple(data))
            self.event('dictset', 'setitem', base, (idx, v), {}, st, tgt)
            return
        if o is not None and o.kind == 'list':
            segs = list(o.data)
            if is_num(idx) and all(s[0] == 'i' for s in segs) and \
                    -len(segs) <= idx.args[0] < len(segs):
                segs[idx.args[0]] = ('i', TRUE, v)
                st.heap[base.args[0]] = Obj('list', tuple(segs))
            else:
                new = mk('upd', self.snap(base, st), idx, sv)
                st.heap[base.args[0]] = Obj('list', (('x', TRUE, new),))
            return
        e = self.event('store', 'setitem', base,
                       (self.snap(idx, st), sv), {}, st, tgt)
        if self.models.is_h5(base):
            return
        new = self.models.upd(base, self.snap(idx, st), sv)
        b = tgt.value
        if isinstance(b, ast.Name):
            self.setvar(st, fr, b.id, new)
        elif isinstance(b, ast.Attribute):
            ob = self.ev(b.value, st, fr)
            oo = self.obj(st, ob)
            if oo is not None and oo.kind == 'inst':
                d = dict(oo.data)
                d[b.attr] = new
                st.heap[ob.args[0]] = Obj('inst', d, oo.cls)
        elif isinstance(b, ast.Subscript):
            outer = self.ev(b.value, st, fr)
            oo = self.obj(st, outer)
            if oo is not None and oo.kind in ('dict', 'list'):
                self.setitem(outer, self.ev(b.slice, st, fr), new, st, b, fr)

    def concrete_items(self, v, st):
        if v.op == 'av':
            return [self.lib.term(self, x, st)
                    for x in self.lib.seq(self.lib.store[v.args[0]])]
        if v.op in ('tuple', 'list', 'vec'):
            return list(v.args)
        o = self.obj(st, v)
        if o is not None and o.kind in ('list', 'set') and all(
                s[0] == 'i' and s[1] is TRUE for s in o.data):
            return [s[2] for s in self.hashed(o)]
        if o is not None and o.kind == 'genexp':
            v2 = self.comp_eager(o.data[0], 'list', st, o.data[1])
            return self.concrete_items(v2, st)
        if v.op == 'dict' and all(e.args[1] is TRUE and not e.args[0].args
                                  for e in v.args):
            return [e.args[2] for e in v.args]
        if o is not None and o.kind == 'dict' and all(
                e[1] is TRUE and not e[0] for e in o.data):
            return [e[2] for e in o.data]
        segs = None
        if v.op in ('zip', 'enumerate', 'range', 'items', 'reversed', 'set'):
            segs = self.segments(v, st)
            if all(s[0] == 'i' and s[1] is TRUE and not callable(s[2])
                   for s in segs):
                return [s[2] for s in segs]
        return None

    def extend(self, ref, v, st):
        o = st.heap[ref.args[0]]
        v = self.simp(v, st)
        ov = self.obj(st, v)
        if ov is not None and ov.kind in ('list', 'set'):
            add_ = self.hashed(ov)
        else:
            items = self.concrete_items(v, st)
            if items is not None:
                add_ = tuple(('i', TRUE, x) for x in items)
            elif ov is not None and ov.kind in ('genexp', 'dict'):
                lst = self.to_list(v, st)
                add_ = st.heap[lst.args[0]].data
            else:
                add_ = (('x', TRUE, self.snap(v, st)),)
        if o.kind == 'set':
            have = {s[2].id for s in o.data if s[0] == 'i' and s[1] is TRUE}
            add_ = tuple(s for s in add_ if not (
                s[0] == 'i' and s[2].id in have))
        st.heap[ref.args[0]] = Obj(o.kind, o.data + add_)

    def to_list(self, v, st, kind='list'):
        v = self.simp(v, st)
        o = self.obj(st, v)
        if o is not None and o.kind in ('list', 'set'):
            segs = self.hashed(o)
            if kind == 'set':
                segs = self.dedup(segs)
            return self.alloc(st, Obj(kind, segs))
        if o is not None and o.kind == 'genexp':
            return self.comp_eager(o.data[0], kind, st, o.data[1], o.cls)
        items = self.concrete_items(v, st)
        if items is not None:
            segs = tuple(('i', TRUE, x) for x in items)
            if kind == 'set':
                segs = self.dedup(segs)
            return self.alloc(st, Obj(kind, segs))
        if o is not None and o.kind == 'dict' or v.op in (
                'zip', 'enumerate', 'items', 'ite', 'reversed', 'dict',
                'groups', 'lcomp', 'lcat'):
            segs = []
            for s in self.segments(v, st):
                segs.append(s if s[0] == 'i' else ('c', s[1], s[2], s[3]))
            return self.alloc(st, Obj(kind, tuple(segs)))
        t = self.snap(v, st)
        if kind == 'list':
            return self.alloc(st, Obj('list', (('x', TRUE, t),)))
        return self.alloc(st, Obj('set', (('x', TRUE, t),)))

    def dedup(self, segs):
        out, seen = [], set()
        for s in segs:
            if s[0] == 'i' and s[1] is TRUE:
                if s[2].id in seen:
                    continue
                seen.add(s[2].id)
            out.append(s)
        return tuple(out)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.notes.append('unsupported expression %s at %s' % (
                type(n).__name__, self.where(n)))
            return self.fresh(type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return ELLIPSIS if n.value is Ellipsis else const(n.value)

    def e_Name(self, n, st, fr):
        v = self.getvar_raw(st, fr, n.id)
        if v is not None and v is not UNBOUND:
            if has_unbound(v):
                v = strip_unbound(v)
            return self.simp(v, st)
        g = self.modname(n.id, st, fr)
        if g is not None:
            return g
        if n.id in BUILTINS:
            return mk('ext', n.id)
        self.event('undefined', n.id, None, (), {}, st, n)
        return mk('undef', n.id)

    def modname(self, name, st=None, fr=None):
        f = self.stack[-1] if self.stack else None
        while fr is not None and fr.op == 'ref':
            if fr.args[0] in self.framefunc:
                f = self.framefunc[fr.args[0]]
                break
            fr = st.heap[fr.args[0]].cls
        if f is None:
            return None
        return self.module_attr(f.module, name, st)

    def shared(self, key, node, m, st):
        """the one mutable object a definition makes, when library values
        are modelled and the run is concrete; None otherwise"""
        if self.lib is None or not isinstance(node, (
                ast.List, ast.Dict, ast.Set, ast.Call)) or isinstance(
                node, ast.Call) and not (isinstance(
                    node.func, ast.Name) and node.func.id in (
                        'list', 'dict', 'set') and not node.args):
            return None
        r = self.kept.get(key)
        if r is None or r.op == 'ref' and r.args[0] not in st.heap:
            fr = self.alloc(st, Obj('frame', {}, None))
            self.stack.append(Func(m, ast.parse('def _m(): pass').body[0]))
            try:
                r = self.kept[key] = self.ev(node, st, fr)
            finally:
                self.stack.pop()
        return r

    def module_attr(self, m, name, st=None):
        key = (m.name, name)
        d = m.defs.get(name)
        if st is not None and d is not None and d[0] == 'expr':
            r = self.shared(key, d[1], m, st)
            if r is not None:
                return r
        if key in self.modcache:
            return self.modcache[key]
        d = m.defs.get(name)
        r = None
        if d is not None:
            if d[0] == 'func':
                r = self.functerm(Func(m, d[1]))
            elif d[0] == 'class':
                r = mk('class', m.name + ':' + name)
            elif d[0] == 'mod':
                r = self.modref(d[1])
            elif d[0] == 'from':
                r = self.resolve_from(d[1], d[2])
            elif d[0] == 'expr':
                self.modcache[key] = mk('global', m.name, name)
                st = State()
                fr = self.alloc(st, Obj('frame', {}, None))
                self.stack.append(Func(m, ast.parse('def _m(): pass').body[0]))
                try:
                    r = self.snap(self.ev(d[1], st, fr), st)
                except Dead:
                    r = mk('global', m.name, name)
                finally:
                    self.stack.pop()
        elif m.name + '.' + name in self.repo.modules:
            r = self.modref(m.name + '.' + name)
        if r is not None:
            self.modcache[key] = r
        return r

    def modref(self, name):
        if name in self.repo.modules:
            return mk('module', name)
        return mk('ext', self.models.canon_ext(name))

    def resolve_from(self, base, name):
        if base + '.' + name in self.repo.modules:
            return mk('module', base + '.' + name)
        if base in self.repo.modules:
            r = self.module_attr(self.repo.modules[base], name)
            if r is not None:
                return r
        return mk('ext', self.models.canon_ext((base + '.' if base else '')
                                               + name))

    def e_Tuple(self, n, st, fr):
        vals = self.ev_elts(n.elts, st, fr)
        return tup(*vals) if vals is not None else self.fresh('tuple')

    def ev_elts(self, elts, st, fr):
        vals = []
        for e in elts:
            if isinstance(e, ast.Starred):
                x = self.concrete_items(self.ev(e.value, st, fr), st)
                if x is None:
                    return None
                vals += x
            else:
                vals.append(self.ev(e, st, fr))
        return vals

    def e_List(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            r = self.new_list(st, [])
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    self.extend(r, self.ev(e.value, st, fr), st)
                else:
                    self.append(r, self.ev(e, st, fr), st)
            return r
        return self.new_list(st, [self.ev(e, st, fr) for e in n.elts])

    def append(self, ref, v, st):
        o = st.heap[ref.args[0]]
        if o.kind == 'set':
            if any(s[0] == 'i' and s[1] is TRUE and s[2] is v
                   for s in o.data):
                return
        st.heap[ref.args[0]] = Obj(o.kind, o.data + (('i', TRUE, v),))

    def e_Set(self, n, st, fr):
        r = self.new_set(st, [])
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.extend(r, self.ev(e.value, st, fr), st)
            else:
                self.append(r, self.ev(e, st, fr), st)
        return r

    def e_Dict(self, n, st, fr):
        r = self.new_dict(st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(r, self.ev(v, st, fr), st)
            else:
                kk = self.ev(k, st, fr)
                self.dict_put(r, kk, self.ev(v, st, fr), st)
        return r

    def dict_put(self, ref, k, v, st):
        o = st.heap[ref.args[0]]
        data = [e for e in o.data if not (e[2] is k and not e[0])]
        st.heap[ref.args[0]] = Obj('dict', tuple(data) + (((), TRUE, k, v),))

    def dict_update(self, ref, other, st):
        o = self.obj(st, other)
        if o is not None and o.kind == 'dict':
            for e in o.data:
                if e[0]:
                    d = st.heap[ref.args[0]]
                    st.heap[ref.args[0]] = Obj('dict', d.data + (e,))
                else:
                    self.dict_put(ref, e[2], e[3], st)
        else:
            d = st.heap[ref.args[0]]
            t = self.snap(other, st)
            dom = mk('keys', t)
            iv = mk('iv', dom, 0)
            st.heap[ref.args[0]] = Obj('dict', d.data + (
                (((iv, dom),), TRUE, iv, self.models.gi(t, iv)),))

    def e_Lambda(self, n, st, fr):
        return self.functerm(Func(self.stack[-1].module, n, fr))

    def e_IfExp(self, n, st, fr):
        c = self.truth(self.ev(n.test, st, fr), st)
        if c.op == 'const':
            return self.ev(n.body if c.args[0] else n.orelse, st, fr)
        res = {}

        def side(node, key):
            def run(s):
                o = Outcome(s)
                try:
                    res[key] = self.ev(node, s, fr)
                except Dead:
                    o.fall = None
                return o
            return run
        o = self.branch(c, st, side(n.body, 1), side(n.orelse, 2))
        if o.fall is None:
            raise Dead()
        st.set(o.fall)
        if 1 in res and 2 in res:
            return ite(c, res[1], res[2])
        return res.get(1, res.get(2))

    def e_BoolOp(self, n, st, fr):
        vals = []
        isand = isinstance(n.op, ast.And)
        pc0 = st.pc
        for v in n.values:
            x = self.ev(v, st, fr)
            c = self.truth(x, st)
            vals.append((x, c))
            if isand and c is FALSE or not isand and c is TRUE:
                break
            # later operands are evaluated under this one
            if c.op != 'const':
                st.pc = st.pc + ((c, isand, 'bool'),)
        st.pc = pc0
        if all(x is c or isbool(x) for x, c in vals):
            return (and_ if isand else or_)(*[c for x, c in vals])
        r, rc = vals[-1]
        for x, c in reversed(vals[:-1]):
            r = ite(c, r, x) if isand else ite(c, x, r)
        return r

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return not_(self.truth(v, st))
        if self.lib is not None and self.simp(v, st).op == 'av':
            return self.lib.unary(self, type(n.op).__name__, v, st)
        if isinstance(n.op, ast.USub):
            return neg(v)
        if isinstance(n.op, ast.Invert):
            v = self.simp(v, st)
            return not_(v) if isbool(v) or v.op in ('forall',) \
                else mk('not', v)
        return v

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(type(n.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        a, b = self.simp(a, st), self.simp(b, st)
        if self.lib is not None and 'av' in (a.op, b.op):
            return self.lib.binop(self, op, a, b, st)
        if self.lib is not None and op in ('Div', 'FloorDiv', 'Mod') and \
                is_num(a) and is_num(b) and b.args[0] == 0:
            raise LibError(['ZeroDivisionError', 'ArithmeticError',
                            'Exception', 'BaseException'], st, 'division')
        oa, ob = self.obj(st, a), self.obj(st, b)
        if op == 'Add' and (oa is not None and oa.kind == 'list' or
                            ob is not None and ob.kind == 'list'):
            r = self.new_list(st, [])
            self.extend(r, a, st)
            self.extend(r, b, st)
            return r
        if op == 'Mult' and oa is not None and oa.kind == 'list':
            if is_num(b) and isinstance(b.args[0], int):
                return self.alloc(st, Obj('list', oa.data * b.args[0]))
            return self.alloc(st, Obj('list', (
                ('x', TRUE, mk('repeat', self.snap(a, st), b)),)))
        if op == 'Mult' and ob is not None and ob.kind == 'list':
            return self.binop(op, b, a, st)
        if (oa is not None and oa.kind == 'set') or \
                (ob is not None and ob.kind == 'set'):
            nm = {'Sub': 'difference', 'BitAnd': 'intersection',
                  'BitOr': 'union', 'BitXor': 'symmetric_difference'}.get(op)
            if nm:
                return self.models.set_op(self, nm, a, [b], st)
        a, b = self.snap(a, st), self.snap(b, st)
        return self.models.binop(op, a, b)

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st, fr)
            res.append(self.compare(type(op).__name__, left, right, st))
            left = right
        return and_(*res) if len(res) > 1 else res[0]

    def compare(self, op, a, b, st):
        a, b = self.simp(a, st), self.simp(b, st)
        if self.lib is not None and ('av' == b.op or 'av' == a.op and op not in
                                     ('In', 'NotIn')):
            return self.lib.compare(self, op, a, b, st)
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, st)
            return r if op == 'In' else not_(r)
        if op in ('Is', 'IsNot'):
            if a.op == 'ref' and b.op == 'ref':
                r = const(a is b)
            else:
                r = map_ite(a, lambda x: eq(x, b)) if b.op in (
                    'const', 'class', 'ext') else eq(a, b)
            return r if op == 'Is' else not_(r)
        a, b = self.snap(a, st), self.snap(b, st)
        if op == 'Eq':
            return self.norm_cond(eq(a, b), st)
        if op == 'NotEq':
            return self.norm_cond(ne(a, b), st)
        sa, sb = a.op in ('set', 'setof'), b.op in ('set', 'setof')
        if sa and sb and op in ('LtE', 'GtE'):
            return mk('subset', a, b) if op == 'LtE' else mk('subset', b, a)
        if op == 'Lt':
            return self.norm_cond(lt(a, b), st)
        if op == 'LtE':
            return self.norm_cond(le(a, b), st)
        if op == 'Gt':
            return self.norm_cond(lt(b, a), st)
        return self.norm_cond(le(b, a), st)

    def contains(self, x, c, st):
        o = self.obj(st, c)
        if o is not None and o.kind == 'dict':
            self.dreads.add(c.args[0])
        items = self.concrete_items(c, st)
        if items is not None:
            rs = [eq(x, y) for y in items]
            r = or_(*rs) if rs else FALSE
            return r
        if c.op == 'const' and isinstance(c.args[0], str) and \
                x.op == 'const' and isinstance(x.args[0], str):
            return const(x.args[0] in c.args[0])
        return mk('in', x, self.snap(c, st))

    def e_Attribute(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        return self.getattr_(v, n.attr, st, n)

    def getattr_(self, v, name, st, node):
        v = self.simp(v, st)
        if v.op == 'ite':
            return ite(v.args[0], self.getattr_(v.args[1], name, st, node),
                       self.getattr_(v.args[2], name, st, node))
        o = self.obj(st, v)
        if o is not None and o.kind == 'inst':
            if name in o.data:
                x = o.data[name]
                if has_unbound(x):
                    x = strip_unbound(x)
                return self.simp(x, st)
            m = self.find_method(o.cls, name)
            if m is not None:
                if isinstance(m, tuple) and m[0] == 'attr':
                    return self.shared(m[2], m[3], m[4], st) or m[1]
                if self.is_property(m):
                    return self.call_func(m, [v], {}, st, node)
                if self.is_static(m):
                    return self.functerm(m)
                return mk('bound', v, self.functerm(m))
            if name == '__class__':
                return mk('class', o.cls)
            return mk('attr', v, name)
        if o is not None and o.kind in ('list', 'dict', 'set', 'genexp'):
            return mk('attr', v, name)
        if v.op == 'module':
            r = self.module_attr(self.repo.modules[v.args[0]], name, st)
            if r is None:
                self.event('undefined', v.args[0] + '.' + name, None, (), {},
                           st, node)
                r = mk('undef', v.args[0] + '.' + name)
            return r
        if v.op == 'av':
            return self.lib.getattr(self, v, name, st)
        if v.op == 'ext':
            full = self.models.canon_ext(v.args[0] + '.' + name)
            if self.lib is not None and full in LIBCONST:
                return const(LIBCONST[full])
            return mk('ext', full)
        if v.op == 'class':
            m = self.find_method(v.args[0], name)
            if m is not None:
                if isinstance(m, tuple):
                    return self.shared(m[2], m[3], m[4], st) or m[1]
                return self.functerm(m)
            return mk('attr', v, name)
        if v.op == 'super':
            m = self.find_method(v.args[1], name, skip=v.args[0])
            if m is not None:
                return mk('bound', v.args[2], self.functerm(m))
            return mk('attr', v, name)
        return self.models.attr(self, v, name, st)

    def e_Subscript(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        i = self.ev(n.slice, st, fr)
        return self.getitem(v, i, st, n)

    def e_Slice(self, n, st, fr):
        f = lambda x: self.ev(x, st, fr) if x is not None else NONE
        return mk('slice', f(n.lower), f(n.upper), f(n.step))

    def e_Index(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def getitem(self, v, i, st, node=None):
        v = self.simp(v, st)
        i = self.simp(i, st)
        if self.lib is not None:
            r = self.lib.subscript(self, v, i, st)
            if r is not None:
                return r
        if v.op == 'ite':
            return ite(v.args[0], self.getitem(v.args[1], i, st, node),
                       self.getitem(v.args[2], i, st, node))
        o = self.obj(st, v)
        if o is not None:
            if o.kind == 'list':
                segs = o.data
                if all(s[0] == 'i' and s[1] is TRUE for s in segs):
                    if is_num(i) and -len(segs) <= i.args[0] < len(segs):
                        return segs[i.args[0]][2]
                    if i.op == 'slice' and all(
                            a.op == 'const' for a in i.args):
                        sl = slice(*[a.args[0] for a in i.args])
                        return self.alloc(st, Obj('list', segs[sl]))
                    return self.models.gi(self.snap(v, st), self.snap(i, st))
                if is_num(i) and i.args[0] < 0 and segs and \
                        segs[-1][0] == 'i' and segs[-1][1] is TRUE and \
                        i.args[0] == -1:
                    return segs[-1][2]
                if i.op == 'slice':
                    t = self.models.gi(self.snap(v, st), self.snap(i, st))
                    return self.alloc(st, Obj('list', (('x', TRUE, t),)))
                return self.models.gi(self.snap(v, st), self.snap(i, st))
            if o.kind == 'dict':
                return self.dict_get(v, o, i, st)
            if o.kind == 'inst' and self.find_method(o.cls, '__getitem__'):
                return self.call_method(v, '__getitem__', [i], {}, st, node)
        i = self.snap(i, st)
        if v.op == 'attr' and v.args[1] in ('iloc', 'loc', 'ix', 'at', 'iat'):
            self.event('lookup', v.args[1], v.args[0], (i,), {}, st, node)
        r = self.models.gi(self.snap(v, st), i)
        return r

    def dict_get(self, v, o, i, st, default=None):
        m = {}
        for e in reversed(o.data):
            if e[2] is i and not e[0]:
                g = self.norm_cond(e[1], st)
                if g is not TRUE and v.op == 'ref':
                    self.dreads.add(v.args[0])
                if g is not TRUE and default is None:
                    # otherwise the one of an earlier iteration
                    for x in o.data:
                        if len(x[0]) == 1 and x[0][0][1].op == 'keys' and \
                                x[0][0][1].args[0].op in ('phi', 'loopout') \
                                and x[2] is x[0][0][0]:
                            return ite(g, self.simp(e[3], st), mk(
                                'getitem', x[0][0][1].args[0], i))
                if g is TRUE or default is None:
                    return self.simp(e[3], st)
                return ite(g, e[3], default)
        if v.op == 'ref':
            self.dreads.add(v.args[0])
        for e in reversed(o.data):
            if e[0]:
                # abstract entries: match the key template
                if e[2] is i:
                    return self.simp(self.snap_tmpl(e[3], st), st)
                mm = match(e[2], i, {iv.id for iv, _ in e[0]})
                if mm is not None and all(
                        subst(d, mm) is d or True for _, d in e[0]):
                    return subst(e[3], mm)
        cands = [e for e in o.data if not distinct(e[2], i)]
        if default is not None and not cands:
            return default
        r = None
        for e in cands:
            if e[0]:
                r = None
                break
            x = e[3]
            r = x if r is None else ite(eq(e[2], i), x, r)
        if r is not None and default is None:
            return r
        return self.models.gi(self.snap(v, st), i)

    def snap_tmpl(self, t, st):
        return t

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, fr)
                parts.append(self.models.to_str(self.snap(x, st)))
        return concat(*parts)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        for fid, hook in reversed(self.yield_hooks):
            if self.frame_within(st, fr, fid):
                return hook(v, st)
        return NONE

    def frame_within(self, st, fr, fid):
        while fr is not None and fr.op == 'ref':
            if fr.args[0] == fid:
                return True
            fr = st.heap[fr.args[0]].cls
        return False

    def e_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        for fid, hook in reversed(self.yield_hooks):
            if self.frame_within(st, fr, fid):
                self.iterate(v, lambda vf: (lambda s: (
                    hook(vf(s), s), Outcome(s))[1]), st, n)
                break
        return NONE

    # comprehensions
    def e_ListComp(self, n, st, fr):
        return self.comp_eager(n, 'list', st, fr)

    def e_SetComp(self, n, st, fr):
        return self.comp_eager(n, 'set', st, fr)

    def e_GeneratorExp(self, n, st, fr):
        src = self.ev(n.generators[0].iter, st, fr)
        return self.alloc(st, Obj('genexp', (n, fr), src))

    def e_DictComp(self, n, st, fr):
        return self.comp_eager(n, 'dict', st, fr)

    def comp_eager(self, n, kind, st, fr, first=None):
        ref = self.alloc(st, Obj(kind, ()))
        fr2 = self.alloc(st, Obj('frame', {}, fr))

        def level(k, state):
            if k == len(n.generators):
                if kind == 'dict':
                    kk = self.ev(n.key, state, fr2)
                    vv = self.ev(n.value, state, fr2)
                    self.dict_put(ref, kk, vv, state)
                else:
                    self.append(ref, self.ev(n.elt, state, fr2), state)
                return Outcome(state)
            g = n.generators[k]
            it = first if (k == 0 and first is not None) else self.ev(
                g.iter, state, fr2 if k else fr)

            def bindbody(vf):
                def run(s):
                    self.assign(g.target, vf(s), s, fr2)

                    def conds(j, s2):
                        if j == len(g.ifs):
                            return level(k + 1, s2)
                        c = self.truth(self.ev(g.ifs[j], s2, fr2), s2)
                        return self.branch(c, s2,
                                           lambda x: conds(j + 1, x),
                                           lambda x: Outcome(x))
                    return conds(0, s)
                return run
            return self.iterate(it, bindbody, state, n)
        o = level(0, st)
        if o.fall is None:
            raise Dead()
        st.set(o.fall)
        return ref

    # ------------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super':
            return self.make_super(n, st, fr)
        fn = self.ev(f, st, fr)
        args = []
        star = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                items = self.concrete_items(v, st)
                if items is None:
                    args.append(mk('star', self.snap(v, st)))
                    star = True
                else:
                    args += items
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.simp(self.ev(k.value, st, fr), st)
                kw['**%d' % len(kw)] = v
            else:
                kw[k.arg] = self.ev(k.value, st, fr)
        self.cur_frame = fr
        return self.call_kw(fn, args, kw, st, n)

    def call_kw(self, fn, args, kw, st, n):
        """open the tables of keyword arguments; arguments that are given
        under a condition make two calls"""
        for k in kw:
            if not k.startswith('**'):
                continue
            v = kw[k]
            if v.op == 'ite':
                return self.call_if(v.args[0], fn, args, [
                    {**kw, k: v.args[1]}, {**kw, k: v.args[2]}], st, n)
            o = self.obj(st, v)
            out = {}
            for j, x in kw.items():
                if j != k:
                    out[j] = x
                elif o is not None and o.kind == 'dict' and all(
                        e[2].op == 'const' and not e[0] for e in o.data):
                    for e in o.data:
                        g = self.norm_cond(e[1], st)
                        if g is TRUE:
                            out[e[2].args[0]] = e[3]
                        elif g is not FALSE:
                            out['??' + e[2].args[0]] = mk('ite', g, e[3],
                                                          UNBOUND)
                else:
                    out['  '] = self.snap(v, st)
            return self.call_kw(fn, args, out, st, n)
        for k in kw:
            if k[:2] == '??':
                rest = {j: x for j, x in kw.items() if j != k}
                return self.call_if(kw[k].args[0], fn, args, [
                    {**rest, k[2:]: kw[k].args[1]}, rest], st, n)
        if '  ' in kw:
            kw['**'] = kw.pop('  ')
        return self.call(fn, args, kw, st, n)

    def call_if(self, c, fn, args, kws, st, n):
        res = {}

        def side(i):
            def run(s):
                o = Outcome(s)
                try:
                    res[i] = self.call_kw(fn, args, kws[i], s, n)
                except Dead:
                    o.fall = None
                return o
            return run
        o = self.branch(c, st, side(0), side(1))
        if o.fall is None:
            raise Dead()
        st.set(o.fall)
        if 0 in res and 1 in res:
            return ite(c, res[0], res[1])
        return res.get(0, res.get(1))

    def make_super(self, n, st, fr):
        f = self.stack[-1]
        slf = None
        if f.node.args.args:
            slf = self.getvar_raw(st, fr, f.node.args.args[0].arg)
        if f.cls is None or slf is None:
            return self.fresh('super')
        o = self.obj(st, slf)
        mro = o.cls if o is not None and o.kind == 'inst' else \
            f.module.name + ':' + f.cls.name
        return mk('super', f.module.name + ':' + f.cls.name, mro, slf)

    def call(self, fn, args, kw, st, node):
        fn = self.simp(fn, st)
        if fn.op == 'ite':
            res = {}

            def side(f, key):
                def run(s):
                    o = Outcome(s)
                    try:
                        res[key] = self.call(f, args, kw, s, node)
                    except Dead:
                        o.fall = None
                    return o
                return run
            c = fn.args[0]
            o = self.branch(c, st, side(fn.args[1], 1), side(fn.args[2], 2))
            if o.fall is None:
                raise Dead()
            st.set(o.fall)
            if 1 in res and 2 in res:
                return ite(c, res[1], res[2])
            return res.get(1, res.get(2))
        if fn.op == 'func':
            f = self.funcs[fn.args[0]]
            return self.call_func(f, args, kw, st, node)
        if fn.op == 'bound':
            f = self.funcs[fn.args[1].args[0]]
            return self.call_func(f, [fn.args[0]] + list(args), kw, st, node)
        if fn.op == 'class':
            return self.instantiate(fn.args[0], args, kw, st, node)
        if self.lib is not None and fn.op == 'attr' and \
                self.lib.receives(self.simp(fn.args[0], st)):
            return self.lib.method(self, self.simp(fn.args[0], st),
                                   fn.args[1], args, kw, st, node)
        if self.lib is not None and fn.op in ('ext', 'sym'):
            r = self.lib.external(self, fn.args[0], args, kw, st, node)
            if r is not None:
                return r
        if fn.op == 'attr':
            return self.models.method(self, fn.args[0], fn.args[1], args, kw,
                                      st, node)
        if fn.op == 'ext':
            return self.models.external(self, fn.args[0], args, kw, st, node)
        if fn.op == 'partial':
            return self.call(fn.args[0], list(fn.args[1].args) + list(args),
                             kw, st, node)
        # call of an unknown value
        return self.models.unknown_call(self, fn, args, kw, st, node)

    def find_class(self, qual):
        mod, name = qual.split(':')
        m = self.repo.modules[mod]
        return m, m.defs[name][1]

    def mro(self, qual):
        out = [qual]
        m, node = self.find_class(qual)
        for b in node.bases:
            st = State()
            fr = self.alloc(st, Obj('frame', {}, None))
            self.stack.append(Func(m, ast.parse('def _m(): pass').body[0]))
            try:
                t = self.ev(b, st, fr)
            finally:
                self.stack.pop()
            if t.op == 'class':
                out += self.mro(t.args[0])
        return out

    def find_method(self, qual, name, skip=None):
        if qual is None:
            return None
        mro = self.mro(qual)
        if skip is not None and skip in mro:
            mro = mro[mro.index(skip) + 1:]
        for q in mro:
            m, node = self.find_class(q)
            for b in node.body:
                if isinstance(b, ast.FunctionDef) and b.name == name:
                    return Func(m, b, None, node)
                if isinstance(b, ast.Assign):
                    for t in b.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            if isinstance(b.value, ast.Name):
                                r = self.find_method(q, b.value.id)
                                if r is not None:
                                    return r
                            st = State()
                            fr = self.alloc(st, Obj('frame', {}, None))
                            self.stack.append(Func(
                                m, ast.parse('def _m(): pass').body[0]))
                            try:
                                return ('attr', self.snap(
                                    self.ev(b.value, st, fr), st),
                                    (q, name), b.value, m)
                            finally:
                                self.stack.pop()
        return None

    def is_static(self, f):
        return any(_dotted(d) == 'staticmethod'
                   for d in getattr(f.node, 'decorator_list', ()))

    def is_property(self, f):
        return any(_dotted(d) == 'property'
                   for d in getattr(f.node, 'decorator_list', ()))

    def call_method(self, ref, name, args, kw, st, node):
        fn = self.getattr_(ref, name, st, node)
        return self.call(fn, args, kw, st, node)

    def instantiate(self, qual, args, kw, st, node):
        init = self.find_method(qual, '__init__')
        if qual in self.opaque_classes or qual.split(':')[1] in \
                self.opaque_classes:
            e = self.event('new', qual, None,
                           [self.snap(a, st) for a in args],
                           {k: self.snap(v, st) for k, v in kw.items()},
                           st, node)
            if init is not None:
                e.bound = self.bind_terms(init, [NONE] + list(e.args),
                                          e.kwargs, st)
            r = mk('inst', qual, len(self.events) + self.uniq * 100000)
            self.uniq += 1
            e.result = r
            return r
        if qual in self.natives:
            return self.natives[qual](self, args, kw, st, node)
        ref = self.alloc(st, Obj('inst', {}, qual))
        if init is not None:
            self.call_func(init, [ref] + list(args), kw, st, node)
        return ref

    def bind_terms(self, f, args, kw, st):
        """{parameter: term}; None when the call does not fit the signature"""
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + \
                [x.arg for x in a.args]
        out = {}
        rest = []
        for i, v in enumerate(args):
            if v.op == 'star':
                return None
            if i < len(names):
                out[names[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            return None
        if a.vararg is not None:
            out['*' + a.vararg.arg] = rest
        extra = {}
        for k, v in kw.items():
            if k == '**':
                return None
            if k in out:
                return None
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return None
        if a.kwarg is not None:
            out['**' + a.kwarg.arg] = extra
        # defaults
        nd = len(a.defaults)
        for nm, d in zip(names[len(names) - nd:], a.defaults):
            if nm not in out:
                out[nm] = ('default', d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = ('default', d)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in out:
                return None
        for k, v in list(out.items()):
            if isinstance(v, tuple) and v[0] == 'default':
                s2 = st
                fr = f.frame or self.alloc(s2, Obj('frame', {}, None))
                self.stack.append(f)
                try:
                    out[k] = self.shared((f.qual, k), v[1], f.module, s2) \
                        or self.ev(v[1], s2, fr)
                finally:
                    self.stack.pop()
        return out

    def call_func(self, f, args, kw, st, node):
        qual = f.qual
        if qual in self.natives:
            return self.natives[qual](self, args, kw, st, node)
        if qual in self.opaque or f.name in self.opaque:
            e = self.event('opaque', qual, None,
                           [self.snap(a, st) for a in args],
                           {k: self.snap(v, st) for k, v in kw.items()},
                           st, node)
            b = self.bind_terms(f, e.args, e.kwargs, st)
            e.bound = b
            if b is not None:
                t = mk('call', qual, *[mk('arg', k, self.snap(v, st))
                                       for k, v in sorted(b.items())
                                       if isinstance(v, T)])
            else:
                t = self.fresh('call ' + qual)
            e.result = t
            return t
        depth = sum(1 for g in self.stack if g.node is f.node)
        if (depth >= 2 if self.lib is None else depth > 12) or \
                len(self.stack) > MAXDEPTH:
            if self.lib is not None:
                raise raised('RecursionError', st, qual)
            return mk('rec', qual, *[self.snap(a, st) for a in args])
        b = self.bind_terms(f, args, kw, st)
        if b is None:
            self.event('badcall', qual, None,
                       [self.snap(a, st) for a in args],
                       {k: self.snap(v, st) for k, v in kw.items()}, st,
                       node)
            return self.fresh('badcall ' + qual)
        d = {}
        for k, v in b.items():
            if k.startswith('**'):
                d[k[2:]] = self.new_dict(st, [(const(x), y)
                                              for x, y in v.items()])
            elif k.startswith('*'):
                d[k[1:]] = tup(*v)
            else:
                d[k] = v
        if not isinstance(f.node, ast.Lambda):
            nl = [x for s in ast.walk(f.node) if isinstance(s, ast.Nonlocal)
                  for x in s.names]
            if nl:
                d['%nonlocal'] = tuple(nl)
        fr = self.alloc(st, Obj('frame', d, f.frame))
        self.framefunc[fr.args[0]] = f
        self.analysed.add(qual)
        if isinstance(f.node, ast.Lambda):
            self.stack.append(f)
            try:
                return self.ev(f.node.body, st, fr)
            finally:
                self.stack.pop()
        if any((_dotted(x) or '').split('.')[-1] == 'contextmanager'
               for x in f.node.decorator_list):
            fid = self.functerm(f).args[0]
            return mk('gencall', fid, fr.args[0])
        if f.is_gen:
            g = as_genexp(f.node)
            if g is not None:
                self.stack.append(f)
                try:
                    src = self.ev(g.generators[0].iter, st, fr)
                finally:
                    self.stack.pop()
                return self.alloc(st, Obj('genexp', (g, fr), src))
            return self.run_generator(f, fr, st, node)
        self.stack.append(f)
        base, base_path = st.pc, st.path
        st.path = TRUE
        try:
            o = self.exec_block(f.node.body, st, fr)
        finally:
            self.stack.pop()
            st.path = base_path
        rets = list(o.rets)
        if o.fall is not None:
            rets.append((o.fall, NONE))
        if not rets:
            raise Dead()
        s, v = rets[-1]
        for s2, v2 in reversed(rets[:-1]):
            c = self.pcdiff(s2, s)
            v = ite(c, v2, v)
            s = self.merge(c, s2, s)
        st.heap = s.heap
        # keep only assumptions that survive on every path
        if len(rets) > 1:
            keep = [x for x in s.pc]
            st.pc = tuple(keep)
        else:
            st.pc = tuple(x for x in s.pc)
        # branch guards opened inside the callee are closed at return
        st.pc = base + tuple(x for x in st.pc[len(base):]
                             if x[2] in ('raise', 'assert', 'assume'))
        return self.simp(v, st)

    def run_generator(self, f, fr, st, node):
        """collect the yielded values eagerly, in order"""
        ref = self.alloc(st, Obj('list', ()))

        def hook(value, state):
            self.append(ref, value, state)
            return NONE
        self.stack.append(f)
        self.yield_hooks.append((fr.args[0], hook))
        base_path = st.path
        st.path = TRUE
        try:
            o = self.exec_block(f.node.body, st, fr)
        finally:
            self.yield_hooks.pop()
            self.stack.pop()
            st.path = base_path
        s = self.join_states([x for x, _ in o.rets] +
                             ([o.fall] if o.fall is not None else []))
        if s is None:
            raise Dead()
        st.heap, st.pc = s.heap, s.pc
        return ref

    # --------------------------------------------------------------- top level
    def run(self, dotted, args=(), kw=None, st=None):
        """analyse a repository function; returns (state, value) or None"""
        m, node, cls = self.repo.lookup(dotted)
        st = st if st is not None else State()
        f = Func(m, node, None, cls if cls is not node else None)
        try:
            v = self.call_func(f, list(args), dict(kw or {}), st, node)
        except Dead:
            return None
        return st, v

    def instance(self, dotted, attrs, st):
        mod, name = dotted.split(':')
        if name not in self.repo.module(mod).defs:
            raise AnalysisBroken('%s is missing' % dotted)
        return self.alloc(st, Obj('inst', dict(attrs), dotted))


# ------------------------------------------------------------------- helpers

def models_count(domsT, guard):
    from . import models
    return models.count(domsT, guard)


def depends(t, doms):
    ids = {iv.id for iv, _ in doms}
    return any(x.id in ids for x in subterms(t))


def fill_pattern(nxt, phi):
    """nxt == upd(upd(phi, i, v), ...), possibly guarded -> [(g, i, v)]"""
    if nxt is phi:
        return []
    if nxt.op == 'upd':
        r = fill_pattern(nxt.args[0], phi)
        return None if r is None else r + [(TRUE, nxt.args[1], nxt.args[2])]
    if nxt.op == 'fill':
        return None
    if nxt.op == 'ite':
        c, a, b = nxt.args
        x, y = fill_pattern(a, phi), fill_pattern(b, phi)
        if x is not None and y is not None:
            return [(and_(c, g), i, v) for g, i, v in x] + \
                   [(and_(not_(c), g), i, v) for g, i, v in y]
    return None


def has_unbound(t):
    return t is UNBOUND or (t.op == 'ite' and (
        has_unbound(t.args[1]) or has_unbound(t.args[2])))


def strip_unbound(t):
    if t.op == 'ite':
        a, b = t.args[1], t.args[2]
        if a is UNBOUND:
            return strip_unbound(b)
        if b is UNBOUND:
            return strip_unbound(a)
        return ite(t.args[0], strip_unbound(a), strip_unbound(b))
    return t


def unbound_cond(t):
    if t is UNBOUND:
        return TRUE
    if t.op == 'ite':
        return ite(t.args[0], unbound_cond(t.args[1]),
                   unbound_cond(t.args[2]))
    return FALSE


def match(pat, t, ivs, m=None):
    """one-way matching of iteration variables"""
    m = {} if m is None else m
    if pat.id in ivs:
        if pat.id in m:
            return m if m[pat.id] is t else None
        m[pat.id] = t
        return m
    if pat is t:
        return m
    if pat.op != t.op or pat.op == 'poly' or len(pat.args) != len(t.args):
        return None
    for a, b in zip(pat.args, t.args):
        if isinstance(a, T) and isinstance(b, T):
            if match(a, b, ivs, m) is None:
                return None
        elif a != b or isinstance(a, T) != isinstance(b, T):
            return None
    return m


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return b + '.' + n.attr if b else None
    if isinstance(n, ast.Call):
        return _dotted(n.func)
    return None


def _as_load(n):
    n2 = ast.parse(ast.unparse(n), mode='eval').body
    for x in ast.walk(n2):
        x.lineno = n.lineno
        x.col_offset = n.col_offset
        x.end_lineno = n.lineno
        x.end_col_offset = n.col_offset
    return n2
