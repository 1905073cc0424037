"""Evaluation of value-graph terms in small finite models.

A model assigns to each source term (a chunk read from a file, a column, a
length) a value of a finite domain: integers, booleans, and short lists
standing for one-column arrays. Rules use it to compare the transfer function
of a loop body with its specification on every model up to a cutoff; an
operator without an interpretation raises Unknown (the obligation is then
undecided, never violated).
"""
from fractions import Fraction
from .terms import *
from . import terms as tm
from .lib import Unknown, evalt

BIN = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'eq': lambda a, b: a == b,
       'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b,
       'div': lambda a, b: Fraction(a) / b,
       'min': min, 'max': max}


class ShapeError(Unknown):
    """an array operation with shapes that do not agree"""


def bc(f, *xs):
    """broadcast f over lists and scalars"""
    ls = [x for x in xs if isinstance(x, list)]
    if not ls:
        return f(*xs)
    n = max(len(l) for l in ls)
    for l in ls:
        if len(l) not in (1, n):
            raise Unknown('shape')
    return [bc(f, *[(x[i] if len(x) == n else x[0])
                    if isinstance(x, list) else x for x in xs])
            for i in range(n)]


def index(v, i):
    if isinstance(i, tuple) and i and i[0] == 'slice':
        return v[slice(i[1], i[2], i[3])]
    if isinstance(i, list):
        if i and all(isinstance(x, bool) for x in i):
            if len(i) != len(v):
                raise Unknown('mask')
            return [x for x, k in zip(v, i) if k]
        return [v[x] for x in i]
    if isinstance(v, dict):
        return v[i]
    if isinstance(i, int) and not isinstance(i, bool):
        return v[i]
    raise Unknown('index %r' % (i,))


def value(v):
    if isinstance(v, Unknown):
        raise v
    return v


def defined(f, ts):
    """values of the loop-carried slots that have one"""
    out = {}
    for k, t in ts.items():
        try:
            out[k] = f(t)
        except ShapeError as x:
            out[k] = x
        except Unknown as x:
            out[k] = x
    return out


def reached(loop, f):
    if loop.entry is TRUE:
        return True
    try:
        return bool(f(loop.entry))
    except Unknown:
        return True


def replay(it, events, f, visit):
    """visit(event, model) for every event in the order of the run; loops are
    unrolled in the model"""
    def go(evs, depth, f):
        i = 0
        while i < len(evs):
            e = evs[i]
            if len(e.loops) <= depth:
                visit(e, f)
                i += 1
                continue
            loop = e.loops[depth]
            j = i
            while j < len(evs) and len(evs[j].loops) > depth and \
                    evs[j].loops[depth] is loop:
                j += 1
            if reached(loop, f):
                for g in f.turns(loop):
                    go(evs[i:j], depth + 1, g)
            i = j
    go(list(events), 0, f)


class Diverges(Exception):
    pass


class Finite(object):
    """one model; env: term id -> value; the turn of a while loop is known
    as ('turn', loop)"""
    TURNS = 64

    def __init__(self, env, funcs=None, it=None):
        self.env = dict(env)
        self.memo = {}
        self.funcs = funcs or {}
        self.it = it

    def sub(self, env):
        e = dict(self.env)
        e.update(env)
        return Finite(e, self.funcs, self.it)

    def carried(self, body):
        """the loop-carried values the terms of a body depend on"""
        cache = self.it.__dict__.setdefault('carried_by', {})
        key = tuple(t.id for t in body)
        if key not in cache:
            need, todo = set(), list(body)
            while todo:
                for x in subterms(todo.pop()):
                    if x.op == 'phi' and x.id not in need:
                        need.add(x.id)
                        if x.id in self.it.phi_info:
                            loop, init, nxt = self.it.phi_info[x.id]
                            todo.extend([init, nxt] + list(loop.brk))
                            if loop.kind == 'while':
                                todo.append(loop.cond)
            cache[key] = need
        return cache[key]

    def iterate(self, doms, *body):
        """environments of the iterations of a comprehension domain"""
        def go(ds, f):
            if not ds:
                yield f
                return
            v, d = ds[0].args
            for g in f.each(v, d, body):
                for h in go(ds[1:], g):
                    yield h
        return go(list(doms.args), self)

    def each(self, v, d, body=()):
        if d.op != 'while':
            # values carried by the for loop over this domain (loops over
            # equal domains share their variable)
            phis = {} if self.it is None else {
                k: i for k, i in self.it.phi_info.items()
                if i[0].kind != 'while' and len(i[0].doms) == 1 and
                i[0].doms[0][0] is v and k not in self.env}
            if phis and body:
                need = self.carried(body)
                phis = {k: i for k, i in phis.items() if k in need}
            st = defined(self, {k: i[1] for k, i in phis.items()})
            phis = {k: i for k, i in phis.items() if k in st}
            for x in self(d):
                f = self.sub(st).sub({v.id: x})
                yield f
                if phis:
                    loop = list(phis.values())[0][0]
                    st = defined(f, {k: i[2] for k, i in phis.items()})
                    if f.breaks(loop):
                        return
            return
        lid = d.args[0]
        phis = {k: i for k, i in self.it.phi_info.items()
                if i[0].id == lid}
        if not phis:
            raise Unknown('while')
        loop = list(phis.values())[0][0]
        st = defined(self, {k: i[1] for k, i in phis.items()})
        for n in range(self.TURNS):
            f = self.sub(st)
            f.env['turn', lid] = n
            if not f(loop.cond):
                return
            yield f.sub({v.id: n})
            st = defined(f, {k: i[2] for k, i in phis.items()})
            if f.breaks(loop):
                return
        raise Diverges(loop)

    def turns(self, loop):
        """models of the iterations of a loop"""
        if loop.kind == 'while':
            w = mk('wv', loop.id)
            phis = [k for k, i in self.it.phi_info.items() if i[0] is loop]
            if not phis:
                if self(loop.cond):
                    raise Diverges(loop)
                return
            for f in self.each(w, mk('while', loop.id)):
                yield f
            return
        phis = {k: i for k, i in self.it.phi_info.items() if i[0] is loop}
        st = defined(self, {k: i[1] for k, i in phis.items()})

        def go(ds, f):
            if not ds:
                yield f
                return
            v, d = ds[0]
            for x in f(d):
                for g in go(ds[1:], f.sub({v.id: x})):
                    yield g
        if loop.guard is not TRUE and not any(
                v in subterms(loop.guard) for v, d in loop.doms) and \
                not set(phis) & {x.id for x in subterms(loop.guard)} and \
                not self.sub(st)(loop.guard):
            return
        for f in go(list(loop.doms), self):
            if loop.guard is not TRUE and not f(loop.guard):
                continue
            f = f.sub(st)
            yield f
            st = defined(f, {k: i[2] for k, i in phis.items()})
            if f.breaks(loop):
                return

    def breaks(self, loop):
        return any(self(b) for b in loop.brk)

    def exit_state(self, lid):
        phis = {k: i for k, i in self.it.phi_info.items()
                if i[0].id == lid}
        loop = list(phis.values())[0][0]
        st = defined(self, {k: i[1] for k, i in phis.items()})
        for n in range(self.TURNS):
            f = self.sub(st)
            f.env['turn', lid] = n
            if not f(loop.cond):
                return st
            st = defined(f, {k: i[2] for k, i in phis.items()})
            if f.breaks(loop):
                return st
        raise Diverges(loop)

    def loop(self, phi, stop=None):
        """final value of a loop-carried value"""
        if self.it is None or phi.id not in self.it.phi_info:
            raise Unknown('phi')
        loop = self.it.phi_info[phi.id][0]
        if loop.kind == 'while':
            raise Unknown('loop')
        sim = Sim(self.it, [phi], {loop.id})
        st = defined(self, {k: i for k, (i, _) in sim.phis.items()})

        def go(ds, f):
            if not ds:
                yield f
                return
            v, d = ds[0]
            for x in f(d):
                for g in go(ds[1:], f.sub({v.id: x})):
                    yield g
        if loop.guard is not TRUE and not any(
                v in subterms(loop.guard) for v, d in loop.doms) and \
                not set(phis) & {x.id for x in subterms(loop.guard)} and \
                not self.sub(st)(loop.guard):
            return
        for f in go(list(loop.doms), self):
            if loop.guard is not TRUE and not f(loop.guard):
                continue
            g = f.sub(st)
            st = defined(g, {k: n for k, (_, n) in sim.phis.items()})
            if g.breaks(loop):
                break
        if phi.id not in st:
            raise Unknown('undefined')
        return value(st[phi.id])

    def __call__(self, t):
        if t.id in self.env:
            return value(self.env[t.id])
        if t.id in self.memo:
            return self.memo[t.id]
        v = self.ev(t)
        self.memo[t.id] = v
        return v

    def ev(self, t):
        op, a = t.op, t.args
        if op == 'const':
            return a[0]
        f = self.funcs.get(op)
        if f is not None:
            r = f(self, t)
            if r is not NotImplemented:
                return r
        if op == 'poly':
            r = 0
            for m, c in a[0]:
                p = c if c.denominator != 1 else int(c)
                for x, e in m:
                    p = bc(lambda u, w: u * w ** e, p, self(x))
                r = bc(lambda u, w: u + w, r, p)
            return r
        if op in ('min', 'max'):
            return bc(BIN[op], *[self(x) for x in a])
        if op in BIN:
            return bc(BIN[op], self(a[0]), self(a[1]))
        if op == 'ceil':
            return bc(lambda x: -int(-x // 1), self(a[0]))
        if op == 'count' and a[0].op == 'doms':
            return sum(1 for f in self.iterate(a[0], *a[1:])
                       if f(a[1]))
        if op == 'dict':
            r = {}
            for e in a:
                if e.op != 'ent' or e.args[0].op != 'doms':
                    raise Unknown('dict')
                for f in self.iterate(*e.args[:4]):
                    if f(e.args[1]):
                        r[f(e.args[2])] = f(e.args[3])
            return r
        if op == 'in' and 'in' not in self.funcs:
            v = self(a[1])
            if isinstance(v, (dict, list, tuple, set, frozenset)):
                return self(a[0]) in v
            raise Unknown('in')
        if op == 'keys':
            v = self(a[0])
            if isinstance(v, dict):
                return list(v)
        if op == 'not':
            return bc(lambda x: not x, self(a[0]))
        if op == 'truth':
            v = self(a[0])
            return bool(v)
        if op == 'and':
            r = True
            for x in a:
                v = self(x)
                if isinstance(v, list):
                    r = bc(lambda p, q: bool(p and q), r, v)
                elif not v:
                    return False
            return r
        if op == 'or':
            r = False
            for x in a:
                v = self(x)
                if isinstance(v, list):
                    r = bc(lambda p, q: bool(p or q), r, v)
                elif v:
                    return True
            return r
        if op == 'ite':
            c = self(a[0])
            if isinstance(c, list):
                return bc(lambda p, x, y: x if p else y, c, self(a[1]),
                          self(a[2]))
            return self(a[1] if c else a[2])
        if op in ('sum', 'lcomp') and a[0].op == 'doms':
            r = []
            for f in self.iterate(a[0], *a[1:3]):
                if f(a[1]):
                    r.append(f(a[2]))
            return sum(r) if op == 'sum' else r
        if op == 'forall' and a[0].op == 'doms':
            return all(f(a[2]) for f in self.iterate(a[0], *a[1:3])
                       if f(a[1]))
        if op == 'psum' and a[0].op == 'doms' and len(a[0].args) == 1:
            v, d = a[0].args[0].args
            if v.id not in self.env:
                raise Unknown('psum')
            r = 0
            for x in self(d):
                if x == self.env[v.id]:
                    return r
                f = self.sub({v.id: x})
                if f(a[1]):
                    r += f(a[2])
            raise Unknown('psum')
        if op == 'phi' and self.it is not None and \
                t.id in self.it.phi_info and \
                self.it.phi_info[t.id][0].kind == 'while':
            st = self.exit_state(a[0])
            if t.id not in st:
                raise Unknown('undefined')
            return value(st[t.id])
        if op == 'loopout':
            return self.loop(a[0])
        if op == 'lastof' and a[0].op == 'doms':
            r = None
            for f in self.iterate(a[0], *a[1:3]):
                if f(a[1]):
                    r = (f(a[2]),)
            return r[0] if r else self(a[3])
        if op in ('len', 'card'):
            return len(self(a[0]))
        if op == 'attr' and a[1] == 'size':
            v = self(a[0])
            if isinstance(v, list) and not any(isinstance(x, list)
                                               for x in v):
                return len(v)
            raise Unknown('size')
        if op == 'unique':
            return sorted(set(self(a[0])))
        if op == 'sorted':
            return sorted(self(a[0]))
        if op == 'arange':
            return list(range(*[self(x) for x in a]))
        if op == 'range':
            return list(range(*[self(x) for x in a]))
        if op == 'cumsum':
            r, s = [], 0
            for x in self(a[0]):
                s += x
                r.append(s)
            return r
        if op == 'slice':
            return ('slice',) + tuple(None if x is NONE else self(x)
                                      for x in a)
        if op == 'concat_rows':
            r = []
            for x in a:
                if x.op == 'star':
                    for y in self(x.args[0]):
                        r += y
                else:
                    r += self(x)
            return r
        if op == 'list' or op == 'vec':
            return [self(x) for x in a]
        if op == 'tuple':
            return tuple(self(x) for x in a)
        if op == 'argsort':
            v = self(a[0])
            return sorted(range(len(v)), key=lambda i: v[i])
        if op == 'nonzero':
            return [i for i, x in enumerate(self(a[0])) if x]
        if op == 'getitem':
            v = self(a[0])
            i = self(a[1])
            if isinstance(v, dict) and isinstance(i, tuple):
                return v[i]
            if isinstance(i, tuple) and i and i[0] != 'slice':
                # one-column array
                if len(i) == 2 and i[1] in (0, ('slice', None, None, None)) \
                        and not any(isinstance(x, list) for x in v):
                    return index(v, i[0])
                raise Unknown('2d index %s %r' % (show(t, 3), i))
            return index(v, i)
        if op == 'upd':
            v, i, w = self(a[0]), self(a[1]), self(a[2])
            if isinstance(i, tuple) and len(i) == 2 and i[0] != 'slice':
                i = i[0]
            v = list(v)
            if isinstance(i, int) and not isinstance(i, bool):
                v[i] = w
                return v
            pos = index(list(range(len(v))), i)
            ws = w if isinstance(w, list) else [w] * len(pos)
            if len(ws) == 1:
                ws = ws * len(pos)
            if len(ws) != len(pos):
                raise ShapeError('%d rows are assigned to %d' % (
                    len(ws), len(pos)))
            for p, x in zip(pos, ws):
                v[p] = x
            return v
        if op in ('empty', 'zeros', 'ones'):
            s = a[0]
            n = self(s.args[0] if s.op == 'tuple' else s)
            if not isinstance(n, int):
                raise Unknown('shape')
            return [None if op == 'empty' else 0 if op == 'zeros' else 1] * n
        if op == 'np':
            n = a[0]
            if n in ('max', 'min', 'sum') and len(a) == 2:
                return {'max': max, 'min': min, 'sum': sum}[n](self(a[1]))
            if n in ('argmin', 'argmax') and len(a) == 2:
                v = self(a[1])
                return v.index((min if n == 'argmin' else max)(v))
            if n == 'sort' and len(a) == 2:
                return sorted(self(a[1]))
            if n == 'abs':
                return bc(abs, self(a[1]))
        raise Unknown('%s' % op)


class Sim(object):
    """a loop reading chunks: state of the loop-carried values"""

    def __init__(self, it, roots, loop_ids):
        self.it = it
        self.phis = {}
        todo = list(roots)
        seen = set()
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x.op == 'phi' and x.id not in seen and \
                        x.id in it.phi_info and x.args[0] in loop_ids:
                    seen.add(x.id)
                    _, init, nxt = it.phi_info[x.id]
                    self.phis[x.id] = (init, nxt)
                    todo += [init, nxt]

    def start(self, env=()):
        f = Finite(dict(env))
        self.state = {k: f(i) for k, (i, _) in self.phis.items()}

    def step(self, env):
        e = dict(env)
        e.update(self.state)
        return Finite(e)

    def advance(self, f):
        self.state = {k: f(n) for k, (_, n) in self.phis.items()}


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for r in compositions(n - k):
            yield (k,) + r
