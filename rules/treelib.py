"""The trees of attributes: a tree holds the children it is given, in order,
the traversal yields a node and then its descendants, every one once, and the
search finds the node with the wanted property, or nothing."""
import ast
from rules.common import *
from sa.interp import Dead, LibError
from sa.pdlib import Lib, Unknown

MOD = 'ABXpy.misc.tinytree'
TREE = MOD + ':Tree'


class Chains(Lib):
    def external(self, it, name, args, kw, st, node):
        if name in ('itertools.chain', 'itertools.chain.from_iterable'):
            seqs = args
            if name.endswith('from_iterable'):
                seqs = it.concrete_items(it.simp(args[0], st), st)
            out = []
            for a in seqs:
                xs = it.concrete_items(it.simp(a, st), st)
                if xs is None:
                    raise Unknown(name)
                out += xs
            return it.new_list(st, out)
        if name == 'itertools.islice':
            xs = it.concrete_items(it.simp(args[0], st), st)
            return it.new_list(st, xs[slice(*[
                self.py(it, a, st) for a in args[1:]])])
        return Lib.external(self, it, name, args, kw, st, node)


# a tree: (name, [children])
SHAPES = [('r', []), ('r', [('a', [])]), ('r', [('a', []), ('b', [])]),
          ('r', [('a', []), ('b', []), ('c', [])]),
          ('r', [('a', [('d', [])]), ('b', [])]),
          ('r', [('a', []), ('b', [('d', []), ('e', [])]), ('c', [])]),
          ('r', [('a', [('d', [('f', [])]), ('e', [])]), ('b', [])])]


class Built(object):
    """a tree made with the operations of the class"""

    def __init__(self, ck, shape, order):
        it = self.it = Interp(ck.repo, opaque=set(), exact=True)
        it.lib = Chains({})

        def seq(it, args, kw, st, nd):
            o = it.obj(st, it.simp(args[0], st))
            return TRUE if o is not None and o.kind == 'list' else FALSE
        it.natives[MOD + ':_isSequenceLike'] = seq
        ck.saw(it)
        self.st = State()
        self.nodes = {}
        self.root = self.make(shape, order)

    def make(self, shape, order):
        it, st = self.it, self.st
        n = it.instantiate(TREE, [], {}, st, None)
        self.put(n, shape[0])
        self.nodes[shape[0]] = n
        if order == 'down':
            self.add(n, [self.make(c, 'leaf') for c in shape[1]])
            for c in shape[1]:
                self.grow(c)
        else:
            if order != 'leaf':
                self.add(n, [self.make(c, order) for c in shape[1]])
        return n

    def grow(self, shape):
        if shape[1]:
            self.add(self.nodes[shape[0]],
                     [self.make(c, 'leaf') for c in shape[1]])
            for c in shape[1]:
                self.grow(c)

    def put(self, n, name):
        o = self.st.heap[n.args[0]]
        d = dict(o.data)
        d['name'] = const(name)
        self.st.heap[n.args[0]] = Obj('inst', d, o.cls)

    def add(self, n, kids):
        it, st = self.it, self.st
        it.call_method(n, 'addChildrenFromList', [it.new_list(st, kids)], {},
                       st, None)

    def name(self, t):
        t = self.it.simp(t, self.st)
        for k, v in self.nodes.items():
            if v is t:
                return k
        if t is NONE:
            return None
        raise Unknown('node %s' % show(t, 3))

    def names(self, t):
        xs = self.it.concrete_items(self.it.simp(t, self.st), self.st)
        if xs is None:
            raise Unknown('list of nodes')
        return [self.name(x) for x in xs]

    def attr(self, k, a):
        return self.it.getattr_(self.nodes[k], a, self.st, None)

    def call(self, k, name, *args):
        return self.it.call_method(self.nodes[k], name, list(args), {},
                                   self.st, None)


def flat(shape):
    return [shape[0]] + [y for c in shape[1] for y in flat(c)]


def pairs(shape):
    yield shape
    for c in shape[1]:
        for y in pairs(c):
            yield y


def wrong(ck, shape, order):
    b = Built(ck, shape, order)
    for s in pairs(shape):
        want = [c[0] for c in s[1]]
        got = b.names(b.attr(s[0], 'children'))
        if got != want:
            return 'the children of %s are %s, not %s' % (s[0], got, want)
        for c in s[1]:
            if b.name(b.attr(c[0], 'parent')) != s[0]:
                return 'the parent of %s is not %s' % (c[0], s[0])
        want = flat(s)
        got = b.names(b.call(s[0], 'preOrder'))
        if sorted(map(str, got)) != sorted(want):
            return 'the nodes below %s are %s, not %s' % (s[0], got, want)
        for k in flat(shape) + ['none']:
            got = b.name(b.call(s[0], 'findChild', tester(b, k)))
            if got != (k if k in want else None):
                return 'the search for %s below %s finds %s' % (
                    k, s[0], got)
    return None


def tester(b, k):
    """lambda node: node.name == k"""
    f = 'lambda x: x.name == %r' % k
    it = b.it
    fr = it.alloc(b.st, Obj('frame', {}, None))
    m = it.repo.modules[MOD]
    it.stack.append(Func(m, ast.parse('def _m(): pass').body[0]))
    try:
        return it.ev(ast.parse(f, mode='eval').body, b.st, fr)
    finally:
        it.stack.pop()


def tree(ck):
    rule = 'tree'
    n, und = 0, None
    for shape in SHAPES:
        for order in ('up', 'down'):
            try:
                w = wrong(ck, shape, order)
            except (Unknown, LibError, Dead) as e:
                und = '%s: %s' % (type(e).__name__, e)
                continue
            n += 1
            if w:
                ck.violated(rule, TREE, 'a tree with the nodes %s: %s' % (
                    flat(shape), w))
                return
    if und:
        ck.undecided(rule, TREE, und)
    else:
        ck.holds(rule, TREE, '%d trees' % n)

