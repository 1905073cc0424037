"""Storage of the regressors: number, name and level stay together.

The value graph of the regressor writer (declaration of the names and of their
level lists, opening, a history of writes, closing) is evaluated over a model
of the file, for every order of declaration of up to three regressors, with the
group present or absent, one to three writes, numbers covering the levels.
Reading back as the analysis reads - names, level list of a name, column of
the name - has to give every row the level that was written for it.
"""
import itertools
from rules.common import *
from sa.nd import *
from sa.finite import replay
from rules.history import names

ASSUMES = ['datasets keep what is written to them (C15)',
           'h5py lists the members of a group in alphabetical order']
H5IO = 'ABXpy.h5tools.h5io:H5IO'
SITE = 'ABXpy/h5tools/h5io.py:H5IO'
ATTRS = '@attrs'


class Fails(Exception):
    pass


class Group(dict):
    pass


class Store(object):
    """one hdf5 file"""

    def __init__(self, exists):
        self.root = Group()
        self.exists = exists
        self.failed = set()      # try statements whose body failed
        self.lines = set()
        self.out = {}            # open datasets: term id -> [spec, rows]
        self.reads = {}

    def group(self, path, start=None):
        g = self.root if start is None else start
        for x in path.split('/'):
            if x:
                if not isinstance(g, Group) or x not in g:
                    raise KeyError(path)
                g = g[x]
        return g

    def make(self, g, path):
        for x in path.split('/'):
            if x:
                g = g.setdefault(x, Group())
        return g

    def funcs(self):
        def h5file(f, t):
            return self.root

        def h5(f, t):
            p = f(t.args[1]) if hasattr(t.args[1], 'op') else t.args[1]
            try:
                return self.group(p, f(t.args[0]))
            except KeyError:
                raise Fails('no member %s' % p)

        def gi(f, t):
            v = f(t.args[0])
            if isinstance(v, Group):
                k = f(t.args[1])
                if isinstance(k, int):      # iterating over the members
                    return sorted(x for x in v if x != ATTRS)[k]
                if not isinstance(k, str):
                    raise Unknown('member')
                try:
                    return self.group(k, v)
                except KeyError:
                    raise Fails('no member %s' % k)
            if isinstance(v, dict):
                k = f(t.args[1])
                if k not in v:
                    raise Fails('no key %r' % (k,))
                return v[k]
            if isinstance(v, list) and f(t.args[1]) in (Ellipsis, ()):
                return v
            return NotImplemented

        def attr(f, t):
            if t.args[1] == 'attrs':
                return f(t.args[0]).setdefault(ATTRS, {})
            if t.args[1] == 'buffers' and t.args[0].op == 'inst':
                return [b for b in self.out]
            return NotImplemented

        def inside(f, t):
            v = f(t.args[1])
            if isinstance(v, Group):
                k = f(t.args[0])
                try:
                    self.group(k, v)
                    return True
                except KeyError:
                    return False
            return NotImplemented

        def listed(f, t):
            v = f(t.args[0])
            if isinstance(v, Group):
                return sorted(k for k in v if k != ATTRS)
            return NotImplemented

        def mcall(f, t):
            if t.args[1] in ('create_group', 'require_group'):
                return self.make(f(t.args[0]), f(t.args[2]))
            return NotImplemented

        def np_(f, t):
            if t.args[0] == 'array' and len(t.args) == 3 and \
                    t.args[2].op == 'const' and \
                    str(t.args[2].args[0])[:1] in 'SU':
                v = f(t.args[1])
                return list(v.data if isinstance(v, Arr) else v)
            return NotImplemented

        def has(f, t):
            v = f(t.args[0])
            n = t.args[1].args[0] if isinstance(t.args[1], T) else t.args[1]
            if n in ('shape', 'dtype'):
                return isinstance(v, Arr)
            raise Unknown('hasattr %s' % n)

        def size(f, t):
            v = f(t.args[0])
            if isinstance(v, Group):
                return len(listed(f, t))
            return NotImplemented

        def isinst(f, t):
            v = f(t.args[0])
            ns = str(t.args[1])
            if isinstance(v, str):
                return 'str' in ns
            if isinstance(v, (int, Fraction)):
                return False
            raise Unknown('isinstance')

        def exc(f, t):
            n = t.args[0]
            n = n.args[0] if isinstance(n, T) else n
            return n in self.lines

        return {'exc': exc, 'h5file': h5file, 'h5': h5, 'getitem': gi, 'attr': attr,
                'in': inside, 'contains': inside, 'keys': listed,
                'mcall': mcall, 'np': np_,
                'hasattr': has, 'len': size, 'isinst': isinst}

    def visit(self, e, f):
        for k in e.ctx:
            if k[0] == 'handler' and id(k[1]) not in self.failed:
                return
            if k[0] == 'try' and id(k[1]) in self.failed:
                return
        if e.kind in ('raise', 'assert', 'call', 'method', 'store',
                      'mutate', 'delete') and not f(e.guard()):
            return
        if e.kind == 'raise' or e.kind == 'assert' and not f(e.args[0]):
            self.fail(e)
        elif e.kind == 'call' and e.name in ('open', 'builtins.open'):
            if not self.exists:
                self.fail(e)
        elif e.kind == 'method' and e.name in ('create_group',
                                               'require_group'):
            f.memo.clear()
            self.exists = True
            self.make(f(e.recv), f(e.args[0]))
            f.memo.clear()
        elif e.kind == 'method' and e.name in ('create_dataset',
                                               'require_dataset'):
            f.memo.clear()
            g = f(e.recv)
            if not isinstance(g, Group):
                raise Unknown('create_dataset')
            p = f(e.args[0])
            d = e.kwargs.get('data') or (e.args[3] if len(e.args) > 3
                                         else None)
            if d is None:
                raise Unknown('dataset without data')
            d = f(d)
            a, _, n = p.rpartition('/')
            g = self.make(g, a)
            if n in g:
                self.fail(e)
                return
            g[n] = list(d) if isinstance(d, tuple) else d
            f.memo.clear()
        elif e.kind == 'method' and e.name == 'add_dataset' and \
                e.recv.op == 'inst':
            b = e.bound
            if b is None:
                raise Unknown('add_dataset')
            k = (e.result.args[2],) + tuple(
                f(x) for x in e.result.args[3:])
            self.out[k] = ({n: f(x) if n in ('group', 'dataset') else x
                            for n, x in b.items() if isinstance(x, T)}, [], f)
            self.out[k][0]['@type'] = f.dtype(b['item_type'])
            self.out[k][0]['@width'] = f(b['n_columns'])
        elif e.kind == 'method' and e.name == 'write':
            k = self.writer(f, e.recv)
            if k is None or k not in self.out:
                raise Unknown('write')
            v = arr(f(e.args[0]))
            if len(v.shape) != 2 or v.shape[1] != self.out[k][0]['@width']:
                raise ShapeError('rows of shape %s in a table of %s columns'
                                 % (v.shape, self.out[k][0]['@width']))
            self.out[k][1].extend(
                [[fit(x, self.out[k][0]['@type']) for x in r.data]
                 for r in v])
        elif e.kind in ('store', 'mutate') and e.name == 'setitem':
            f.memo.clear()
            g = f(e.recv)
            if isinstance(g, dict):
                g[f(e.args[0])] = f(e.args[1])
                f.memo.clear()

    def writer(self, f, t):
        if t.op == 'ite':
            return self.writer(f, t.args[1 if f(t.args[0]) else 2])
        if t.op == 'mcall' and t.args[1] == 'add_dataset':
            return (t.args[2],) + tuple(f(x) for x in t.args[3:])
        if t.op == 'getitem' or t.op == 'dict':
            raise Unknown('writer %s' % show(t, 3))
        return None

    def fail(self, e):
        for k in reversed(e.ctx):
            if k[0] == 'try':
                # the handlers of this repository catch what can fail here
                self.failed.add(id(k[1]))
                self.lines.add(k[1].lineno)
                return
        raise Fails('%s at line %s' % (e.kind, e.where[2]))


class Writer(object):
    """the writer with given declarations"""

    def __init__(self, ck, names, order, writes, raw=()):
        it = Interp(ck.repo, opaque=set(), opaque_classes={'NP2H5'},
                    exact=True)
        st = State()
        ds = it.new_list(st, [const(n) for n in names])
        ix = it.new_dict(st, [(const(n), sym('L.' + n)) for n in order])
        h = it.instantiate(H5IO, [], {
            'filename': const('F'), 'datasets': ds, 'indexes': ix,
            'group': const('/regressors/b/')}, st, None)
        it.call_method(h, '__enter__', [], {}, st, None)
        for w in range(writes):
            d = it.new_list(st, [sym('D%d.%s' % (w, n)) for n in names])
            it.call_method(h, 'write', [d], {'indexed': TRUE}, st, None)
        it.call_method(h, '__exit__', [NONE, NONE, NONE], {}, st, None)
        self.it, self.names, self.order, self.writes = it, names, order, \
            writes
        ck.saw(it)

    def run(self, levels, rows, exists, group):
        """rows: per write, per name, the level numbers"""
        s = Store(exists)
        if group:
            s.make(s.root, 'regressors/b')
        elif exists:
            s.make(s.root, 'triplets')
        env = {}
        for n in self.order:
            env[sym('L.' + n).id] = list(levels[n])
        for w, r in enumerate(rows):
            for n in self.names:
                env[sym('D%d.%s' % (w, n)).id] = arr(r[n], 'i8') \
                    if n in self.order else arr(r[n])
        f = ND(env, s.funcs(), self.it)
        replay(self.it, self.it.events, f, s.visit)
        return s


def judge(s, names, order, levels, rows):
    try:
        g = s.group('regressors/b')
    except KeyError:
        return 'there is no group of the by level'
    tabs = {}
    for spec, r, _ in s.out.values():
        tabs[spec['group'].strip('/') + '/' + spec['dataset']] = r
    if order:
        for k in ('indexed_datasets', 'indexes'):
            if k not in g:
                return '%s is not stored' % k
        regs = list(g['indexed_datasets'])
        if sorted(regs) != sorted(order):
            return 'the names %s are stored for %s' % (regs, list(order))
        t = tabs.get('regressors/b/indexed_data')
        want = {n: [levels[n][x] for r in rows for x in r[n]] for n in order}
        if t is None:
            return 'no numbers are stored'
        for j, n in enumerate(regs):
            if n not in g['indexes']:
                return 'there are no levels for %s' % n
            lv = g['indexes'][n]
            lv = lv.data if isinstance(lv, Arr) else lv
            try:
                got = [lv[r[j]] for r in t]
            except IndexError:
                return '%s has a number without a level' % n
            if got != want[n]:
                return 'the rows of %s written with levels %s read as %s' % (
                    n, brief(want[n]), brief(got))
    for n in names:
        if n not in order:
            t = tabs.get('regressors/b/' + n)
            if t is None:
                return '%s is not stored' % n
            if [x for r in t for x in r] != [x for r in rows for x in r[n]]:
                return 'the values of %s change' % n
    return None


def brief(v):
    return v if len(v) < 7 else '%s...' % (v[:5],)


LEVELS = {'a': ['a0', 'a1', 'a2'], 'b': ['b0', 'b1'], 'c': ['c0'],
          'z': ['z%d' % i for i in range(5)]}


def data(names, writes, seed):
    rows = []
    for w in range(writes):
        n = (3, 1, 2)[(w + seed) % 3]
        rows.append({x: [(i * (j + 2) + w + seed) % len(LEVELS[x])
                         for i in range(n)]
                     for j, x in enumerate(names)})
    return rows


def decls(wide):
    for names in (['a'], ['z', 'a'], ['b', 'z', 'a'], ['c', 'b']):
        for order in itertools.permutations(names):
            yield names, list(order)
    if wide:
        for order in itertools.permutations(['a', 'b', 'c', 'z']):
            yield ['z', 'b', 'c', 'a'], list(order)


def store_rule(ck):
    rule = 'levels of the rows'
    n = 0
    for names, order in decls(ck.tier == 'thorough'):
        for writes in (1, 3) if len(names) < 3 else (2,):
            try:
                u = Writer(ck, names, order, writes)
                for exists, group in ((True, False), (True, True),
                                      (False, False)):
                    rows = data(names, writes, n)
                    s = u.run(LEVELS, rows, exists, group)
                    n += 1
                    bad = judge(s, names, order, LEVELS, rows)
                    if bad:
                        break
            except Fails as x:
                bad = 'it fails: %s' % x
            except ShapeError as x:
                bad = str(x)
            except Unknown as x:
                ck.undecided(rule, SITE, str(x)[:200])
                return
            if bad:
                ck.violated(rule, SITE, 'regressors %s with level lists '
                            'declared in the order %s: %s' % (
                                names, order, bad))
                return
    ck.holds(rule, SITE, '%d stores' % n)


RULES = [store_rule, names]
