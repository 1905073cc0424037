"""Filter and regressor managers with concrete column names.

The columns of the analysed database form a small hierarchy: `o` (on) with a
dependent column `o2`, `a` and `a2` (across), `b` and `b2` (by), and `z`, which
depends on none of them. The managers are interpreted for given lists of
operations; an operation is abstract: evaluating it gives a term holding the
context it was evaluated in.
"""
from rules.common import *
from sa.drive import *
from sa.nd import *
from sa.interp import Dead

TREE = 'ABXpy.misc.tinytree:Tree'
COLS = {'o': 'o2', 'a': 'a2', 'b': 'b2', 'z': None}
FM = 'ABXpy.sideop.filter_manager:FilterManager'
RM = 'ABXpy.sideop.regressor_manager:RegressorManager'
SOM = 'ABXpy.sideop.side_operations_manager:SideOperationsManager'
CMP = 'ABXpy.dbfun.dbfun_compute:DBfun_Compute'
COL = 'ABXpy.dbfun.dbfun_column:DBfun_Column'


def trees(it, st):
    """list of abstract hierarchies, and the natives that walk them"""
    kids = {}

    def node(name, children):
        n = it.alloc(st, Obj('inst', {
            'name': const(name), 'children': it.new_list(st, children)},
            TREE))
        kids[n.id] = [n] + [y for x in children for y in kids[x.id]]
        return n

    def pre(it, args, kw, st, nd):
        if args[0].id not in kids:
            return it.fresh('tree')
        return it.new_list(st, kids[args[0].id])

    def find(it, args, kw, st, nd):
        if args[0].id not in kids or kw:
            return it.fresh('tree')
        for k in kids[args[0].id]:
            ok = True
            for f in args[1:]:
                c = it.truth(it.call(f, [k], {}, st, nd), st)
                if c is FALSE:
                    ok = False
                elif c is not TRUE:
                    return it.fresh('tree')
            if ok:
                return k
        return NONE
    it.natives[TREE + '.preOrder'] = pre
    it.natives[TREE + '.findChild'] = find
    out = []
    for c in sorted(COLS):
        out.append(node(c, [node(COLS[c], [])] if COLS[c] else []))
    return it.new_list(st, out)


GARBAGE = sym('garbage')


def spoil(it, ref, st):
    """what the evaluation of an operation may do to its context"""
    o = it.obj(st, ref)
    if o is None or o.kind != 'dict':
        return
    for l, g, k, v in o.data:
        w = it.obj(st, v)
        if w is not None and w.kind == 'list':
            st.heap[v.args[0]] = Obj('list', (('x', TRUE, GARBAGE),))
    st.heap[ref.args[0]] = Obj('dict', tuple(
        (l, g, k, GARBAGE) for l, g, k, v in o.data), o.cls)


def operations(it, ops, outputs=1):
    """ops: {definition: input names}; natives of the operations"""
    def init(cls):
        def f(it, args, kw, st, nd):
            q = it.find_method(cls, '__init__')
            b = it.bind_terms(q, list(args), kw, st)
            if b is None:
                it.event('badcall', cls, None, args, kw, st, nd)
                return NONE
            vs = list(b.values())
            d = vs[1]
            if d.op != 'const' or cls == CMP and d.args[0] not in ops:
                raise Unknown('operation')
            name = d.args[0]
            o = st.heap[vs[0].args[0]]
            data = dict(o.data)
            data['input_names'] = it.new_list(
                st, [const(x) for x in ops.get(name, [name])])
            data['label'] = const(name)
            data['n_outputs'], data['output_names'] = const(outputs), NONE
            st.heap[vs[0].args[0]] = Obj('inst', data, o.cls)
            it.event('op', name, None, vs[1:], {}, st, nd)
            return NONE
        return f

    def ev(it, args, kw, st, nd):
        o = st.heap[args[0].args[0]]
        e = it.event('opeval', o.data['label'].args[0], None,
                     [it.snap(x, st) for x in args[1:]], {}, st, nd)
        e.result = mk('opres', o.data['label'], *e.args)
        if it.yield_hooks:
            self_eager.append(e)
        for x in args[1:]:
            spoil(it, x, st)
        return e.result
    self_eager = it.eager = []
    it.natives[CMP + '.__init__'] = init(CMP)
    it.natives[CMP + '.evaluate'] = ev


class Manager(object):
    """an interpreted manager; rejected: the definitions are refused"""

    def __init__(self, ck, cls, ops, defs=None, on='o', across=('a',),
                 by=('b',), outputs=1):
        it = self.it = interp(ck.repo)
        it.positions = True
        st = self.st = State()
        t = trees(it, st)
        operations(it, ops, outputs)
        self.ops, self.rejected = ops, False
        args = [t, it.new_list(st, [const(on)]),
                it.new_list(st, [const(x) for x in across]),
                it.new_list(st, [const(x) for x in by]),
                it.new_list(st, [const(x) for x in (
                    sorted(ops) if defs is None else defs)])]
        if cls == RM:
            args.insert(0, sym('db'))
        try:
            self.obj = it.instantiate(cls, args, {}, st, None)
        except Dead:
            self.rejected = True
        for e in it.events:
            if e.kind == 'badcall':
                raise Unknown('call of %s' % e.name)
            if e.kind == 'raise' and e.guard() is not TRUE:
                raise Unknown('undecided error at %s' % (e.where,))
            if e.kind == 'raise':
                self.rejected = True
        ck.saw(it)
        self.terms = {}

    def call(self, name, *args):
        """the value graph of a method call"""
        k = (name,) + tuple(a.id for a in args)
        if k not in self.terms:
            n = len(self.it.events)
            st = self.st.copy()
            r = self.it.call_method(self.obj, name, list(args), {}, st, None)
            self.terms[k] = (self.it.snap(r, st), st, self.it.events[n:])
            if self.it.eager:
                raise Unknown('operations evaluated in a generator function')
        return self.terms[k][0]

    def after(self, name, args, attr):
        """an attribute of the manager after a method call"""
        self.call(name, *args)
        st = self.terms[(name,) + tuple(a.id for a in args)][1]
        o = st.heap[self.obj.args[0]]
        return self.it.snap(o.data[attr], st)


# ------------------------------------------------------------ the data base

class Frame(object):
    def __init__(self, labels, cols):
        self.labels, self.cols = list(labels), cols

    def take(self, pos):
        return Frame([self.labels[p] for p in pos],
                     {c: [v[p] for p in pos] for c, v in self.cols.items()})


class Column(list):
    def __init__(self, labels, vals):
        list.__init__(self, vals)
        self.labels, self.vals = list(labels), list(vals)

    def at(self, ls):
        """values at labels"""
        if not isinstance(ls, (list, Arr, Column)):
            if ls not in self.labels:
                raise Wrong('item %r is not in the frame' % (ls,))
            return self.vals[self.labels.index(ls)]
        ls = ints(ls)
        return Column(ls, [self.at(x) for x in ls])


class Wrong(Exception):
    """an operation is given something else than its columns"""


def ints(x):
    if isinstance(x, Column):
        x = x.vals
    if isinstance(x, Arr):
        x = x.tolist()
    x = list(x)
    if any(isinstance(y, bool) for y in x):
        if not all(isinstance(y, bool) for y in x):
            raise Unknown('mask')
        return None
    return x


ROWS = {  # label: (on, across); labels are not positions
    3: (11, 24), 5: (11, 21), 8: (13, 21), 9: (11, 21), 12: (11, 25),
    14: (12, 21), 20: (11, 21), 21: (15, 26)}
ITEMS = {'A': [9, 20, 5], 'B': [14, 8], 'X': [12, 3]}


def database(zero=None):
    ls = sorted(ROWS)
    d = Frame(ls, {
        'o': [ROWS[l][0] for l in ls], 'o2': [100 + ROWS[l][0] for l in ls],
        'a': [ROWS[l][1] for l in ls], 'a2': [100 + ROWS[l][1] for l in ls],
        'b': [31 for l in ls], 'b2': [131 for l in ls],
        'z': [1000 + l for l in ls]})
    if zero:
        d.cols[zero[0]] = [0 if x in zero[1] else x
                           for x in d.cols[zero[0]]]
    return d


def split(var):
    for s in ('_AB', '_AX', '_A', '_B', '_X', '_1', '_2'):
        if var.endswith(s):
            return var[:-len(s)], s
    return var, ''


def item_of(r, s):
    """the item of a triplet whose column r is meant by r + s"""
    if s in ('_A', '_AB', '_AX', '_1'):
        return 'A'
    if s == '_2':
        return 'B' if r in ('o', 'o2') else 'X'
    return s[1:]


def meaningless(vars_, generic=True):
    """the reason why an operation on these columns is to be refused"""
    on, across, by = ('o', 'o2'), ('a', 'a2'), ('b', 'b2')
    vs = [split(v) for v in vars_]
    for r, s in vs:
        if s in ('_1', '_2') and r not in on + across:
            return '%s: %s is neither determined by on nor by across' % (
                r + s, r)
        if s == '_AX' and r not in on:
            return '%s: %s is not determined by on' % (r + s, r)
        if s == '_AB' and r not in across:
            return '%s: %s is not determined by across' % (r + s, r)
    rest = [s for r, s in vs if r not in by]
    if '' in rest and (any(rest) or not generic):
        return '%s: a column without item' % ', '.join(
            r for r, s in vs if s == '' and r not in by)
    return None


class Side(ND):
    """evaluation over the data base; P[label]: accepted tuples"""

    def __init__(self, m, env, P=None):
        if isinstance(m, dict):
            raise TypeError
        self.m, self.P = m, P
        ND.__init__(self, env, {}, m.it)

    def sub(self, env):
        e = dict(self.env)
        e.update(env)
        return Side(self.m, e, self.P)

    def op_opres(self, t, label, ctx):
        c = self(ctx)
        name = label.args[0]
        ins = self.m.ops.get(name, [name])
        for v in ins:
            if v not in c:
                raise Wrong('%s is not provided' % v)
        vals = [plainlist(c[v]) for v in ins]
        if len(set(map(len, vals))) > 1:
            raise Wrong('the columns %s have different lengths' %
                        ', '.join(ins))
        out = []
        for row in zip(*vals):
            if row not in self.P[name]:
                raise Wrong('%s is evaluated on %s' % (', '.join(ins), row))
            out.append(self.P[name][row])
        return out

    def op_dict(self, t, *es):
        d = {}
        for e in es:
            ds, g, k, v = e.args
            for f in self.iterate(ds, g, k, v):
                if f(g):
                    d[f(k)] = f(v)
        return d

    def op_repeat(self, t, x, n):
        return plainlist(self(x)) * self(n)

    def op_posn(self, t, x, kind):
        v = self(x)
        if isinstance(v, Column):
            v = list(v.vals)
        return arr(v) if kind == 'array' and not isinstance(v, Arr) else \
            v if kind == 'array' else plainlist(v)

    def op_iloc(self, t, x, i):
        v, k = self(x), self(i)
        if isinstance(v, (Frame, Column)):
            if isinstance(k, int) and not isinstance(k, bool):
                return {c: y[k] for c, y in v.cols.items()} \
                    if isinstance(v, Frame) else v.vals[k]
            p = ints(k)
            if p is None:
                p = [j for j, y in enumerate(plainlist(k)) if y]
            if any(not -len(v.labels) <= j < len(v.labels) for j in p):
                raise Wrong('position %s of %d rows' % (
                    max(p), len(v.labels)))
            if isinstance(v, Frame):
                return v.take(p)
            return Column([v.labels[j] for j in p], [v.vals[j] for j in p])
        return NotImplemented

    def op_loc(self, t, x, i):
        v, k = self(x), self(i)
        if isinstance(v, Column):
            return v.at(k)
        if isinstance(v, Frame) and isinstance(k, tuple) and len(k) == 2 \
                and isinstance(k[1], str):
            return Column(v.labels, v.cols[k[1]]).at(k[0])
        if isinstance(v, Frame) and isinstance(k, (list, Arr)) and \
                ints(k) is not None:
            return v.take([v.labels.index(j) for j in ints(k)])
        return NotImplemented

    def op_len(self, t, x):
        v = self(x)
        if isinstance(v, (Frame, Column)):
            return len(v.labels)
        return ND.op_len(self, t, x)

    def op_getitem(self, t, x, i):
        v = self(x)
        if isinstance(v, Frame):
            k = self(i)
            if isinstance(k, str):
                return Column(v.labels, v.cols[k])
            if isinstance(k, (list, Arr)) and ints(k) is None:
                return v.take([j for j, y in enumerate(plainlist(k)) if y])
            raise Unknown('frame item')
        if isinstance(v, Column):
            k = self(i)
            if isinstance(k, (list, Arr)) and ints(k) is None:
                p = [j for j, y in enumerate(plainlist(k)) if y]
                return Column([v.labels[j] for j in p],
                              [v.vals[j] for j in p])
            if isinstance(k, tuple):
                raise Unknown('column item')
            return v.at(k)
        return ND.op_getitem(self, t, x, i)

    def op_attr(self, t, x, n):
        v = self(x)
        if n == 'size' and isinstance(v, list):
            return len(v)
        if isinstance(v, (Column, Frame)):
            if n == 'index':
                return list(v.labels)
            if n in ('shape',):
                return (len(v.labels),) + (
                    (len(v.cols),) if isinstance(v, Frame) else ())
            raise Unknown('attribute %s' % n)
        return ND.op_attr(self, t, x, n)

    def op_setof(self, t, x, *r):
        v = self(x)
        return sorted(set(plainlist(v)))[::-1]     # any fixed order

    def op_indexof(self, t, x, e):
        v = plainlist(self(x))
        k = self(e)
        if k not in v:
            raise Wrong('the value %r is not in the index' % (k,))
        return v.index(k)

    def op_index(self, t, x):
        v = self(x)
        if isinstance(v, (Column, Frame)):
            return list(v.labels)
        return NotImplemented

    def op_mcall(self, t, x, n, *args):
        v = self(x)
        if isinstance(v, (Column, Frame)) and n == 'take' and \
                len(args) == 1:
            return self.op_iloc(t, x, args[0])
        return ND.op_mcall(self, t, x, n, *args)


def plainlist(v):
    if isinstance(v, Column):
        return list(v.vals)
    if isinstance(v, Arr):
        if len(v.shape) != 1:
            raise Unknown('shape')
        return v.tolist()
    if not isinstance(v, (list, tuple)):
        raise Wrong('a value that is not a list of items')
    return list(v)


V, DB, IX = sym('vals'), sym('db'), sym('idx')


def triplets(items):
    return [(a, b, x) for a in items['A'] for b in items['B']
            for x in items['X']]


def row_of(var, t, by, db):
    """value of a variable for a triplet (or, without suffix, for an item)"""
    r, s = split(var)
    if r in ('b', 'b2'):
        return by[r]
    k = t if not isinstance(t, tuple) else t['ABX'.index(item_of(r, s))]
    return db.cols[r][db.labels.index(k)]


def generic(vars_):
    return all(split(v)[1] == '' or split(v)[0] in ('b', 'b2')
               for v in vars_) and not all(
        split(v)[0] in ('b', 'b2') for v in vars_)


def tuples(vars_):
    """every tuple of values an operation may be evaluated on"""
    db = database()
    by = {c: v[0] for c, v in db.cols.items()}
    dom = db.labels if generic(vars_) else triplets(ITEMS)
    return sorted({tuple(row_of(v, t, by, db) for v in vars_) for t in dom})


class Pipeline(object):
    """the successive filters, applied as the task does"""

    def __init__(self, m):
        self.m = m

    def __call__(self, P, zero=None):
        m, db = self.m, database(zero)
        g = {GARBAGE.id: ['garbage'] * 40}

        def run(name, args, **env):
            e = dict(g)
            for k, v in (('vals', V), ('db', DB), ('idx', IX)):
                if k in env:
                    e[v.id] = env[k]
            return Side(m, e, P)(m.call(name, *args))
        by = {c: v[0] for c, v in db.cols.items()}
        if not run('by_filter', [V], vals=by):
            return []
        db1 = run('generic_filter', [V, DB], vals=by, db=db)
        if not isinstance(db1, Frame):
            raise Unknown('generic filter')
        it = {k: [x for x in v if x in db1.labels] for k, v in ITEMS.items()}
        if not all(it.values()):
            return []
        k = db1.labels.index(min(it['A']))
        vals = {c: v[k] for c, v in db1.cols.items()}
        if not run('on_across_by_filter', [V], vals=vals):
            return []
        for n in 'ABX':
            pos = run(n + '_filter', [V, DB, IX], vals=vals, db=db1,
                      idx=arr(it[n]))
            pos = positions_(pos, len(it[n]))
            it[n] = [it[n][p] for p in pos]
            if not it[n]:
                return []
        ts = triplets(it)
        pos = positions_(run('ABX_filter', [V, DB, IX], vals=vals, db=db1,
                             idx=arr([list(t) for t in ts])), len(ts))
        return [ts[p] for p in pos]

    def expected(self, defs, P, zero=None):
        db = database(zero)
        by = {c: v[0] for c, v in db.cols.items()}
        out = []
        for t in triplets(ITEMS):
            ok = True
            for d in defs:
                ins = self.m.ops.get(d, [d])
                for u in (t if generic(ins) else [t]):
                    x = tuple(row_of(v, u, by, db) for v in ins)
                    ok = ok and bool(P[d][x] if d in self.m.ops else x[0])
            if ok:
                out.append(t)
        return out


def positions_(v, n):
    p = plainlist(v)
    if p and all(isinstance(x, bool) for x in p):
        if len(p) != n:
            raise Wrong('a mask of %d for %d' % (len(p), n))
        return [i for i, x in enumerate(p) if x]
    if any(not 0 <= x < n for x in p):
        raise Wrong('position out of range')
    return p
