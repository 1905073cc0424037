"""No stored integer wraps around.

The value graphs of the task generator, of scoring, of the analysis and of the
regressor tables are extracted with their array types and evaluated with exact
machine arithmetic (sa/nd.py: every operation wraps as its type does) at the
values where a type changes: largest item label, number of combinations of a
block, positions of by levels, pair keys, regressor codes. Every value has to
come out as over the integers, and every table has to have a type that holds
the values written into it. The type table itself is evaluated at all its
boundaries.
"""
import itertools
from rules.tasklib import *
from sa.nd import *
from rules import c13, c35

ASSUMES = ['numpy 1.23 type promotion as modelled in sa/nd.py',
           'fewer than 2**31 items']
TF = 'ABXpy.misc.type_fitting:fit_integer_type'
EDGES = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767,
         32768, 65534, 65535, 65536, 65537, 2 ** 31 - 2, 2 ** 31 - 1]
T = 'ABXpy/task.py:Task.'


def holds(dt, n):
    if dt is None:
        return True
    if dt[0] == 'f':
        return n <= 2 ** {'f2': 11, 'f4': 24, 'f8': 53}[dt]
    if dt[0] not in 'iu':
        raise Unknown('type %s' % dt)
    return n < lim(dt)[1]


# ---------------------------------------------------------------- type table

def table_rule(ck):
    rule, w = 'type table', 'ABXpy/misc/type_fitting.py:fit_integer_type'
    ks = [0, 1, 100]
    for b in (7, 8, 15, 16, 31, 32, 63, 64):
        ks += [2 ** b - 1, 2 ** b, 2 ** b + 1]
    for s in (True, False):
        it = Interp(ck.repo, exact=True)
        st, res = it.run(TF, [sym('n')], {'is_signed': const(s)})
        ck.saw(it)
        for n in ks:
            f = ND({sym('n').id: n}, {}, it)
            try:
                err = any(f(e.guard()) for e in it.events
                          if e.kind == 'raise')
                dt = None if err else f.dtype(res)
            except Unknown as e:
                ck.undecided(rule, w, str(e))
                return
            big = n >= 2 ** (63 if s else 64)
            if big and not err:
                ck.violated(rule, w, '%d (%ssigned) gets %s, which cannot '
                            'hold it' % (n, '' if s else 'un', dt))
                return
            if not big and (err or not holds(dt, n)):
                ck.violated(rule, w, '%d (%ssigned) gets %s' % (
                    n, '' if s else 'un', 'an error' if err else
                    dt + ', which cannot hold it'))
                return
    ck.holds(rule, w, '%d values, signed and unsigned' % len(ks))


# ------------------------------------------------------------ task generator

class Labels(ND):
    """one by level whose item labels end with L"""

    def __init__(self, env, funcs=None, it=None, labels=(), others=()):
        ND.__init__(self, env, funcs, it)
        self.labels, self.others = labels, others

    def sub(self, env):
        e = dict(self.env)
        e.update(env)
        return Labels(e, self.funcs, self.it, self.labels, self.others)

    def each(self, v, d, body=()):
        if d.op in ('groupby', 'groups'):
            f = self.sub({v.id: 'by'})
            yield f
            for i, ls in enumerate(self.others):
                f = self.sub({v.id: 'other%d' % i})
                f.labels = ls
                yield f
            return
        for x in ND.each(self, v, d, body):
            yield x

    def op_index(self, t, x):
        return Arr((len(self.labels),), list(self.labels), 'i8')

    def op_len(self, t, x):
        if x.op in ('filtered', 'reindexed', 'gframe'):
            return len(self.labels)
        return ND.op_len(self, t, x)

    def op_keep(self, t, r, v, db, idx):
        return Arr((len(self(idx)),), list(range(len(self(idx)))), 'i8')

    def op_truth(self, t, x):
        if x.op in ('byok', 'oabok'):
            return True
        return ND.op_truth(self, t, x)


def is_rows(t):
    return t.op in ('rows', 'setdiff', 'setinter', 'setunion', 'setof',
                    'list', 'set')


def item_arrays(t):
    """arrays of item labels with a type, in a term"""
    out = []
    for x in subterms(t):
        if x.op == 'np' and x.args[0] in ('array', 'astype') and \
                len(x.args) == 3 and (is_rows(x.args[1]) or any(
                    y.op in ('rows', 'setdiff', 'setinter')
                    for y in subterms(x.args[1]))) and not any(
                    y.op in ('reg', 'arange') for y in subterms(x.args[1])):
            out.append(x)
    return out


def triplet_write(u):
    es = [e for e in u.it.events[u.n0:] if e.kind == 'method' and
          e.name == 'write' and e.args and any(
              x.op == 'cols' for x in subterms(e.args[0])) and
          e.args[0].op != 'dict']
    out = []
    for e in es:
        d = next((x for x in u.it.events if x.result is e.recv), None)
        if d is not None and const('on_across_block_index') in list(
                d.args) + list(d.kwargs.values()):
            continue
        if item_arrays(e.args[0]):
            out.append(e)
    return out


class Run(object):
    def __init__(self, ck, across, by, filters, thr):
        self.it, self.st, self.t, self.n0, _ = generated(
            ck.repo, across, by, filters, thr, exact=True)
        self.name = '%d across, %d by%s%s' % (
            across, by, ', filters' if filters else '',
            ', threshold' if thr else '')
        ck.saw(self.it)


def labels_rule(ck, u):
    ws = triplet_write(u)
    if not ws:
        ck.undecided('item labels', T + 'on_across_triplets', 'no write')
        return
    n = 0
    for e in ws:
        for x in item_arrays(e.args[0]):
            n += 1
            for L in EDGES:
                f = Labels({}, {}, u.it, (0, L))
                dt = f.dtype(x.args[2])
                if not holds(dt, L):
                    ck.violated('item labels', e, '%s: the item %d is stored '
                                'as %s in an array of %s' % (
                                    u.name, L, fit(L, dt), dt))
                    return
    ck.holds('item labels', ws[0], '%s: %d arrays of item labels' % (
        u.name, n))
    ds = [e for e in u.it.events[u.n0:] if e.kind == 'method' and
          e.name == 'add_dataset' and e.result is not None and any(
              w.recv is e.result for w in ws)]
    for e in ds:
        t = e.kwargs.get('item_type')
        if t is None:
            t = (e.bound or {}).get('item_type')
        if t is None:
            ck.undecided('triplet table', e, 'no type')
            continue
        for L, first in itertools.product(EDGES, (None, True, False)):
            L = max(L, 2)
            bys = [(0, L)] if first is None else [(0, L), (0, 1)] if first \
                else [(0, 1), (0, L), (0, 2)]
            dt = Labels({}, {}, u.it, bys[0], bys[1:]).dtype(t)
            if not holds(dt, L):
                ck.violated('triplet table', e, '%s: the item %d is stored in '
                            'a table of %s' % (u.name, L, dt))
                return
        ck.holds('triplet table', e, '%s: labels at %d boundaries' % (
            u.name, len(EDGES)))
    if not ds:
        ck.undecided('triplet table', ws[0], 'table of the triplets')


def digits_rule(ck, u):
    """row numbers of a block to members of A, B and X"""
    for e in triplet_write(u):
        arrs = item_arrays(e.args[0])
        ids = {x.id for x in arrs}
        dig = {}
        for x in subterms(e.args[0]):
            if x.op != 'getitem':
                continue
            b = x.args[0]
            while b.op == 'getitem' and b.args[1].op == 'keep':
                b = b.args[0]
            if b.id in ids and x.args[1].op != 'keep' and any(
                    y.op == 'arange' for y in subterms(x.args[1])) and \
                    not any(y.op == 'reg' for y in subterms(x.args[1])):
                dig.setdefault(b.id, x.args[1])
        if len(dig) != 3:
            ck.undecided('block rows', e, '%d columns' % len(dig))
            return
        ks = sorted(dig)
        sizes = [(1, 1, 1), (5, 3, 17), (3, 17, 5), (17, 5, 3), (16, 4, 4),
                 (4, 16, 4), (4, 4, 16), (255, 1, 1), (1, 256, 1),
                 (1, 1, 257), (2, 128, 1), (1, 3, 100)]
        sizes += [(7, 7, 7), (6, 7, 8), (40, 40, 41)]
        if ck.tier == 'thorough':
            sizes += [(256, 256, 1), (1, 256, 256), (16, 16, 256),
                      (255, 257, 1)]
        for sz, more in itertools.product(sizes, (0, 1, 5)):
            f = Labels({k: Arr((n,), list(range(n)), 'i8')
                        for k, n in zip(ks, sz)}, {}, u.it, (0, sum(sz)),
                       [(0, 1)] * more)
            vs = [f(dig[k]) for k in ks]
            vs = [v.tolist() for v in vs]
            n = sz[0] * sz[1] * sz[2]
            seen = set(zip(*vs))
            if any(len(v) != n for v in vs) or len(seen) != n or any(
                    not 0 <= x < m for v, m in zip(vs, sz) for x in v):
                ck.violated('block rows', e, '%s: in a block of %d x %d x %d '
                            'the rows give %d of %d combinations' % (
                                u.name, sz[0], sz[1], sz[2], len(seen), n))
                return
        ck.holds('block rows', e, '%s: %d block sizes' % (
            u.name, len(sizes)))


def by_rule(ck, u):
    """positions of the by levels in the triplet table"""
    es = [e for e in u.it.events[u.n0:] if e.kind == 'method' and
          e.name == 'create_dataset' and e.args and
          e.args[0] is const('by_index')]
    if len(es) != 1:
        ck.undecided('by positions', T + 'generate_triplets', 'by_index')
        return
    e = es[0]
    data = e.kwargs.get('data')
    src = [x for x in subterms(data) if x.op == 'lcat'] if data is not None \
        else []
    src = [x for x in src if any(y is ZERO for p in x.args if p.op == 'li'
                                 for y in p.args)]
    # the list itself, not a list its conditions mention
    src = [x for x in src if not any(y is not x and x in subterms(y)
                                     for y in src)]
    if len({x.id for x in src}) != 1:
        ck.undecided('by positions', e, '%d lists' % len(src))
        return
    for n in EDGES:
        pos = [0, (n + 1) // 2, n] if n > 1 else [0, n]
        env = {src[0].id: pos}
        for y in src[0].args:       # the number of positions
            if y.op == 'lcomp':
                env[mk('count', *y.args[:2]).id] = len(pos) - 1
                env[y.id] = pos[1:]
        f = Labels(env, {}, u.it, (0, 5))
        v = f(data)
        want = [list(p) for p in zip(pos, pos[1:])]
        if v.tolist() != want:
            ck.violated('by positions', e, '%s: the by levels %s are recorded '
                        'as %s' % (u.name, want, v.tolist()))
            return
    ck.holds('by positions', e, '%s: %d sizes' % (u.name, len(EDGES)))


def only_counts(b):
    """b counts groups, not rows"""
    body = b.args[2] if b.op == 'sum' and len(b.args) > 2 else b
    return body.op == 'len' and body.args[0].op == 'groupby'


def block_table_rule(ck, u):
    """table of the positions of on-across blocks: holds the number of
    triplets"""
    ds = [e for e in u.it.events[u.n0:] if e.kind == 'method' and
          e.name == 'add_dataset' and
          e.kwargs.get('dataset') is const('on_across_block_index')]
    tr = [e for e in u.it.events[u.n0:] if e.kind == 'method' and
          e.name == 'add_dataset' and e.kwargs.get('dataset') is const('data')
          and e.kwargs.get('group') is const('triplets')]
    if len(ds) != 1 or len(tr) != 1:
        return
    t = ds[0].kwargs.get('item_type')
    n = tr[0].kwargs.get('n_rows')
    if t is None or n is None:
        return
    tests, x = {}, t
    while x.op == 'ite' and x.args[0].op == 'lt' and is_num(x.args[0].args[1]):
        tests[x.args[0].args[0].id] = x.args[0].args[0]
        x = x.args[2]
    if len(tests) != 1:
        ck.undecided('block positions', ds[0], '%d bounds' % len(tests))
        return
    b = list(tests.values())[0]
    if only_counts(b):
        ck.violated('block positions', ds[0], '%s: positions of triplets are '
                    'stored in a table for numbers up to the number of '
                    'blocks' % u.name)
        return
    if b is not n and not is_num(sub(b, n)):
        ck.undecided('block positions', ds[0], 'bound %s' % show(b, 4))
        return
    for k in EDGES:
        f = Labels({n.id: k}, {}, u.it, (0, 5))
        if not holds(f.dtype(t), max(k - 1, 0)):
            ck.violated('block positions', ds[0], '%s: position %d is stored '
                        'in a table of %s' % (u.name, k - 1, f.dtype(t)))
            return
    ck.holds('block positions', ds[0], '%s: %d sizes' % (u.name, len(EDGES)))


CONFIGS = [(0, 0, (), None), (1, 1, (), None), (2, 1, (), 1),
           (1, 1, ('A', 'B', 'X', 'ABX'), None)]


def task_rule(ck):
    for c in CONFIGS:
        u = Run(ck, *c)
        for r in (labels_rule, digits_rule, by_rule, block_table_rule,
                  pairs_rule):
            try:
                r(ck, u)
            except Unknown as x:
                ck.undecided(r.__name__, T + 'generate_triplets', '%s: %s' % (
                    u.name, x))


# ----------------------------------------------------------------- pair keys

PAIRS = [1, 2, 3, 11, 12, 14, 15, 16, 127, 128, 180, 181, 254, 255, 256,
         32767, 32768, 46339, 46340, 46341, 65534, 65535, 65536]


def chunk_terms(it, t):
    """chunks of a triplet table"""
    out = {}
    for x in subterms(t):
        if x.op == 'getitem' and x.args[1].op == 'iv':
            s = source_event(it, x.args[0])
            if s is not None and s.bound and \
                    s.bound.get('group') is const('triplets'):
                out[x.id] = x
    return list(out.values())


def item_type(L):
    return 'i1' if L < 2 ** 7 else 'i2' if L < 2 ** 15 else \
        'i4' if L < 2 ** 31 else 'i8'


def sample_triplets(L):
    rows = [(L, L, L), (0, L, L), (L, 0, 0), (0, 0, L), (L, 0, L),
            (L - 1, 1, L)]
    return Arr((len(rows), 3), [x for r in rows for x in r], item_type(L)), \
        rows


def pairs_rule(ck, u):
    rule = 'pair keys'
    n = 0
    for e in u.it.events[u.n0:]:
        if not (e.kind == 'method' and e.name == 'write' and e.args):
            continue
        cs = chunk_terms(u.it, e.args[0])
        if len(cs) != 1 or e.args[0] is cs[0]:
            continue
        d = next((x for x in u.it.events if x.result is e.recv), None)
        n += 1
        for L in PAIRS:
            data, rows = sample_triplets(L)
            f = Labels({cs[0].id: data}, {}, u.it, (0, L))
            v = f(e.args[0])
            got = sorted(v.ravel() if hasattr(v, 'ravel') else v.data)
            want = sorted([a + (L + 1) * x for a, b, x in rows] +
                          [b + (L + 1) * x for a, b, x in rows])
            if got != want:
                # another base is fine as long as it is recorded: C08
                if any(x < 0 for x in got) or max(got) < max(want):
                    ck.violated(rule, e, '%s: with items up to %d the key of '
                                'the pair (%d, %d) is %d' % (
                                    u.name, L, L, L, max(got)))
                else:
                    ck.undecided(rule, e, 'keys of another kind')
                return
            t = d.kwargs.get('item_type') if d is not None else None
            if t is not None and not holds(f.dtype(t), max(want)):
                ck.violated('pair table', d, '%s: with items up to %d a key '
                            '%d is stored in a table of %s' % (
                                u.name, L, max(want), f.dtype(t)))
                return
    for d in u.it.events[u.n0:]:
        if d.kind == 'method' and d.name == 'add_dataset' and \
                d.kwargs.get('item_type') is not None and \
                (d.args[:1] or [d.kwargs.get('group')])[0] in (
                    const('pairs'), const('unique_pairs')):
            for L in PAIRS:
                f = Labels({}, {}, u.it, (0, L))
                dt = f.dtype(d.kwargs['item_type'])
                if not holds(dt, (L + 1) ** 2 - 1):
                    ck.violated('pair table', d, '%s: with items up to %d a '
                                'key %d is stored in a table of %s' % (
                                    u.name, L, (L + 1) ** 2 - 1, dt))
                    return
            ck.holds('pair table', d, '%s: %d sizes' % (u.name, len(PAIRS)))
    if n:
        ck.holds(rule, T + '_generate_pairs', '%s: %d sizes' % (
            u.name, len(PAIRS)))
    else:
        ck.undecided(rule, T + '_generate_pairs', 'no pair keys')


# ------------------------------------------------------ readers of the keys

def lookups(t):
    """keys looked up in a sorted table, in a term"""
    out = []
    for x in subterms(t):
        if x.op == 'np' and x.args[0] == 'searchsorted' and len(x.args) > 2:
            out.append(x.args[2])
        elif x.op == 'mcall' and x.args[1] == 'searchsorted' and \
                len(x.args) > 2:
            out.append(x.args[2])
    return out


def bases(t):
    """bases of pair keys in a term"""
    return {x.id: x for x in subterms(t) if x.op == 'getitem' and
            x.args[1] is ZERO and x.args[0].op == 'getitem' and
            x.args[0].args[0].op == 'attr' and
            x.args[0].args[0].args[1] == 'attrs'}


def score_rule(ck):
    rule, site = 'score keys', 'ABXpy/score.py:score'
    it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                exact=True)
    it.run('ABXpy.score:score', [sym('task'), sym('dist'), sym('out')])
    ck.saw(it)
    es = [e for e in it.events if e.kind == 'store' and
          is_ds(e.recv, 'scores')]
    n = 0
    for e in es:
        for k in {k.id: k for k in lookups(e.args[-1])}.values():
            cs, bs = chunk_terms(it, k), bases(k)
            if len(cs) != 1 or len(bs) != 1:
                ck.undecided(rule, e, 'key %s' % show(k, 4))
                return
            n += 1
            for L in PAIRS:
                data, rows = sample_triplets(L)
                f = ND({cs[0].id: data, list(bs)[0]: L + 1}, {}, it)
                v = f(k)
                v = v.ravel() if hasattr(v, 'ravel') else v
                got = list(v.data if isinstance(v, Arr) else v)
                want = [[r[j] + (L + 1) * r[2] for r in rows]
                        for j in (0, 1)]
                if got not in want:
                    bad = [g for g, a, b in zip(got, *want)
                           if g not in (a, b)]
                    ck.violated(rule, e, 'with items up to %d the key of a '
                                'pair is computed as %s (keys %s or %s)' % (
                                    L, bad[:1] or got, want[0], want[1]))
                    return
    if n:
        ck.holds(rule, site, '%d keys, %d sizes' % (n, len(PAIRS)))
    else:
        ck.undecided(rule, site, 'no look-ups')


def decode_rule(ck):
    rule, site = 'decoded pairs', DJ
    it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                exact=True)
    it.run('ABXpy.distances.distances:run_distance_job',
           [sym('job'), sym('dfile'), sym('dist'), sym('ffiles'),
            sym('fgroups'), FALSE, sym('jid'), sym('norm'), sym('lock')])
    ck.saw(it)
    n = 0
    for e in it.events:
        if e.kind != 'ucall' or e.recv is not sym('dist'):
            continue
        for j, a in enumerate(e.args[:2]):
            if a.op != 'getitem':
                ck.undecided(rule, e, show(a, 4))
                return
            k = a.args[1]
            bs = bases(k)
            tabs = [x for x in subterms(k) if x.op == 'getitem' and
                    is_ds(x.args[0], 'unique_pairs/data')]
            ivs = {x.id: x for x in subterms(k) if x.op == 'iv'}
            if len(bs) != 1 or len({x.id for x in tabs}) != 1:
                ck.undecided(rule, e, 'pair %s' % show(k, 5))
                return
            n += 1
            for L in PAIRS:
                dt = 'u%d' % next(b for b in (1, 2, 4, 8)
                                  if (L + 1) ** 2 - 1 < 2 ** (8 * b))
                rows = [(L, L), (0, L), (L, 0), (1, L), (L - 1, L)]
                keys = Arr((len(rows),), [p + (L + 1) * q for p, q in rows],
                           dt)
                for i, r in enumerate(rows):
                    env = {x: i for x in ivs}
                    env.update({list(bs)[0]: L + 1, tabs[0].id: keys})
                    if ND(env, {}, it)(k) != r[j]:
                        ck.violated(rule, e, 'with items up to %d the pair '
                                    '%s is read as item %s' % (
                                        L, r, ND(env, {}, it)(k)))
                        return
    if n:
        ck.holds(rule, site, '%d items, %d sizes' % (n, len(PAIRS)))
    else:
        ck.undecided(rule, site, 'no distance calls')


# --------------------------------------------------------- regressor numbers

def store_rule(ck):
    """level numbers of the regressors, from the store to the analysis"""
    rule = 'level numbers'
    an = c13.build(ck)
    k = 0
    for names, order in ((['a'], ['a']), (['a', 'b'], ['b', 'a']),
                         (['b', 'a'], ['b', 'a'])):
        u = c35.Writer(ck, names, order, 1)
        for n in (1, 2, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536,
                  65537):
            levels = {'a': ['a%d' % i for i in range(n)], 'b': ['b0', 'b1']}
            top = [0, n - 1, n // 2, n - 1]
            rows = [{'a': top, 'b': [0, 1, 1, 0]}]
            try:
                s = u.run(levels, rows, True, False)
                bad = c35.judge(s, names, order, levels, rows)
                k += 1
            except (c35.Fails, ShapeError) as x:
                bad = 'it fails: %s' % x
            if bad:
                ck.violated(rule, c35.SITE, 'with %d levels: %s' % (n, bad))
                return
            dts = [o[0]['@type'] for o in s.out.values()
                   if o[0]['dataset'] == 'indexed_data']
            if len(dts) != 1 or dts[0] is None or n > 300 and \
                    ck.tier != 'thorough' and n not in (65535, 65536):
                continue
            cs = [[('b0', [((x,), y) for x, y in zip(top, (1, -1, 0, 1))])],
                  [levels['a']]]
            c13.check(Mute(ck, 'levels as stored'), an, 'analysis keys',
                      [cs], '%d levels stored as %s' % (n, dts[0]),
                      dt=dts[0])
    ck.holds(rule, c35.SITE, '%d stores' % k)


class Mute(object):
    """reports of another rule, under the name of this one"""

    def __init__(self, ck, rule):
        self.ck, self.rule, self.tier, self.repo = ck, rule, ck.tier, ck.repo

    def holds(self, r, *a):
        self.ck.holds(self.rule, *a)

    def violated(self, r, *a):
        self.ck.violated(self.rule, *a)

    def undecided(self, r, *a):
        self.ck.undecided(self.rule, *a)


def analysis_rule(ck):
    an = c13.build(ck)
    c13.check(ck, an, 'analysis keys', c13.big_cases(ck.tier == 'thorough'),
              'keys at the limits of the integer types')


DJ = 'ABXpy/distances/distances.py:run_distance_job'


def guarded(r):
    def g(ck):
        try:
            r(ck)
        except Unknown as x:
            ck.undecided(r.__name__, 'ABXpy', str(x)[:200])
    g.__name__ = r.__name__
    return g


RULES = [table_rule, task_rule, guarded(score_rule), guarded(decode_rule),
         guarded(store_rule), guarded(analysis_rule)]
