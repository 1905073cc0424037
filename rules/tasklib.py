"""The triplet table written by a task, read off the value graph.

A *row set* is a term denoting index labels of one by-frame. Its abstraction is
the set of Venn regions it covers: a region fixes, for each atomic condition
(column = the block's value of that column, role filter keeps the item), its
truth. Two row sets are equal iff they cover the same regions.
"""
import itertools
from sa.lib import *
from sa.drive import *
from sa import terms as tm
from sa.models import gi, FULL, length
from rules.common import *

ACROSS = {0: ['#across'], 1: ['AC1'], 2: ['AC1', 'AC2'],
          3: ['AC1', 'AC2', 'AC3']}


class Cannot(Exception):
    """the term is outside the recognised vocabulary"""


class Unit(object):
    """one analysed configuration: the writes of one on/across block"""

    def __init__(self, ck, across=1, by=1, filters=(), thr=None,
                 exact=False):
        self.ck = ck
        self.across, self.by, self.filters = across, by, tuple(filters)
        self.thr = thr
        self.it, self.st, self.task, self.n0, self.st0 = generated(
            ck.repo, across, by, filters, thr, exact)
        ck.saw(self.it)
        self.name = 'across=%d by=%d filters=%s threshold=%s' % (
            across, by, ','.join(filters) or '-', 'yes' if thr else 'no')
        self.trip = self.writes('triplets', 'data')
        self.bidx = self.writes('triplets', 'on_across_block_index')
        self.regs = [e for e in self.it.events[self.n0:]
                     if e.kind == 'method' and e.name == 'write' and
                     e.recv is not None and e.recv.op == 'inst' and
                     str(e.recv.args[0]).endswith('H5IO')]

    def add_ds(self, group, ds):
        out = []
        for e in self.it.events[self.n0:]:
            if e.kind == 'method' and e.name in ('add_dataset',
                                                 'add_subdataset') and e.bound:
                g, d = e.bound.get('group'), e.bound.get('dataset')
                if g is const(group) and (ds is None or d is const(ds)):
                    out.append(e)
        return out

    def writes(self, group, ds):
        rs = [e.result for e in self.add_ds(group, ds)]
        return [e for e in self.it.events[self.n0:] if e.kind == 'method' and
                e.name == 'write' and any(e.recv is r for r in rs)]

    def key(self, e):
        """the on/across block key of the write"""
        for l in reversed(e.loops):
            for v, d in l.doms:
                if v.op == 'gkey':
                    return v
        return None


def the_write(ck, rule, u):
    if len(u.trip) != 1:
        ck.undecided(rule, 'ABXpy/task.py', '%s: %d writes of triplets '
                     'recognised' % (u.name, len(u.trip)))
        return None
    return u.trip[0]


# ---------------------------------------------------------------- structure

def cond_leaves(v, cond=()):
    if v.op == 'ite':
        for x in cond_leaves(v.args[1], cond + (v.args[0],)):
            yield x
        for x in cond_leaves(v.args[2], cond + (not_(v.args[0]),)):
            yield x
    else:
        yield cond, v


def is_index(t):
    """t selects rows"""
    from sa.models import arrayish
    return t.op == 'slice' or arrayish(t)


def layers(t):
    """x[i][j] -> (x, [i, j]); index arrays themselves are flattened"""
    out = []
    while t.op == 'getitem' and (is_index(t.args[1])):
        out.append(t.args[1])
        t = t.args[0]
    out.reverse()
    flat = []
    for i in out:
        if i.op == 'getitem' and i.args[1].op != 'slice' or \
                i.op == 'getitem' and is_index(i.args[0]):
            b, ls = layers(i)
            flat.append(b)
            flat.extend(ls)
        else:
            flat.append(i)
    return t, flat


def is_digit(t):
    return any(x.op == 'arange' for x in subterms(t)) and all(
        x.op in ('arange', 'floordiv', 'mod', 'poly', 'const', 'len', 'card',
                 'max', 'min', 'ite', 'lt', 'le', 'eq', 'not', 'and', 'or')
        or inside_len(x, t) for x in subterms(t))


def inside_len(x, t):
    # anything below a length
    seen = set()

    def go(y):
        if y is x:
            return True
        if y.op in ('len', 'card', 'count') or y.id in seen:
            return False
        seen.add(y.id)
        return any(go(c) for c in children(y))
    return not go(t)


def triplet_leaves(u, e):
    """[(conditions, columns or None when empty)]"""
    out = []
    for cond, v in cond_leaves(e.args[0]):
        if v.op in ('empty', 'zeros', 'ones') and length(v) is ZERO:
            out.append((cond, None))
        elif v.op == 'cols' and len(v.args) == 3:
            out.append((cond, v.args))
        else:
            b, ls = layers(v)
            if b.op == 'cols' and len(b.args) == 3:
                cs = []
                for c in b.args:
                    for l in ls:
                        c = mk('getitem', c, l)
                    cs.append(c)
                out.append((cond, tuple(cs)))
            else:
                raise Cannot('triplets: %s' % show(v, 5))
    return out


class Cols(object):
    """pools, digits and common row selections of the three columns"""

    def __init__(self, cols):
        ls = [layers(c) for c in cols]
        common = []
        seqs = [list(l) for _, l in ls]
        while all(s for s in seqs) and all(s[-1] is seqs[0][-1]
                                           for s in seqs):
            if is_digit(seqs[0][-1]) and seqs[0][-1].op != 'arange':
                break
            common.append(seqs[0][-1])
            for s in seqs:
                s.pop()
        common.reverse()
        self.sel = common
        self.pools, self.digits = [], []
        for (b, _), s in zip(ls, seqs):
            if not s or not is_digit(s[-1]):
                raise Cannot('column %s' % show(b, 5))
            p = b
            for i in s[:-1]:
                p = mk('getitem', p, i)
            self.pools.append(p)
            self.digits.append(s[-1])

    def rebuilt(self, k):
        """the column under the k innermost selections"""
        out = []
        for p, d in zip(self.pools, self.digits):
            c = gi(p, d)
            for s in self.sel[:k]:
                c = gi(c, s)
            out.append(c)
        return mk('cols', *out)


# ------------------------------------------------------------------ regions

class Regions(object):
    """membership of an item of the by-frame in a row set, as a boolean
    function of atomic conditions"""

    def __init__(self, frame, key, u):
        self.frame, self.key, self.u = frame, key, u
        self.atoms = {}

    def atom(self, name):
        self.atoms[name] = 1
        return mk('truth', sym(name, 'region'))

    def same(self, col, val):
        k = self.key
        if val.op == 'kcol' and val.args[0] is k:
            c = val.args[1]
            if c == col:
                return self.atom('%s = block' % col)
            return self.atom('%s = block.%s' % (col, c))
        if val is k and k.op == 'gkey':
            return self.atom('%s = block key' % col)
        if opaque_in(val):
            raise Cannot('value %s' % show(val, 4))
        return self.atom('%s = %s' % (col, show(val, 4)))

    def mask(self, m):
        if m is TRUE or m is FALSE:
            return m
        if m.op == 'not':
            return not_(self.mask(m.args[0]))
        if m.op == 'and':
            return and_(*[self.mask(a) for a in m.args])
        if m.op == 'or':
            return or_(*[self.mask(a) for a in m.args])
        if m.op == 'eq':
            for a, b in ((m.args[0], m.args[1]), (m.args[1], m.args[0])):
                if a.op == 'getitem' and a.args[0] is self.frame and \
                        a.args[1].op == 'const':
                    return self.same(a.args[1].args[0], b)
        if m.op == 'isin':
            return self.member(m.args[1])
        if m.op == 'poly' and all(c > 0 for _, c in m.args[0]) and all(
                isbool(a) for mono, _ in m.args[0] for a, _e in mono):
            # sum of products of masks
            return or_(*[and_(*[self.mask(a) for a, _e in mono])
                         for mono, _ in m.args[0]])
        raise Cannot('mask %s' % show(m, 5))

    def frame_rows(self, f):
        """membership of the rows of a sub-frame"""
        if f is self.frame:
            return TRUE
        if f.op == 'getitem':
            if f.args[1].op == 'tuple':
                return self.frame_rows(f.args[0])
            return and_(self.frame_rows(f.args[0]), self.mask(f.args[1]))
        if f.op == 'loc':
            return and_(self.frame_rows(f.args[0]), self.member(f.args[1]))
        if f.op == 'filtered' and f is not self.frame:
            raise Cannot('another frame %s' % show(f, 4))
        raise Cannot('frame %s' % show(f, 4))

    def member(self, s):
        op = s.op
        if op == 'rows':
            r = self.frame_rows(s.args[0])
            if s.args[1].op != 'tuple' or s.args[2].op != 'tuple' or \
                    len(s.args[1].args) != len(s.args[2].args):
                raise Cannot(show(s, 4))
            for c, v in zip(s.args[1].args, s.args[2].args):
                r = and_(r, self.same(c.args[0], v))
            return r
        if op == 'index':
            return self.frame_rows(s.args[0])
        if op == 'arange' and s.args[0] is length(self.frame):
            return TRUE
        if op == 'setdiff':
            r = self.member(s.args[0])
            for a in s.args[1:]:
                r = and_(r, not_(self.member(a)))
            return r
        if op == 'setinter':
            return and_(*[self.member(a) for a in s.args])
        if op == 'setunion':
            return or_(*[self.member(a) for a in s.args])
        if op == 'getitem':
            i = s.args[1]
            if i.op == 'keep':
                if i.args[3] is not s.args[0]:
                    return and_(self.member(s.args[0]),
                                self.atom('misapplied filter %s' % i.args[0]))
                return and_(self.member(s.args[0]), self.keep(i))
            if isbool(i):
                if i.op == 'isin' and i.args[0] is s.args[0]:
                    return and_(self.member(s.args[0]),
                                self.member(i.args[1]))
                if i.op == 'not' and i.args[0].op == 'isin' and \
                        i.args[0].args[0] is s.args[0]:
                    return and_(self.member(s.args[0]),
                                not_(self.member(i.args[0].args[1])))
                return and_(self.member(s.args[0]), self.mask(i))
        if op in ('sorted', 'unique', 'dedup'):
            return self.member(s.args[0])
        raise Cannot('row set %s' % show(s, 5))

    def keep(self, i):
        role, v, db = i.args[0], i.args[1], i.args[2]
        if db is not self.frame:
            return self.atom('filter %s on another table' % role)
        return self.atom('filter %s keeps' % role)

    def expect(self, role):
        ac = ACROSS[self.u.across]
        on = self.atom('ON = block')
        acs = [self.atom('%s = block' % c) for c in ac]
        if role == 'A':
            r = and_(on, *acs)
        elif role == 'B':
            r = not_(on) if self.u.across == 0 else and_(not_(on), *acs)
        else:
            r = and_(on, *[not_(a) for a in acs])
        if role in self.u.filters:
            r = and_(r, self.atom('filter %s keeps' % role))
        return r

    def compare(self, got, want, excl=None):
        """first region where the two membership functions differ"""
        names = sorted(self.atoms)
        for vals in itertools.product((True, False), repeat=len(names)):
            reg = dict(zip(names, vals))
            if self.u.across == 0 and reg.get('#across = block') and \
                    reg.get('ON = block') is False:
                continue         # the item of the block itself
            env = {mk('truth', sym(n, 'region')).id: v
                   for n, v in reg.items()}
            g, w = evalt(got, env), evalt(want, env)
            if g != w and (excl is None or excl(reg, g, w)):
                return reg, g, w
        return None


def show_region(reg):
    return ', '.join('%s%s' % ('' if v else 'not ', k)
                     for k, v in sorted(reg.items()))


# -------------------------------------------------------------- mixed radix

def digit_form(d):
    """d = (arange(N) // s) % m -> (N, s, m or None)"""
    m = None
    if d.op == 'mod':
        d, m = d.args
    s = ONE
    if d.op == 'floordiv':
        d, s = d.args
    if d.op != 'arange':
        return None
    return d.args[0], s, m


def tiling(cols):
    """True: the digits enumerate pool A x pool B x pool X exactly once;
    (False, why): a size assignment for which they do not; None"""
    n = [length(p) for p in cols.pools]
    prod = mul(mul(n[0], n[1]), n[2])
    fs = [digit_form(d) for d in cols.digits]
    if all(f is not None for f in fs) and all(f[0] is prod for f in fs):
        for order in itertools.permutations(range(3)):
            stride, ok = ONE, True
            for pos, k in enumerate(order):
                N, s, m = fs[k]
                if s is not stride or not (m is n[k] or (m is None and
                                                         pos == 2)):
                    ok = False
                    break
                stride = mul(stride, n[k])
            if ok:
                return True
    ars = {x.id: x for d in cols.digits for x in subterms(d)
           if x.op == 'arange'}
    if len(ars) != 1:
        return None
    ar = list(ars.values())[0]
    ids = [x.id for x in n]
    if len(set(ids)) != 3:
        return None
    for sizes in itertools.product((1, 2, 3), repeat=3):
        env = dict(zip(ids, sizes))
        try:
            N = evalt(ar.args[0], env)
            rows = []
            for k in range(N):
                env2 = dict(env)
                env2[ar.id] = k
                rows.append(tuple(evalt(d, env2) for d in cols.digits))
        except Exception:
            return None
        want = set(itertools.product(*[range(s) for s in sizes]))
        if len(rows) != len(want) or set(rows) != want:
            return False, 'for |A|,|B|,|X| = %s the positions enumerated ' \
                'are not each combination exactly once' % (sizes,)
    return None


# ------------------------------------------------------ sorted/sampled rows

class Grouped(object):
    """rows = concatenation over the runs of equal key of a sorted table of a
    selection of each run"""

    def __init__(self, t):
        if not (t.op == 'concat_rows' and len(t.args) == 1 and
                t.args[0].op == 'star' and t.args[0].args[0].op == 'lcomp'):
            raise Cannot('row selection %s' % show(t, 4))
        l = t.args[0].args[0]
        self.doms, self.guard, self.body = l.args
        d = self.doms.args
        if len(d) != 1 or d[0].args[0].op != 'iv':
            raise Cannot('row selection %s' % show(t, 4))
        self.iv, self.dom = d[0].args
        perms = {x.id: x for x in subterms(self.body) if x.op == 'argsort'
                 and not self.in_counts(x)}
        self.perm = None
        self.parts = []
        for cond, v in cond_leaves(self.body):
            if v.op != 'getitem' or v.args[0].op != 'argsort':
                raise Cannot('rows of a run: %s' % show(v, 4))
            if self.perm is None:
                self.perm = v.args[0]
            if v.args[0] is not self.perm:
                raise Cannot('two sorted tables')
            self.parts.append((cond, v.args[1]))
        self.keyterm = self.perm.args[0]
        self.count = self.find_count()

    def in_counts(self, x):
        return False

    def find_count(self):
        """the length of run number iv: diff of the run boundaries"""
        for x in subterms(self.body):
            if x.op == 'getitem' and x.args[1] is self.iv:
                b = self.boundaries(x.args[0])
                if b is not None:
                    return x
        return None

    def boundaries(self, c):
        """c = U[1:] - U[:-1] with U the run starts plus the end"""
        p = tm._topoly(c)
        if len(p) != 2:
            return None
        hi = lo = None
        for m, k in p.items():
            if len(m) != 1 or m[0][1] != 1:
                return None
            a = m[0][0]
            if a.op != 'getitem' or a.args[1].op != 'slice':
                return None
            if k == 1:
                hi = a
            elif k == -1:
                lo = a
        if hi is None or lo is None or hi.args[0] is not lo.args[0]:
            return None
        if not (hi.args[1] is mk('slice', ONE, NONE, NONE) and
                lo.args[1] is mk('slice', NONE, const(-1), NONE)):
            return None
        return hi.args[0]

    def runs_ok(self):
        """the boundaries are those of the runs of equal sorted key"""
        u = self.boundaries(self.count.args[0])
        if u.op == 'getitem' and u.args[1] is ZERO:
            u = u.args[0]
        if u.op != 'nonzero':
            return None
        f = u.args[0]
        if f.op != 'concat_rows' or len(f.args) != 3:
            return None
        one = lambda t: t.op == 'list' and t.args == (TRUE,)
        if not (one(f.args[0]) and one(f.args[2])):
            return None
        s = gi(self.keyterm, self.perm)
        want = not_(eq(gi(s, mk('slice', ONE, NONE, NONE)),
                       gi(s, mk('slice', NONE, const(-1), NONE))))
        if f.args[1] is want:
            return True
        if opaque_in(f.args[1]):
            return None
        return False

    # ------------------------------------------------ abstract run lengths
    def value(self, t, k, counts, env):
        """value of an offset term for run k of runs of the given lengths"""
        if t is self.iv:
            return k
        if t is self.count:
            return counts[k]
        if t.id in env:
            return env[t.id]
        if t.op == 'const':
            return t.args[0]
        if t.op == 'poly':
            r = 0
            for m, c in t.args[0]:
                p = int(c) if c.denominator == 1 else c
                for a, e in m:
                    p = p * self.value(a, k, counts, env) ** e
                r = r + p
            return r
        if t.op == 'psum' and t.args[0] is self.doms:
            return sum(self.value(t.args[2], j, counts, env)
                       for j in range(k)
                       if self.value(t.args[1], j, counts, env))
        if t.op == 'getitem':
            b = t.args[0]
            if b.op == 'getitem' and b.args[1].op == 'slice' and \
                    b.args[1].args[2] is NONE and b.args[1].args[1] is NONE:
                return self.value(gi(b.args[0], add(t.args[1],
                                                    b.args[1].args[0])),
                                  k, counts, env)
            i = self.value(t.args[1], k, counts, env)
            u = self.boundaries(self.count.args[0])
            c = self.count.args[0]
            if b is u:
                return sum(counts[:i])
            if b is c:
                return counts[i]
        if t.op == 'ite':
            return self.value(t.args[1] if self.value(
                t.args[0], k, counts, env) else t.args[2], k, counts, env)
        if t.op in ('lt', 'le', 'eq'):
            a, b = [self.value(x, k, counts, env) for x in t.args]
            return a < b if t.op == 'lt' else a <= b if t.op == 'le' \
                else a == b
        if t.op == 'not':
            return not self.value(t.args[0], k, counts, env)
        if t.op == 'truth':
            return bool(self.value(t.args[0], k, counts, env))
        if t.op == 'and':
            return all(self.value(x, k, counts, env) for x in t.args)
        if t.op == 'or':
            return any(self.value(x, k, counts, env) for x in t.args)
        if t.op in ('min', 'max', 'min', 'max'):
            return (min if t.op.startswith('min') else max)(
                self.value(x, k, counts, env) for x in t.args)
        raise Unknown(t)

    def kept(self, k, counts, env):
        """('range', lo, hi) or ('sample', offset, n, N) of run k"""
        if not self.value(self.guard, k, counts, env):
            return ('range', 0, 0)
        for cond, i in self.parts:
            if not all(self.value(c, k, counts, env) for c in cond):
                continue
            if i.op == 'slice':
                lo = 0 if i.args[0] is NONE else self.value(
                    i.args[0], k, counts, env)
                hi = sum(counts) if i.args[1] is NONE else self.value(
                    i.args[1], k, counts, env)
                if i.args[2] is not NONE and i.args[2] is not ONE:
                    raise Unknown(i)
                return ('range', lo, hi)
            ss = [x for x in subterms(i) if x.op == 'sample']
            if len(ss) == 1:
                off = self.value(sub(i, ss[0]), k, counts, env)
                return ('sample', off, self.value(ss[0].args[0], k, counts,
                                                  env),
                        self.value(ss[0].args[1], k, counts, env))
            ars = [x for x in subterms(i) if x.op == 'arange']
            if len(ars) == 1:
                off = self.value(sub(i, ars[0]), k, counts, env)
                n = self.value(ars[0].args[0], k, counts, env)
                return ('range', off, off + n)
            raise Unknown(i)
        raise Unknown(self.body)


COUNTS = [(1,), (2,), (1, 1), (2, 1), (1, 3), (3, 2), (2, 2, 2), (1, 2, 3),
          (3, 1, 2), (4, 1, 5)]


def check_runs(g, thr):
    """for every profile of run lengths (and threshold) each run contributes
    min(length, threshold) distinct rows of its own; None undecided"""
    for counts in COUNTS:
        for t in (THRS if thr else (None,)):
            env = {sym('thr').id: t}
            start = 0
            for k, c in enumerate(counts):
                try:
                    r = g.kept(k, counts, env)
                except (Unknown, TypeError, IndexError):
                    return None
                want = c if not t else min(c, t)
                what = 'run lengths %s%s, run %d: ' % (
                    counts, '' if t is None else ', threshold %s' % t, k)
                if r[0] == 'range':
                    if r[1:] != (start, start + c) or want != c:
                        return False, what + 'rows %s..%s kept, expected %d ' \
                            'of rows %d..%d' % (r[1], r[2], want, start,
                                                start + c)
                else:
                    if r[1] != start or r[3] != c or r[2] != want:
                        return False, what + 'rows %s + sample of %s out of ' \
                            '%s, expected %d of rows %d..%d' % (
                                r[1], r[2], r[3], want, start, start + c)
                start += c
    return True


THRS = (1, 2, 3, 10)
