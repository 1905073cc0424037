"""Announced counts against generated triplets, on the value graph.

The statistics computed when a task is built and the rows later written for
each on/across block are both extracted as terms over the same row sets. Row-set
sizes are expanded into Venn-region cardinalities (one variable per region), so
n_A * n_B * n_X formulas and enumerated sets become comparable polynomials. Per
configuration: the announced number of triplets of a block, of a by level and
of the task equals the number of rows written; the numbers of by levels,
blocks, items and levels announced are those of the groups iterated.
"""
from rules.tasklib import *
from rules import c01, c02

ASSUMES = c01.ASSUMES + ['filters are functions of the item rows they are '
                         'given']

CONFIGS = c02.CONFIGS + [(0, 1, ('A',), None), (1, 1, ('X',), None),
                         (1, 1, ('ABX',), None), (1, 1, ('A',), None),
                         (0, 1, ('X',), None), (0, 0, (), None)]


class Card(object):
    """polynomials over region cardinalities"""

    def __init__(self, R):
        self.R = R

    def collect(self, t):
        for x in subterms(t):
            if x.op == 'len':
                try:
                    self.members(x.args[0])
                except Cannot:
                    pass

    def members(self, s):
        if s.op == 'keep' and s.args[0] != 'ABX':
            return and_(self.R.member(s.args[3]), self.R.keep(s))
        if s is self.R.frame:
            return TRUE
        return self.R.member(s)

    def regions(self):
        names = sorted(self.R.atoms)
        for vals in itertools.product((True, False), repeat=len(names)):
            reg = dict(zip(names, vals))
            if self.R.u.across == 0 and reg.get('#across = block') and \
                    reg.get('ON = block') is False:
                continue
            yield reg

    def expand(self, t):
        def f(x):
            if x.op != 'len':
                return x
            try:
                m = self.members(x.args[0])
            except Cannot:
                return x
            r = ZERO
            for reg in self.regions():
                env = {mk('truth', sym(n, 'region')).id: v
                       for n, v in reg.items()}
                if evalt(m, env):
                    r = add(r, mk('card', show_region(reg)))
            return r
        return rewrite_top(t, f)


def rewrite_top(t, f, memo=None):
    """rewrite lengths in the arithmetic skeleton only"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    if t.op == 'len':
        r = f(t)
    elif t.op == 'poly':
        r = ZERO
        for mono, c in t.args[0]:
            g = const(c)
            for a, e in mono:
                g = mul(g, power(rewrite_top(a, f, memo), const(e)))
            r = add(r, g)
    elif t.op in ('ite', 'lt', 'le', 'eq', 'not', 'and', 'or', 'max', 'min',
                  'floordiv', 'mod', 'div', 'truth'):
        args = [rewrite_top(a, f, memo) for a in t.args]
        r = tm.rebuild(t.op, args)
    else:
        r = t
    memo[t.id] = r
    return r


def drop_zero(t):
    """0 < p ? p : 0  is  p  for a count p"""
    if t.op == 'ite':
        c, a, b = t.args[0], drop_zero(t.args[1]), drop_zero(t.args[2])
        if c.op == 'lt' and c.args[0] is ZERO and c.args[1] is a and \
                b is ZERO:
            return a
        if c.op == 'not' and c.args[0].op == 'lt' and \
                c.args[0].args[0] is ZERO and c.args[0].args[1] is b and \
                a is ZERO:
            return b
        return ite(c, a, b)
    return t


def rows_written(ck, u, e):
    """number of rows of the triplets term, permutations removed"""
    v = e.args[0]

    def n(v):
        if v.op == 'ite':
            return ite(v.args[0], n(v.args[1]), n(v.args[2]))
        if v.op == 'cols':
            c = Cols(v.args)
            size = ONE
            for p in c.pools:
                size = mul(size, length(p))
            r = size
            for s in c.sel:
                if s.op == 'keep':
                    r = mk('len', s)
                elif s.op == 'argsort' or s is FULL:
                    pass
                else:
                    g = Grouped(s)
                    if g.count is None or check_runs(g, u.thr) is not True:
                        raise Cannot('row selection')
            return r
        if length(v) is ZERO:
            return ZERO
        raise Cannot(show(v, 4))
    return n(v)


def merge_same(t):
    if t.op == 'ite':
        a, b = merge_same(t.args[1]), merge_same(t.args[2])
        if a is b:
            return a
        return ite(t.args[0], a, b)
    return t


def announced(ck):
    for cfg in CONFIGS:
        u = Unit(ck, *cfg)
        e = the_write(ck, 'announced', u)
        if e is None:
            continue
        try:
            block_rule(ck, u, e)
        except Cannot as x:
            ck.undecided('announced', e, '%s: %s' % (u.name, x))


def where_stats(ck):
    f = func(ck.repo, 'ABXpy.task:Task.compute_statistics')
    return 'ABXpy/task.py:Task.compute_statistics:%d' % f.node.lineno


def block_rule(ck, u, e):
    rule = 'announced-block'
    nb = c02.stats_nb(u)
    w = where_stats(ck)
    key = u.key(e)
    if nb is None or nb.op != 'sum':
        ck.undecided(rule, w, '%s: announced total %s' % (
            u.name, show(nb, 4) if nb else nb))
        return
    bd, bg, inner = nb.args
    loops = [l for l in e.loops if any(v.op == 'gkey' for v, d in l.doms)]
    if len(loops) != 2 or inner.op != 'sum':
        ck.undecided(rule, w, '%s: announced total %s' % (u.name,
                                                          show(nb, 5)))
        return
    # same by levels, same blocks
    ck.same('announced-bys', w, bd, u.it.domsterm(loops[0].doms),
            '%s: by levels counted' % u.name)
    g0 = and_(*[c for c in c02.conjuncts(e.guard())
                if not contains(c, key) and not contains(c, nb)])
    ck.same('announced-bys', w, bg, g0, '%s: by levels counted when' % u.name)
    ck.same('announced-blocks', w, inner.args[0],
            u.it.domsterm(loops[1].doms), '%s: blocks counted' % u.name)
    blk = and_(*[c for c in c02.conjuncts(e.guard())
                 if contains(c, key) and not contains(c, nb)])
    got = ite(inner.args[1], inner.args[2], ZERO)
    want = ite(blk, rows_written(ck, u, e), ZERO)
    compare_counts(ck, u, e, rule, w, got, want, key)
    # per by level, per block
    per_by(ck, u, e, bd, bg, inner, key)


def compare_counts(ck, u, e, rule, w, got, want, key):
    fs = None
    for cond, cols in triplet_leaves(u, e):
        if cols is not None:
            fs = c01.frame_of(Cols(cols).pools)
    if not fs or len(fs) != 1:
        raise Cannot('item table')
    R = Regions(fs[0], key, u)
    c = Card(R)
    c.collect(got)
    c.collect(want)
    g, x = (merge_same(drop_zero(c.expand(t))) for t in (got, want))
    if g is x:
        ck.holds(rule, w, '%s: equal region polynomials' % u.name)
        return
    r = case_equal(g, x)
    if r is not True:
        v = valuations(g, x)
        if v is True:
            ck.holds(rule, w, '%s: equal for all region sizes up to 3' %
                     u.name)
            return
        if v is not None:
            ck.violated(rule, w, '%s: announced %s, written %s when the '
                        'numbers of items are %s' % (u.name, v[1], v[2],
                                                     v[0]))
            return
    if r is None:
        ck.undecided(rule, w, '%s: too many cases' % u.name)
    elif r is True:
        ck.holds(rule, w, '%s: equal region polynomials' % u.name)
    else:
        _, cond, a, b = r
        # an impossible case: a product of counts both zero and non zero
        if zero_case(cond, a, b):
            ck.holds(rule, w, '%s: equal (zero case)' % u.name)
        elif opaque_in(a) or opaque_in(b) or not poly_of_cards(a) or \
                not poly_of_cards(b):
            if poly_mixed(a) and poly_mixed(b) and not opaque_in(a) and \
                    not opaque_in(b):
                ck.violated(rule, w, '%s: announced %s, written %s' % (
                    u.name, show(a, 6), show(b, 6)))
            else:
                ck.undecided(rule, w, '%s: %s / %s' % (u.name, show(a, 5),
                                                       show(b, 5)))
        else:
            ck.violated(rule, w, '%s: announced %s, written %s (when %s)' % (
                u.name, show(a, 6), show(b, 6), show(cond, 3)))


def valuations(a, b):
    """compare two counts on all small region sizes: True, (sizes, a, b) or
    None when a term is not a function of region sizes"""
    cards = {y.id: y for t in (a, b) for y in subterms(t) if y.op == 'card'}
    rest = {y.id: y for t in (a, b) for y in tops(t) if y.op not in (
        'card', 'const')}
    if any(y.op != 'oabok' for y in rest.values()) or not cards or \
            len(cards) > 6:
        return None
    names = list(cards.values())
    doms = [(1, 2, 3) if block_region(y) else (0, 1, 2, 3) for y in names]
    names += list(rest.values())
    doms += [(True, False)] * len(rest)
    for vals in itertools.product(*doms):
        env = {y.id: k for y, k in zip(names, vals)}
        try:
            p, q = evalt(a, env), evalt(b, env)
        except Unknown:
            return None
        except ZeroDivisionError:
            continue
        if p != q:
            return ({str(y.args[0]): k for y, k in zip(names, vals)
                     if y.op == 'card'}, p, q)
    return True


def block_region(y):
    return 'not ' not in str(y.args[0])


def tops(t):
    """leaves of the arithmetic skeleton"""
    if t.op == 'poly':
        for m, c in t.args[0]:
            for x, e in m:
                for y in tops(x):
                    yield y
    elif t.op in ('ite', 'lt', 'le', 'eq', 'not', 'and', 'or', 'max', 'min',
                  'floordiv', 'mod', 'div', 'truth'):
        for x in t.args:
            for y in tops(x):
                yield y
    else:
        yield t


def zero_case(cond, a, b):
    cs = c02.conjuncts(cond)
    for x in cs:
        if x.op == 'not' and x.args[0].op == 'lt' and \
                x.args[0].args[0] is ZERO:
            p = x.args[0].args[1]
            if (a is p or a is ZERO) and (b is p or b is ZERO):
                return True
    return False


def poly_of_cards(t):
    return all(x.op == 'card' for m in tm._topoly(t) for x, _ in m)


def poly_mixed(t):
    return all(x.op in ('card', 'len') for m in tm._topoly(t) for x, _ in m)


def per_by(ck, u, e, bd, bg, inner, key):
    w = where_stats(ck)
    o = u.st0.heap[u.task.args[0]].data
    bs = u.it.snap(o['by_stats'], u.st0)
    if bs.op != 'dict' or len(bs.args) != 1:
        ck.undecided('by-stats', w, show(bs, 3))
        return
    d = bs.args[0].args[3]
    ent = {x.args[2].args[0]: x for x in d.args
           if x.op == 'ent' and x.args[2].op == 'const'}
    frame = key.args[0].args[0]
    ac = ACROSS[u.across]

    def gb(*cols):
        return mk('len', mk('groupby', frame, tup(*[const(c) for c in cols])))
    want = {'nb_triplets': inner, 'nb_items': length(frame),
            'nb_on_levels': gb('ON'), 'nb_across_levels': gb(*ac),
            'nb_on_across_levels': gb('ON', *ac)}
    for k, v in sorted(want.items()):
        if k not in ent:
            ck.undecided('by-stats', w, '%s not found' % k)
            continue
        ck.same('by-stats-' + k, w, ent[k].args[3], v, '%s: %s of a by level'
                % (u.name, k))
    if 'block_sizes' in ent:
        b = ent['block_sizes'].args[3]
        if b.op == 'dict' and len(b.args) == 1:
            x = b.args[0]
            same_cases(ck, 'by-stats-block_sizes', w, ite(
                x.args[1], x.args[3], ZERO), ite(inner.args[1],
                                                 inner.args[2], ZERO),
                       '%s: size announced per block' % u.name)
    st = o['stats']
    nbl = c02.stat(u, st, 'nb_by_levels')
    if nbl is not None:
        ck.same('stats-bys', w, nbl, mk('count', bd, bg),
                'number of by levels')
    nbk = c02.stat(u, st, 'nb_blocks')
    if nbk is not None:
        ck.same('stats-blocks', w, nbk, mk('sum', bd, bg, gb('ON', *ac)),
                'number of blocks')


RULES = [announced]
