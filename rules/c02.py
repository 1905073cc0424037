"""Factorial completeness, decided on the value graph of generate_triplets.

Per configuration: each pool covers exactly the regions of its role; the three
column indices are the digits of a mixed-radix numbering of A x B x X, so every
combination is enumerated exactly once; later row selections are the ABX filter
(only when there is one) and a permutation (runs of equal key of a sorted
table, concatenated whole, in order); the write is reached for every by level
and block unless the by or block filter rejects it or nothing is left; the
empty alternative is chosen only when a pool is empty; the by ranges recorded
are the cumulative numbers of rows written.
"""
from rules.tasklib import *
from rules import c01
from rules.history import leftover

ASSUMES = c01.ASSUMES + ['rows handed to the buffered writer reach the file '
                         '(C15); argsort returns a permutation']

CONFIGS = [(0, 1, (), None), (1, 1, (), None), (2, 1, (), None),
           (1, 0, (), None), (0, 1, ('A', 'B', 'X', 'ABX'), None),
           (1, 1, ('A', 'B', 'X', 'ABX'), None), (1, 1, ('B',), None),
           (2, 1, ('A', 'B', 'X', 'ABX'), None), (1, 2, (), None)]


def factorial(ck):
    for cfg in CONFIGS:
        u = Unit(ck, *cfg)
        e = the_write(ck, 'factorial', u)
        if e is None:
            continue
        try:
            one(ck, u, e)
        except Cannot as x:
            ck.undecided('factorial', e, '%s: %s' % (u.name, x))
        guard_rule(ck, u, e)


def one(ck, u, e):
    key = u.key(e)
    lv = triplet_leaves(u, e)
    pools = None
    for cond, cols in lv:
        if cols is None:
            continue
        c = Cols(cols)
        fs = c01.frame_of(c.pools)
        if len(fs) != 1:
            raise Cannot('item tables')
        pools = c.pools
        for role, p in zip('ABX', c.pools):
            R = Regions(fs[0], key, u)
            bad = R.compare(R.member(p), R.expect(role))
            ck.decide('pool-' + role, e, bad is None,
                      '%s: items with [%s] are %s as %s' % (
                          u.name, show_region(bad[0]),
                          'used' if bad[1] else 'missing', role) if bad else
                      '%s: pool of %s is exact' % (u.name, role))
        t = tiling(c)
        ck.decide('enumeration', e, t if t in (True, None) else False,
                  '%s: %s' % (u.name, t[1] if isinstance(t, tuple) else
                              'digits tile A x B x X' if t else
                              'index arithmetic not recognised: %s' %
                              '; '.join(show(d, 4) for d in c.digits)))
        selections(ck, u, e, c, cond)
    if pools:
        n = [length(p) for p in pools]
        for cond, cols in lv:
            if cols is not None:
                continue
            g = and_(*cond)
            try:
                bad = None
                for v in itertools.product((1, 2), repeat=3):
                    env = dict(zip([x.id for x in n], v))
                    for a in atoms_of(g):
                        if a.id not in env:
                            raise Unknown(a)
                    if evalt(g, env):
                        bad = v
                ck.decide('empty-block', e, bad is None,
                          '%s: nothing is written although |A|,|B|,|X| = %s' %
                          (u.name, bad) if bad else
                          '%s: empty only when a pool is empty' % u.name)
            except Unknown:
                ck.undecided('empty-block', e, show(g, 5))


def selections(ck, u, e, c, cond):
    rule = 'row-selection'
    k = 0
    seen_abx = 0
    for s in c.sel:
        if s.op == 'keep':
            want = c.rebuilt(k)
            if s.args[0] != 'ABX':
                ck.violated(rule, e, '%s: the %s filter selects triplet rows'
                            % (u.name, s.args[0]))
            elif s.args[3] is not want:
                ck.undecided(rule, e, 'the ABX filter is applied to %s' %
                             show(s.args[3], 4))
            else:
                seen_abx += 1
        elif s.op == 'argsort':
            ck.holds(rule, e, 'permutation')
        elif s.op == 'slice':
            if s is FULL:
                pass
            elif opaque_in(s):
                ck.undecided(rule, e, show(s, 5))
            else:
                ck.violated(rule, e, '%s: rows %s only' % (u.name, show(s, 5)))
        else:
            whole_runs(ck, rule, u, e, s)
        k += 1
    if 'ABX' in u.filters:
        ck.decide('abx-filter', e, True if seen_abx == 1 else
                  (None if seen_abx else False),
                  '%s: ABX filter applied %d times' % (u.name, seen_abx))
    elif seen_abx:
        ck.violated('abx-filter', e, '%s: rows filtered without a filter' %
                    u.name)


def whole_runs(ck, rule, u, e, s):
    g = Grouped(s)
    if g.count is None:
        ck.undecided(rule, e, 'runs of the sorted rows: %s' % show(g.body, 4))
        return
    r = g.runs_ok()
    ck.decide(rule + '-runs', e, r, '%s: runs of the sorted key' % u.name)
    r = check_runs(g, u.thr)
    ck.decide(rule, e, r if r in (True, None) else False, '%s: %s' % (
        u.name, r[1] if isinstance(r, tuple) else
        'whole runs, in order' if r else 'rows of a run: %s' %
        show(g.body, 5)))


def stats_nb(u):
    """the announced number of triplets, as computed before generating"""
    o = u.st0.heap[u.task.args[0]]
    return stat(u, o.data.get('stats'), 'nb_triplets')


def stat(u, d, k):
    try:
        return u.it.snap(u.it.getitem(d, const(k), u.st0.copy(), None),
                         u.st0)
    except Exception:
        return None


def conjuncts(g):
    return list(g.args) if g.op == 'and' else [g]


def guard_rule(ck, u, e):
    """the write of a block is reached unless filters leave nothing"""
    rule = 'block-coverage'
    key = u.key(e)
    loops = [l for l in e.loops]
    bykeys = [v for l in loops for v, d in l.doms if v.op == 'gkey']
    if len(bykeys) != 2 or key is None:
        ck.undecided(rule, e, '%s: loops %s' % (u.name, [
            show(v, 3) for v in bykeys]))
        return
    kb = bykeys[0]
    # the loops range over all the groups
    for l, what in zip([l for l in loops if any(
            v.op == 'gkey' for v, d in l.doms)], ('by levels', 'blocks')):
        if l.brk and not all(b is FALSE for b in l.brk):
            ck.violated(rule, e, '%s: the loop over %s can stop early, when '
                        '%s' % (u.name, what, show(l.brk[0], 4)))
    frame = key.args[0].args[0]
    nb = stats_nb(u)
    rest = []
    for c in conjuncts(e.guard()):
        if nb is not None and (c is lt(ZERO, nb) or c is not_(eq(nb, ZERO))
                               or c is mk('truth', nb)):
            continue
        rest.append(c)
    first = mk('iloc', mk('gframe', kb.args[0], kb), ZERO)
    block = mk('rows', frame, key.args[0].args[1], tup(*[
        tm.kcol(key, c.args[0], i) for i, c in enumerate(
            key.args[0].args[1].args)]))
    want = []
    un = None
    for c in rest:
        if c.op == 'truth' and c.args[0].op == 'byok':
            v = c.args[0].args[0]
            want.append(c)
            ok = in_group(v, kb)
            ck.decide('by-filter-values', e, ok, '%s: by filter evaluated on '
                      '%s' % (u.name, show(v, 4)))
        elif c.op == 'truth' and c.args[0].op == 'oabok':
            v = c.args[0].args[0]
            want.append(c)
            ok = v is mk('loc', frame, gi(block, ZERO))
            ck.decide('block-filter-values', e, True if ok else
                      block_values(v, frame, block),
                      '%s: block filter evaluated on %s' % (u.name,
                                                            show(v, 5)))
        elif c is lt(ZERO, length(frame)):
            want.append(c)
        elif implied_nonempty(c, frame):
            want.append(c)
        else:
            un = c
    if un is None:
        ck.holds(rule, e, '%s: written for every block' % u.name)
    elif opaque_in(un):
        ck.undecided(rule, e, '%s: written only if %s' % (u.name, show(un, 5)))
    elif skips_nothing(u, e, un, ck):
        ck.holds(rule, e, '%s: blocks skipped are empty' % u.name)
    else:
        ck.violated(rule, e, '%s: a block is skipped unless %s' % (
            u.name, show(un, 6)))


def implied_nonempty(c, frame):
    return c.op == 'lt' and c.args[0] is ZERO and any(
        x.op == 'len' for x in subterms(c.args[1])) and False


def skips_nothing(u, e, c, ck):
    """c fails only when a pool is empty"""
    try:
        for cond, cols in triplet_leaves(u, e):
            if cols is None:
                continue
            cc = Cols(cols)
            n = [length(p) for p in cc.pools]
            for v in itertools.product((1, 2), repeat=3):
                env = dict(zip([x.id for x in n], v))
                if not evalt(c, env):
                    return False
            return True
        # a write reached only when rows remain
    except (Cannot, Unknown):
        pass
    return False


def in_group(v, kb):
    """v is a row of the by group of kb"""
    if v.op in ('iloc', 'loc') and is_num(v.args[1]):
        f = v.args[0]
        while f.op in ('reindexed',):
            f = f.args[0]
        if f.op == 'gframe' and f.args[1] is kb:
            return True
    if opaque_in(v):
        return None
    return None


def block_values(v, frame, block):
    """v is the description of one item of the block"""
    if v.op == 'iloc' and v.args[0] is frame:
        return False          # labels used as positions, or another row
    if v.op == 'loc' and v.args[0] is frame and v.args[1].op == 'getitem' \
            and v.args[1].args[0] is block:
        return True
    return None


def ranges(ck):
    """recorded by ranges = cumulative numbers of triplets written"""
    rule = 'by-ranges'
    for cfg in CONFIGS[:3] + CONFIGS[5:6] + [(1, 1, (), 1)]:
        u = Unit(ck, *cfg)
        e = the_write(ck, rule, u)
        if e is None:
            continue
        cs = [x for x in u.it.events[u.n0:] if x.kind == 'method' and
              x.name == 'create_dataset' and x.args and
              x.args[0] is const('by_index')]
        bysd = [x for x in u.it.events[u.n0:] if x.kind == 'store' and
                x.recv is not None and x.recv.op == 'getitem' and
                x.recv.args[1] is const('bys')]
        if len(cs) != 1 or len(bysd) != 1:
            ck.undecided(rule, 'ABXpy/task.py', 'by ranges not recognised')
            continue
        d = cs[0].kwargs.get('data')
        if d is None or d.op != 'cols' or len(d.args) != 2:
            ck.undecided(rule, cs[0], 'ranges %s' % show(d, 3))
            continue
        lo, hi = d.args
        L = lo.args[0] if lo.op == 'getitem' else None
        if L is None or hi.op != 'getitem' or hi.args[0] is not L or \
                L.op != 'lcat' or len(L.args) != 2:
            ck.undecided(rule, cs[0], 'ranges %s' % show(d, 4))
            continue
        ck.decide(rule, cs[0], lo.args[1] is mk('slice', NONE, const(-1), NONE)
                  and hi.args[1] is mk('slice', ONE, NONE, NONE),
                  'ranges are consecutive bounds')
        z, lc = L.args
        if z.op != 'li' or lc.op != 'lcomp':
            ck.undecided(rule, cs[0], 'bounds %s' % show(L, 3))
            continue
        ck.same(rule, cs[0], z.args[1], ZERO, 'first bound')
        doms, g, val = lc.args
        n = length(e.args[0])
        # total written so far
        ps = [x for x in subterms(val) if x.op == 'psum']
        inner = [l for l in e.loops][-1]
        S = None
        for x in subterms(val):
            if x.op == 'sum' and x.args[0] is u.it.domsterm(inner.doms):
                S = x
                break
        if S is None:
            ck.undecided(rule, cs[0], 'bound %s' % show(val, 4))
            continue
        nb = stats_nb(u)
        key = u.key(e)
        blk = and_(*[c for c in conjuncts(e.guard()) if contains(c, key) and
                     not (nb is not None and contains(c, nb))])
        same_cases(ck, rule, cs[0], S.args[2], ite(blk, n, ZERO),
                'rows counted for a block')
        rest = sub(val, S)
        okp = rest.op == 'psum' and rest.args[2] is S and \
            rest.args[0] is doms
        if okp:
            ck.holds(rule, cs[0], 'bound = rows written up to this by level')
        elif opaque_in(rest):
            ck.undecided(rule, cs[0], show(rest, 4))
        else:
            ck.violated(rule, cs[0], 'bound of a by level is %s' %
                        show(val, 5))
        # names are recorded for the same by levels, in the same order
        v = bysd[0].args[1]
        if v.op in ('sorted', 'reversed', 'set', 'flip') and any(
                x.op == 'lcomp' for x in v.args):
            ck.violated('by-names', bysd[0], 'by levels are named in another '
                        'order than that of their ranges: %s' % show(v, 3))
        elif v.op == 'lcomp' and v.args[0] is doms and narrower(
                v.args[1], g, S):
            ck.violated('by-names', bysd[0], 'by levels with a range have no '
                        'name unless %s' % show(narrower(v.args[1], g, S), 5))
        elif v.op == 'lcomp' and v.args[0] is doms and narrower(
                g, v.args[1], S):
            ck.violated('by-names', bysd[0], 'by levels with a name have no '
                        'range unless %s' % show(narrower(g, v.args[1], S), 5))
        elif v.op == 'lcomp':
            ck.same('by-names', bysd[0], tup(v.args[0], v.args[1]),
                    tup(doms, g), 'by levels named')
            kb = v.args[0].args[0].args[0]
            ck.same('by-names', bysd[0], v.args[2], mk('str', kb),
                    'name of a by level')
        else:
            ck.undecided('by-names', bysd[0], show(v, 4))
        rz = [x for x in u.it.events[u.n0:] if x.kind == 'mutate' and
              x.name == 'resize']
        for x in rz:
            n_ = x.args[0]
            if n_.op == 'getitem' and n_.args[0] is L:
                ck.same(rule, x, n_.args[1], const(-1), 'final table size')
            elif n_.op == 'sum' and not contains(n_, S) and \
                    contains(n, sym('thr')) and \
                    not contains(n_, sym('thr')) and not opaque_in(n_):
                ck.violated(rule, x, 'the table has as many rows as '
                            'announced, before any sampling: %s' % show(n_, 3))
            elif n_.op == 'sum':
                ck.undecided(rule, x, 'final table size %s' % show(n_, 3))


def narrower(small, large, S):
    """the conditions of `small` that `large` does not have, when they are
    about the number of triplets written"""
    a, b = conjuncts(small), conjuncts(large)
    if all(x in a for x in b):
        more = [x for x in a if x not in b]
        if more and all(contains(x, S) for x in more):
            return and_(*more)
    return None


RULES = [factorial, ranges, leftover]
