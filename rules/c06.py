"""Alignment of the regressor rows with the triplet rows, on the value graph.

For every configuration each column of the regressor table written with a block
is traced to (regressor of a role, pool it was computed on, sequence of row
selections). For A, B and X regressors pool and selections must be, term for
term, those of the corresponding item column of the triplets written in the
same step; block and by regressors must be repeated once per triplet row. All
declared regressors must be written, under their own names, on every path that
writes triplets, and the pool order must not change in between.
"""
from rules.tasklib import *
from rules import c01
from rules.history import regressors_again, names

ASSUMES = ['fancy indexing selects rows in index order; H5IO.write appends '
           'the rows it is given (C15)']

CONFIGS = [(0, 1, (), None), (1, 1, (), None), (2, 1, (), None),
           (1, 1, ('A', 'B', 'X', 'ABX'), None), (1, 1, ('ABX',), None),
           (1, 1, ('A', 'B', 'X', 'ABX'), 1), (1, 1, (), 1), (0, 0, (), 1),
           (2, 1, ('ABX',), 1), (1, 1, ('A',), None), (1, 1, ('X',), None)]

ROLE = {n: r for r, ls in REGS.items() for l in ls for n in l}


def aligned(ck):
    for cfg in CONFIGS:
        u = Unit(ck, *cfg)
        e = the_write(ck, 'aligned', u)
        if e is None:
            continue
        if len(u.regs) != 1:
            ck.undecided('aligned', 'ABXpy/task.py', '%d regressor writes' %
                         len(u.regs))
            continue
        r = u.regs[0]
        same_cases(ck, 'written-together', r, r.guard(), e.guard(),
                   '%s: condition of the regressor write' % u.name)
        if [l.id for l in r.loops] != [l.id for l in e.loops]:
            ck.undecided('written-together', r, 'different loops')
        d = r.args[0]
        if d.op != 'dict':
            ck.undecided('aligned', r, 'regressor table %s' % show(d, 3))
            continue
        ents = {}
        for x in d.args:
            if x.args[0].args or x.args[2].op != 'const':
                ck.undecided('aligned', r, 'entry %s' % show(x.args[2], 3))
                continue
            ents[x.args[2].args[0]] = x
        for name, role in sorted(ROLE.items()):
            if name not in ents:
                ck.violated('all-regressors', r, '%s: %s regressor %s is not '
                            'written' % (u.name, role, name))
                continue
            x = ents[name]
            if x.args[1] is not TRUE:
                if opaque_in(x.args[1]):
                    ck.undecided('all-regressors', r, show(x.args[1], 4))
                else:
                    ck.violated('all-regressors', r, '%s: %s is written only '
                                'if %s' % (u.name, name, show(x.args[1], 4)))
            entry(ck, u, e, r, name, role, x.args[3])


def entry(ck, u, e, r, name, role, val):
    rule = 'aligned-' + role
    if role in ('by', 'on_across_by'):
        tiled(ck, u, e, r, name, role, val)
        return
    tcs = list(cond_leaves(e.args[0]))
    bad = und = None
    n = 0
    try:
        for tc, tv in tcs:
            for rc, rv in cond_leaves(tm.resolve(val, facts_of(tc))):
                c = and_(*(tc + rc))
                if c is FALSE or contradictory(tc + rc):
                    continue
                if tv.op != 'cols':
                    # nothing written: any zero row selection
                    continue
                n += 1
                cols = Cols(tv.args)
                k = 'ABX'.index(role)
                b, ls = layers(rv)
                want = [cols.digits[k]] + list(cols.sel)
                if b.op != 'reg':
                    und = 'value %s' % show(rv, 4)
                    continue
                if b.args[0] != role or b.args[1] != name:
                    bad = '%s holds regressor %s of role %s' % (
                        name, b.args[1], b.args[0])
                    continue
                pool = b.args[-1]
                if pool is not cols.pools[k]:
                    if opaque_in(pool):
                        und = 'pool %s' % show(pool, 4)
                    else:
                        bad = 'computed for the items %s while column %s is ' \
                            'drawn from %s' % (show(pool, 5), role,
                                               show(cols.pools[k], 5))
                    continue
                if [id(l) for l in ls] != [id(l) for l in want]:
                    if any(opaque_in(l) for l in ls if l not in want):
                        und = 'rows %s' % ', '.join(show(l, 4) for l in ls)
                    elif empty_rows(u, tc, cols):
                        continue
                    else:
                        bad = 'rows of %s are selected by [%s], rows of the ' \
                            'triplets by [%s]' % (
                                name, '; '.join(show(l, 4) for l in ls),
                                '; '.join(show(l, 4) for l in want))
    except Cannot as x:
        und = str(x)
    if bad:
        ck.violated(rule, r, '%s: %s' % (u.name, bad))
    elif und or not n:
        ck.undecided(rule, r, '%s: %s' % (u.name, und or 'no rows'))
    else:
        ck.holds(rule, r, '%s: %s selected like column %s' % (u.name, name,
                                                              role))


def empty_rows(u, tc, cols):
    """the triplets alternative has no row: its filter keeps nothing"""
    for s in cols.sel:
        if s.op == 'keep' and any(c is not_(lt(ZERO, mk('len', s)))
                                  for c in tc):
            return True
    return False


def facts_of(cs):
    f = {}
    for c in cs:
        for x in (c.args if c.op == 'and' else (c,)):
            if x.op == 'not':
                f[x.args[0].id] = False
            else:
                f[x.id] = True
                f[not_(x).id] = False
    return f


def contradictory(cs):
    ids = set()
    for c in cs:
        for x in (c.args if c.op == 'and' else (c,)):
            ids.add(x.id)
    for c in cs:
        for x in (c.args if c.op == 'and' else (c,)):
            if not_(x).id in ids:
                return True
    return False


def tiled(ck, u, e, r, name, role, val):
    rule = 'aligned-' + role
    n = length(e.args[0])
    if val.op == 'tile' and len(val.args) >= 2:
        b = val.args[0]
        if b.op != 'reg' or b.args[1] != name:
            ck.decide(rule, r, False if b.op == 'reg' else None,
                      '%s: %s holds %s' % (u.name, name, show(b, 4)))
            return
        rep = val.args[1]
        reps = rep.args[0] if rep.op == 'tuple' else rep
        same_cases(ck, rule, r, reps, n, '%s: repetitions of %s' % (u.name,
                                                                   name))
    else:
        ck.undecided(rule, r, '%s: %s' % (u.name, show(val, 4)))


def instantiated(ck):
    """scalar regressors are computed from the block being written"""
    for cfg in CONFIGS[:3]:
        u = Unit(ck, *cfg)
        e = the_write(ck, 'instantiated', u)
        if e is None:
            continue
        key = u.key(e)
        frame = key.args[0].args[0]
        block = mk('rows', frame, key.args[0].args[1], tup(*[
            tm.kcol(key, c.args[0], i) for i, c in enumerate(
                key.args[0].args[1].args)]))
        kb = [v for l in e.loops for v, d in l.doms if v.op == 'gkey'][0]
        for x in u.it.events[u.n0:]:
            if x.kind != 'regressor':
                continue
            v = x.args[0]
            if x.name == 'set_by_regressors':
                ok = v.op == 'iloc' and is_num(v.args[1]) and (
                    v.args[0] is frame)
                ck.decide('by-values', x, True if ok else None,
                          'by regressors of %s' % show(v, 4))
            elif x.name in ('set_A_regressors', 'set_B_regressors',
                            'set_X_regressors'):
                ck.decide('items-table', x, True if x.args[1] is frame else
                          None if opaque_in(x.args[1]) else False,
                          'items looked up in %s' % show(x.args[1], 4))
            elif x.name == 'set_on_across_by_regressors':
                ok = v.op == 'loc' and v.args[0] is frame and \
                    v.args[1].op == 'getitem' and v.args[1].args[0] is block
                ck.decide('block-values', x, True if ok else
                          False if v.op == 'iloc' and v.args[0] is frame
                          else None, 'block regressors of %s' % show(v, 4))


RULES = [aligned, instantiated, regressors_again, names]
