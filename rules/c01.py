"""ABX roles, decided on the value graph of Task + generate_triplets.

For every configuration (0..2 across columns, by / no by, with and without
filters and threshold) the three columns written to the triplet table are
traced back to the item pools they index. Each pool is abstracted to the Venn
regions it covers (on attribute equal to / different from the block's, each
across attribute equal / different) and must stay inside the regions its role
allows; the by-frame the pools are drawn from must be one level of the by
columns, and the column order must be A, B, X.
"""
from rules.tasklib import *

ASSUMES = ['pandas groupby/loc/set semantics as documented; group labels are '
           'compared by equality']

CONFIGS = [(0, 1, (), None), (1, 1, (), None), (2, 1, (), None),
           (1, 0, (), None), (0, 0, (), None),
           (0, 1, ('A', 'B', 'X', 'ABX'), 1), (1, 1, ('A', 'B', 'X', 'ABX'), 1),
           (2, 1, ('A', 'B', 'X', 'ABX'), 1), (1, 2, (), 1)]


def frame_of(pools):
    fs = {}
    for p in pools:
        for x in subterms(p):
            if x.op in ('rows', 'index'):
                f = x.args[0]
                while f.op in ('getitem', 'loc'):
                    f = f.args[0]
                fs[f.id] = f
    return list(fs.values())


def by_frame_rule(ck, u, e, frame):
    """the frame is (a filtered part of) one group of the by columns"""
    rule = 'by-level'
    f = frame
    while f.op in ('filtered', 'reindexed', 'loc', 'getitem'):
        f = f.args[1] if f.op == 'filtered' else f.args[0]
    want = ['BY%d' % (i + 1) for i in range(u.by)] or ['#by']
    if f.op != 'gframe' or f.args[1].op != 'gkey':
        o = opaque_in(frame)
        if f.op == 'sym' or f.op == 'upd':
            ck.violated(rule, e, '%s: the items of a triplet are drawn from %s'
                        ', not from one level of the by columns' % (
                            u.name, show(frame, 5)))
        else:
            ck.undecided(rule, e, 'items table %s' % show(frame, 5))
        return
    gb = f.args[0]
    cols = [c.args[0] for c in gb.args[1].args] \
        if gb.args[1].op == 'tuple' and all(
            c.op == 'const' for c in gb.args[1].args) else None
    if cols is None:
        ck.undecided(rule, e, 'by columns %s' % show(gb.args[1], 4))
        return
    ck.decide(rule, e, set(want) <= set(cols), '%s: by-frame grouped by %s, '
              'by columns are %s' % (u.name, cols, want))


def roles(ck, exact=False):
    for cfg in CONFIGS:
        u = Unit(ck, *cfg)
        e = the_write(ck, 'triplet-roles', u)
        if e is None:
            continue
        key = u.key(e)
        try:
            leaves_ = triplet_leaves(u, e)
            for cond, cols in leaves_:
                if cols is None:
                    continue
                c = Cols(cols)
                fs = frame_of(c.pools)
                if len(fs) != 1:
                    raise Cannot('item tables: %s' % [show(f, 3) for f in fs])
                by_frame_rule(ck, u, e, fs[0])
                for role, p in zip('ABX', c.pools):
                    R = Regions(fs[0], key, u)
                    got = R.member(p)
                    save, u.filters = u.filters, ()
                    want = R.expect(role)
                    u.filters = save
                    bad = R.compare(got, want, lambda r, g, w: g and not w)
                    ck.decide('role-' + role, e, bad is None,
                              '%s: items used as %s may have [%s]' % (
                                  u.name, role, show_region(bad[0]))
                              if bad else '%s: pool of %s inside its role' % (
                                  u.name, role))
        except Cannot as x:
            ck.undecided('triplet-roles', e, '%s: %s' % (u.name, x))


def across_identity(ck):
    """without across, the implicit across column identifies the item"""
    for by in (0, 1):
        u = Unit(ck, 0, by)
        e = the_write(ck, 'implicit-across', u)
        if e is None:
            continue
        ups = {x.id: x for x in subterms(e.args[0]) if x.op == 'upd' and
               x.args[1] is const('#across')}
        if not ups:
            ck.undecided('implicit-across', e, 'column not recognised')
        for x in ups.values():
            v = x.args[2]
            ok = v.op in ('range', 'arange') or v.op == 'index'
            ck.decide('implicit-across', e, True if ok else
                      False if v.op in ('const', 'zeros', 'ones') else None,
                      'implicit across column = %s' % show(v, 4))


RULES = [roles, across_identity]
