"""Filters keep exactly what every filter accepts.

The filter manager is interpreted for combinations of up to three abstract
filters of every kind (on by, on/across, single-item and triplet columns, plain
columns); the extracted value graph of the whole filter sequence - by level,
rows, block, A, B and X items, triplets - is evaluated for acceptance tables of
every filter. The kept triplets have to be those accepted by all filters,
whatever order the filters are in, and whatever an operation does to the
columns it is given. A filter evaluated on a partly filtered context has to see
the values of the rows that are left.
"""
import itertools
import random
from rules.sidelib import *
from rules.history import filters_again

ASSUMES = ['scripts and lookup tables of the user are abstract row-wise '
           'predicates of the columns they are given',
           'bounds: up to three filters; three A, two B and two X items']
W = 'ABXpy/sideop/filter_manager.py:FilterManager'
KINDS = {'by': ['b', 'b2_A'], 'rows': ['z'], 'rows2': ['o', 'b'],
         'block': ['o_A', 'a_AB'], 'A': ['z_A'], 'A2': ['z_A', 'o_AX', 'b'],
         'B': ['z_B'], 'B2': ['o_B'], 'X': ['z_X'], 'X2': ['a_X', 'z_X'],
         'ABX': ['z_A', 'z_X'], 'ABX2': ['z_B', 'a_X', 'z_A', 'b']}


def tables(ins, rnd, k):
    """acceptance tables of one filter"""
    ts = tuples(ins)
    if k == 0:
        return {t: True for t in ts}
    if k == 1:
        return {t: False for t in ts}
    if k == 2:
        return {t: i % 2 == 0 for i, t in enumerate(ts)}
    p = rnd.choice((0.5, 0.7, 0.9))
    return {t: rnd.random() < p for t in ts}


def case(ck, kinds, draws):
    ops = {'f%d' % i: KINDS[k] for i, k in enumerate(kinds)}
    what = ' and '.join('(%s)' % ', '.join(ops[d]) for d in sorted(ops))
    m = Manager(ck, FM, ops)
    if m.rejected:
        return 'filters on %s are refused' % what
    p = Pipeline(m)
    rnd = random.Random(len(kinds))
    combos = list(itertools.product(range(3), repeat=len(kinds)))
    if len(kinds) == 3:
        combos = [c for c in combos if 1 not in c[:2]]
    combos += [tuple([3] * len(kinds))] * draws
    for c in combos:
        P = {d: tables(ops[d], rnd, k) for d, k in zip(sorted(ops), c)}
        try:
            got = p(P)
        except Wrong as e:
            return 'filters on %s: %s' % (what, e)
        except ShapeError as e:
            return 'filters on %s fail: %s' % (what, e)
        want = p.expected(sorted(ops), P)
        if got != want:
            if sorted(got) == sorted(want):
                return 'filters on %s give the triplets in another order' % \
                    what
            x = [t for t in got if t not in want]
            y = [t for t in want if t not in got]
            if not x and not y:
                return 'filters on %s keep a triplet more than once' % what
            return 'filters on %s: the triplet %s is %s' % (
                what, (x or y)[0], 'kept although a filter refuses it' if x
                else 'removed although all filters accept it')
    return None


def conjunction_rule(ck):
    rule = 'conjunction'
    deep = ck.tier == 'thorough'
    n = 0
    try:
        cases = [(k,) for k in sorted(KINDS)]
        cases += list(itertools.product(sorted(KINDS), repeat=2))
        base = sorted(KINDS) if deep else []
        for s in ('by', 'rows', 'block', 'A', 'B', 'X', 'ABX'):
            fam = [k for k in sorted(KINDS) if k.rstrip('2') == s]
            cases += list(itertools.product(fam, repeat=3))
        cases += list(itertools.combinations(base, 3))
        for kinds in cases:
            n += 1
            bad = case(ck, kinds, 12 if deep else 4)
            if bad:
                ck.violated(rule, W, bad)
                return
    except Unknown as e:
        ck.undecided(rule, W, '%s: %s' % (kinds, e))
        return
    ck.holds(rule, W, '%d combinations of filters' % n)


RULES = [conjunction_rule, filters_again]
