"""Frames with a null or the same direction.

The value graph of the cosine distance is evaluated for sequences that mix
null frames with others and frames with the same or the opposite direction:
every entry has to be a number, 0 for two null frames or the same direction,
1 for a null frame and another, 1 for opposite directions. Identical
distributions are at distance zero for the other frame distances.
"""
from rules.framelib import *

ASSUMES = ['numpy functions follow their documentation']
ZERO = (0, 0)
COS = [
    (((0, 0),), ((0, 0),)),
    (((0, 0),), ((1, 2),)),
    (((1, 2),), ((0, 0),)),
    (((1, 1),), ((2, 2),)),
    (((1, 1),), ((-3, -3),)),
    (((1, 2), (0, 0)), ((0, 0), (2, 1))),
    (((0, 0), (0, 0), (1, 3)), ((0, 0), (1, 3))),
    (((0, 0), (1, 1), (0, 0)), ((5, 2), (0, 0), (0, 0), (1, 1))),
    (((1, 2), (3, 1)), ((0, 0), (2, 4), (-6, -2))),
    (((0, 1), (0, 0), (1, 0)), ((1, 5), (2, 3))),
    (((2, 3), (1, 5)), ((0, 1), (0, 0), (1, 0))),
    (((3, 1), (1, 7)), ((3, 1), (1, 7))),
    (((1, 1), (1, 2), (2, 3), (5, 7)), ((1, 1), (2, 4), (4, 6), (10, 14)))]
SAME = [(((1, 2, 3),), ((1, 2, 3),)),
        (((1, 2, 3), (4, 1, 1)), ((2, 4, 6), (8, 2, 2), (1, 1, 1))),
        (((1, 1),), ((3, 3),))]
SPARSE = [(((0, 2, 3),), ((0, 2, 3),)), (((0, 1), (1, 0)), ((0, 2), (1, 0)))]
KL = M + 'kullback_leibler:'
CASES = [
    ('null', M + 'cosine:cosine_distance', cosine, COS),
    ('same', KL + 'kl_divergence', kl, SAME + SPARSE),
    ('same', KL + 'js_divergence', js, SAME),
    ('same', KL + 'hellinger_distance', hellinger, SAME + SPARSE)]


def degenerate_rule(ck):
    for rule, fn, want, data in CASES:
        where = fn.replace('.', '/').replace(':', '.py:')
        try:
            d = Frames(ck, fn)
        except AnalysisBroken:
            ck.undecided(rule, where, 'function is missing')
            continue
        for k, (x, y) in enumerate(data):
            r = '%s-%d' % (rule, k)
            try:
                got = d(x, y)
            except Unknown as e:
                ck.undecided(r, where, str(e)[:200])
                continue
            bad = None
            if isinstance(got, str):
                bad = got
            else:
                for i, a in enumerate(x):
                    for j, b in enumerate(y):
                        w = want(a, b)
                        if not near(got[i][j], w) and not bad:
                            bad = 'frames %s and %s are at distance %s ' \
                                'instead of %s' % (a, b, nice(got[i][j]),
                                                   nice(w))
            if bad:
                ck.violated(r, where, 'sequences %s and %s: %s' % (x, y, bad))
            else:
                ck.holds(r, where, '%dx%d frames' % (len(x), len(y)))


RULES = [degenerate_rule]
