"""Distances between frames follow their definitions.

The value graph of every frame distance is evaluated for sequences of various
lengths with generic frames: the entry of frames i and j has to be the defined
distance of these two frames, whatever the other frames and the numbers of
frames are.
"""
from rules.framelib import *

ASSUMES = ['numpy functions follow their documentation; values are compared '
           'up to a relative difference of 1e-9']
F3 = ((1, 2, 3), (4, 1, 1), (2, 7, 5), (1, 1, 9))
G3 = ((5, 1, 2), (1, 6, 3), (3, 3, 4), (8, 2, 1), (2, 5, 6))
SIZES = ((1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (4, 3), (3, 5))
SIGNED = (((1, -2, 3), (-4, 1, 1), (2, 7, -5), (0, 0, 3)),
          ((5, 1, -2), (-1, -6, 3), (3, 0, 0), (-3, 4, 12), (0, 5, 0)))
SPARSE = (((0, 2, 3), (4, 0, 0), (2, 7, 5), (0, 0, 1)),
          ((5, 0, 2), (0, 6, 0), (3, 3, 4), (8, 0, 1), (0, 2, 2)))
WIDE = (((1, 2), (3, 1)), ((1, 2, 3, 4, 5), (5, 1, 1, 2, 2)), ((7,), (2,)))


def unit(x):
    return tuple(tuple(Fraction(a) / sum(r) for a in r) for r in x)


OPTS = [{}, {'symmetrized': False}, {'thresholded': False},
        {'thresholded': False, 'symmetrized': False}]
UNIT = [{'normalize': False, 'thresholded': False},
        {'normalize': False, 'thresholded': False, 'symmetrized': False},
        {'normalize': False}, {'normalize': False, 'symmetrized': False}]
KL = M + 'kullback_leibler:'
PLAIN = [(F3, G3)]
CASES = [
    (M + 'cosine:cosine_distance', cosine, {}, PLAIN + [SIGNED]),
    (M + 'cosine:normalize_cosine_distance', cosine, {}, PLAIN)] + [
    (KL + 'kl_divergence', kl, o,
     PLAIN + ([SPARSE] if o.get('thresholded', True) else []))
    for o in OPTS] + [
    (KL + 'kl_divergence', kl, o, PLAIN + [(unit(F3), unit(G3))] +
     ([SPARSE] if o.get('thresholded', True) else []))
    for o in UNIT] + [
    (KL + 'js_divergence', js, {}, PLAIN),
    (KL + 'js_divergence', js, {'normalize': False}, [(unit(F3), unit(G3))]),
    (KL + 'sqrt_js_divergence', lambda x, y: real.sqrt(js(x, y)), {}, PLAIN),
    (KL + 'hellinger_distance', hellinger, {}, PLAIN + [SPARSE])]


def definition_rule(ck):
    for fn, want, opts, data in CASES:
        rule = 'definition' + ''.join('-%s=%s' % o
                                      for o in sorted(opts.items()))
        where = fn.replace('.', '/').replace(':', '.py:')
        try:
            d = Frames(ck, fn, **opts)
        except AnalysisBroken:
            ck.undecided(rule, where, 'function is missing')
            continue
        todo = [(x[:n], y[:m]) for x, y in data for n, m in SIZES]
        if ck.tier == 'thorough':
            todo += [(x[::-1][:n], y[::-1][:m]) for x, y in data
                     for n in range(1, 5) for m in range(1, 6)]
        todo += [(w, w[::-1] + w[:1]) for w in WIDE]
        if len(opts) and not opts.get('normalize', True) and \
                want is not kl or fn.endswith('normalize_cosine_distance'):
            todo = [t for t in todo if len(t[0][0]) == 3]
        bad = unk = None
        for x, y in todo:
            try:
                got = d(x, y)
            except Unknown as e:
                unk = str(e)
                break
            if isinstance(got, str):
                bad = (x, y, got)
                break
            for i, a in enumerate(x):
                for j, b in enumerate(y):
                    w = want(a, b, **opts)
                    if not near(got[i][j], w) and not bad:
                        bad = (x, y, 'the distance of %s and %s is %s instead '
                               'of %s' % (text3(a), text3(b), got[i][j] if
                                          isinstance(got[i][j], str) else
                                          nice(got[i][j]), nice(w)))
            if bad:
                break
        if bad:
            ck.violated(rule, where, '%d and %d frames: %s' % (
                len(bad[0]), len(bad[1]), bad[2]))
        elif unk:
            ck.undecided(rule, where, unk[:200])
        else:
            ck.holds(rule, where, '%d pairs of sequences' % len(todo))


def text3(r):
    return '(%s)' % ', '.join('%.3g' % float(v) for v in r)


RULES = [definition_rule]
