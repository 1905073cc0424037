"""Distances of empty representations.

The value graph of every provided distance is evaluated for each combination
of empty and non-empty representations: two empty ones are at distance zero,
an empty and a non-empty one at distance plus infinity, and only two non-empty
ones reach the alignment.
"""
from rules.common import *
from rules.c16 import frames
from sa.nd import *

ASSUMES = []
DIST = ['ABXpy.distance:default_distance', 'ABXpy.distance:dtw_kl_distance',
        'ABXpy.distance:edit_distance',
        'ABXpy.distances.example_distances:dtw_cosine',
        'ABXpy.distances.example_distances:dtw_kl_divergence']
TOKEN = 'aligned'


def empty_rule(ck):
    for fn in DIST:
        mod, name = fn.split(':')
        where = mod.replace('.', '/') + '.py:' + name
        it = Interp(ck.repo, exact=True, opaque={'dtw', 'cosine_distance',
                                                 'kl_divergence'})
        args = [sym('x'), sym('y')]
        try:
            if name != 'edit_distance':
                args.append(sym('norm'))
            _, res = it.run(fn, args)
        except AnalysisBroken:
            ck.undecided('empty', where, 'function is missing')
            continue
        ck.saw(it)
        for n, m in ((0, 0), (0, 1), (1, 0), (0, 3), (4, 0), (1, 1), (2, 3)):
            want = 0 if n == m == 0 else INF if not n or not m else TOKEN
            # whatever the alignment returns
            tok = lambda f, t: TOKEN
            f = ND({sym('x').id: frames(n, 'x'), sym('y').id: frames(m, 'y'),
                    sym('norm').id: True},
                   {'call': tok, 'xcall': tok, 'ucall': tok,
                    'ext': lambda f, t: INF if t.args[0] == 'numpy.inf'
                    else NotImplemented}, it)
            rule = 'empty-%d-%d' % (n, m)
            try:
                got = f(res)
                for e in it.events:
                    if e.kind == 'raise' and not e.loops and not any(
                            k[0] == 'handler' for k in e.ctx) and \
                            f(e.guard()):
                        got = 'an error'
            except ShapeError as e:
                got = 'an error: %s' % e
            except Unknown as e:
                ck.undecided(rule, where, str(e)[:200])
                continue
            if want == got or want == TOKEN and isinstance(got, str) and \
                    'error' not in got:
                ck.holds(rule, where, '%s' % (got,))
            else:
                ck.violated(rule, where, 'representations of %d and %d '
                            'frames are at distance %s instead of %s' % (
                                n, m, got, want))


RULES = [empty_rule]
