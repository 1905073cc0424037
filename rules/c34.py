"""Uniform time warping.

The value graph of the uniform alignment is evaluated for all small numbers of
frames with abstract frame distances: the middle of every frame of the longer
sequence is mapped linearly to the shorter one; the result is the sum of the
distances to the frames met, the mean of two of them for a position exactly
between two frames, in either order of the arguments. Which positions are
between two frames may not be decided on rounded quotients.
"""
from rules.common import *
from rules.c16 import noise
from sa.nd import *

ASSUMES = ['the frame distance does not depend on the order of its arguments']
UTW = 'ABXpy.distances.metrics.utw:utw'
W = 'ABXpy/distances/metrics/utw.py:utw'


def expected(n, m, d):
    """cost of n frames against m >= n frames"""
    r = Fraction(0)
    for j in range(m):
        p = Fraction((2 * j + 1) * n, 2 * m)
        k = p.numerator // p.denominator
        r += (d(k - 1, j) + d(k, j)) / Fraction(2) if p == k else d(k, j)
    return r


def rounded(t, depth=0):
    """whether a term multiplies or adds a quotient that may be rounded"""
    if t.op == 'poly':
        for m, c in t.args[0]:
            for x, e in m:
                if e < 0 or x.op == 'div' and (len(m) > 1 or c != 1 or
                                               len(t.args[0]) > 1):
                    return x
    if t.op in ('poly', 'floor', 'np', 'trunc', 'getitem') and depth < 6:
        for x in subterms(t):
            if x is not t and x.op == 'poly' and rounded(x, 6) is not None:
                return rounded(x, 6)
    return None


def utw_rule(ck):
    it = Interp(ck.repo, exact=True)
    try:
        _, res = it.run(UTW, [sym('x'), sym('y'), sym('div')])
    except AnalysisBroken:
        ck.undecided('alignment', W, 'function is missing')
        return
    ck.saw(it)
    g = noise(5)
    top = 12 if ck.tier == 'thorough' else 8

    def call(f, t):
        if not t.args or t.args[0] is not sym('div'):
            return NotImplemented
        a = [x for x in t.args[1:] if isinstance(x, T) and x.op != 'kw']
        u, v = arr(f(a[0])), arr(f(a[1]))
        if u.shape != v.shape or len(u.shape) != 2:
            raise ShapeError('frames of shapes %s and %s' % (u.shape,
                                                             v.shape))
        r = [dist(u.data[i * u.shape[1]], v.data[i * v.shape[1]])
             for i in range(len(u))]
        return Arr((len(r),), r, 'f8')

    def dist(a, b):
        a, b = (a, b) if a < 1000 else (b, a)
        return table[a % 1000, b % 1000]
    for n in range(1, top):
        for m in range(n, top):
            for order in ((0, 1) if n != m else (0,)):
                table = {(i, j): next(g) % 997 + 1 for i in range(n)
                         for j in range(m)}
                short = Arr((n, 2), [k for i in range(n) for k in (i, 0)],
                            'f8')
                long_ = Arr((m, 2), [k for i in range(m)
                                     for k in (1000 + i, 0)], 'f8')
                x, y = (short, long_) if not order else (long_, short)
                f = ND({sym('x').id: x, sym('y').id: y},
                       {k: call for k in ('ucall', 'xcall', 'call',
                                          'dyncall', 'calls')}, it)
                want = expected(n, m, lambda i, j: table[i, j])
                rule = 'alignment-%d-%d-%d' % (n, m, order)
                try:
                    got = f(res)
                except ShapeError as e:
                    got = 'an error: %s' % e
                except Unknown as e:
                    ck.undecided(rule, W, str(e)[:200])
                    continue
                if got == want:
                    ck.holds(rule, W, str(got))
                else:
                    ck.violated(rule, W, '%d frames against %d (%s argument '
                                'first): %s instead of %s' % (
                                    n, m, 'long' if order else 'short', got,
                                    want))
    bad = None
    for t in subterms(res):
        if t.op == 'eq':
            for x in t.args:
                if isinstance(x, T) and rounded(x) is not None:
                    bad = t
    if bad is not None:
        ck.violated('exact-positions', W, 'whether a position is between two '
                    'frames is tested on rounded numbers: %s' % show(bad, 4))
    else:
        ck.holds('exact-positions', W, 'no equality of rounded quotients')


RULES = [utw_rule]
