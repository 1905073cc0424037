"""Frame distances: extraction of their value graphs and their definitions."""
from rules.common import *
from sa.nd import *
from sa import real

M = 'ABXpy.distances.metrics.'
TOL = Fraction(1, 10 ** 9)


class Frames(object):
    """a matrix of frame distances as a value graph"""

    def __init__(self, ck, fn, **opts):
        self.where = fn.replace('.', '/').replace(':', '.py:')
        self.it = it = Interp(ck.repo, exact=True)
        _, self.res = it.run(fn, [sym('x'), sym('y')],
                             {k: const(v) for k, v in opts.items()})
        ck.saw(it)
        self.written = [e for e in it.events if e.kind == 'mutate' and
                        e.name not in ('out=', 'sort')]

    def __call__(self, x, y):
        """matrix of distances, or a text that says what goes wrong"""
        f = ND({sym('x').id: rows(x), sym('y').id: rows(y)}, {}, self.it)
        if self.written:
            raise Unknown('result of %s' % self.written[0].name)
        try:
            for e in self.it.events:
                if e.kind == 'assert' and f(e.guard()) and \
                        not f(mk('truth', e.args[0])):
                    return 'the assertion at %s fails' % (e.where,)
                if e.kind == 'raise' and not e.loops and f(e.guard()):
                    return 'an error is raised at %s' % (e.where,)
            v = f(self.res)
        except ShapeError as e:
            return 'an error: %s' % e
        if not isinstance(v, Arr) or v.shape != (len(x), len(y)):
            return 'the result has shape %s' % (
                shape_of(v) if v is not None else 'None',)
        return v.tolist()


def rows(x):
    return Arr((len(x), len(x[0])), [fit(Fraction(v), 'f8') and plain(
        Fraction(v)) for r in x for v in r], 'f8')


def near(a, b):
    if a is None or a != a:
        return False
    if b in (INF, -INF) or a in (INF, -INF):
        return a == b
    return abs(a - b) <= TOL * (1 + abs(b))


def nice(v):
    return '%.6g' % float(v) if real.tidy(v) == v else str(v)


# ------------------------------------------------------------- definitions

def cosine(x, y):
    nx, ny = sum(a * a for a in x), sum(a * a for a in y)
    if nx == 0 or ny == 0:
        return 0 if nx == ny else 1
    c = sum(a * b for a, b in zip(x, y)) / real.sqrt(nx * ny)
    return real.arccos(max(-1, min(1, c))) / real.PI


def normed(x):
    s = sum(x)
    return [Fraction(a) / s for a in x]


def kl(x, y, thresholded=True, symmetrized=True, normalize=True):
    if normalize or thresholded:
        x, y = normed(x), normed(y)
    if thresholded:
        e = EPS['f8']
        x, y = normed([a + e for a in x]), normed([a + e for a in y])

    def d(p, q):
        return sum(a * (real.log(a) - real.log(b)) for a, b in zip(p, q))
    return (d(x, y) + d(y, x)) / 2 if symmetrized else d(x, y)


def js(x, y, normalize=True):
    if normalize:
        x, y = normed(x), normed(y)
    m = [Fraction(a + b) / 2 for a, b in zip(x, y)]

    def d(p, q):
        return sum(a * (real.log(a) - real.log(b)) for a, b in zip(p, q))
    return (d(x, m) + d(y, m)) / 2


def hellinger(x, y):
    x, y = normed(x), normed(y)
    return real.sqrt(sum((real.sqrt(a) - real.sqrt(b)) ** 2
                         for a, b in zip(x, y)) / 2)
