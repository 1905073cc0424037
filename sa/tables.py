"""Finite models of data frames for the value-graph evaluator.

A table is a list of rows with labels and identities; the frame operators of
the term language (groupby, rows of a group, loc, iloc, reset_index, ...) get
their pandas meaning, so that label/position confusions show as a difference
of row identities.
"""
import math
import struct
from fractions import Fraction

from .finite import *
from .terms import *
from .lib import Unknown


class Tab(object):
    def __init__(self, cols, labels=None, ids=None):
        self.cols = cols
        n = len(next(iter(cols.values()))) if cols else 0
        self.labels = list(range(n)) if labels is None else list(labels)
        self.ids = list(self.labels) if ids is None else list(ids)

    def __len__(self):
        return len(self.labels)

    def take(self, pos):
        return Tab({c: [v[p] for p in pos] for c, v in self.cols.items()},
                   [self.labels[p] for p in pos], [self.ids[p] for p in pos])

    def mask(self, m):
        if len(m) != len(self):
            raise Unknown('mask length')
        return self.take([i for i, k in enumerate(m) if k])

    def row(self, p):
        return {c: v[p] for c, v in self.cols.items()}

    def select(self, names):
        return Tab({c: self.cols[c] for c in names}, self.labels, self.ids)

    def reset(self):
        return Tab(self.cols, range(len(self)), self.ids)

    def by_label(self, ls):
        pos = []
        for x in ls:
            p = [i for i, y in enumerate(self.labels) if y == x]
            if not p:
                raise KeyError(x)
            pos += p
        return self.take(pos)


class Ser(list):
    """a column: values with the labels of its table"""

    def __init__(self, vals, labels):
        list.__init__(self, vals)
        self.labels = list(labels)


def aslist(v):
    return [v] if isinstance(v, (str, int)) else list(v)


def h_frame(f, t):
    op, a = t.op, t.args
    x = f(a[0])
    if op == 'iloc' and isinstance(x, Ser):
        i = f(a[1])
        if isinstance(i, tuple):
            i = slice(*i[1:])
        return Ser([list(x)[k] for k in i], [x.labels[k] for k in i]) if \
            isinstance(i, list) else list(x)[i]
    if op == 'loc' and isinstance(x, Ser):
        i = f(a[1])
        if isinstance(i, (int, str)):
            return list(x)[x.labels.index(i)]
    if not isinstance(x, Tab):
        return NotImplemented
    if op == 'iloc':
        i = f(a[1])
        if isinstance(i, tuple) and i and i[0] == 'slice':
            return x.take(list(range(len(x)))[slice(*i[1:])])
        if isinstance(i, int) and not isinstance(i, bool):
            return x.row(i)
        if isinstance(i, list) and i and all(isinstance(k, bool) for k in i):
            return x.mask(i)
        return x.take(list(i))
    if op == 'loc':
        i = f(a[1])
        if isinstance(i, list) and i and all(isinstance(k, bool) for k in i):
            return x.mask(i)
        if isinstance(i, tuple) and len(i) == 2 and i[0] != 'slice':
            r = x.by_label(aslist(i[0])) if not isinstance(i[0], tuple) else x
            v = r.cols[i[1]]
            return v[0] if isinstance(i[0], (int, str)) else Ser(v, r.labels)
        if isinstance(i, (int, str)):
            return x.by_label([i]).row(0)
        return x.by_label(list(i))
    if op == 'index':
        return list(x.labels)
    if op == 'reindexed':
        return x.reset()
    if op == 'len':
        return len(x)
    if op == 'attr':
        if a[1] == 'index':
            return list(x.labels)
        if a[1] == 'columns':
            return list(x.cols)
        if a[1] == 'shape':
            return (len(x), len(x.cols))
    return NotImplemented


def h_getitem(f, t):
    x = f(t.args[0])
    k = t.args[1]
    if isinstance(x, Ser):
        # an entry of a column: by label when the key is one
        i = f(k)
        if isinstance(i, int) and not isinstance(i, bool):
            if k.op == 'iv' or k.op == 'const' and False:
                return list(x)[i]
            if any(y.op in ('index', 'rows') for y in subterms(k)):
                return list(x)[x.labels.index(i)]
            if list(x.labels) == list(range(len(x))):
                return list(x)[i]
            raise Unknown('label or position')
        return NotImplemented
    if not isinstance(x, Tab):
        return NotImplemented
    i = f(k)
    if isinstance(i, str):
        return Ser(x.cols[i], x.labels)
    if isinstance(i, (list, tuple)) and all(isinstance(c, str) for c in i):
        return x.select(list(i))
    if isinstance(i, list) and all(isinstance(c, bool) for c in i):
        return x.mask(i)
    raise Unknown('frame item')


def h_rows(f, t):
    x = f(t.args[0])
    if not isinstance(x, Tab):
        return NotImplemented
    cols = aslist(f(t.args[1]))
    vals = f(t.args[2])
    vals = list(vals) if isinstance(vals, tuple) else [vals]
    if len(vals) == 1 and isinstance(vals[0], tuple):
        vals = list(vals[0])
    return [l for i, l in enumerate(x.labels)
            if all(x.cols[c][i] == v for c, v in zip(cols, vals))]


def h_gframe(f, t):
    g = t.args[0]
    if g.op != 'groupby':
        raise Unknown('group')
    x = f(g.args[0])
    cols = aslist(f(g.args[1]))
    key = f(t.args[1])
    vals = list(key) if isinstance(key, tuple) else [key]
    return x.take([i for i in range(len(x)) if all(
        x.cols[c][i] == v for c, v in zip(cols, vals))])


def h_concat(f, t):
    return ''.join(str(f(x)) for x in t.args)


def h_str(f, t):
    return str(f(t.args[0]))


def h_isin(f, t):
    v, s = f(t.args[0]), f(t.args[1])
    return [x in set(s) for x in v]


def h_searchsorted(f, t):
    raise Unknown('searchsorted')


def h_np(f, t):
    n, a = t.args[0], t.args[1:]
    if n in ('any', 'all') and len(a) == 2:
        v = f(a[0])
        if isinstance(v, Rows2) and f(a[1]) in (1, 'columns'):
            return [(any if n == 'any' else all)(r) for r in v.rows]
        raise Unknown('any')
    if n in ('any', 'all') and len(a) == 1:
        v = f(a[0])
        if isinstance(v, list) and not isinstance(v, Rows2):
            return (any if n == 'any' else all)(v)
        raise Unknown('any')
    if n == 'searchsorted' and len(a) >= 2:
        import bisect
        v, x = f(a[0]), f(a[1])
        side = 'left'
        for k in a[2:]:
            if k.op == 'const':
                side = k.args[0]
            else:
                for y in subterms(k):
                    if y.op == 'const' and y.args[0] in ('left', 'right'):
                        side = y.args[0]
        g = bisect.bisect_right if side == 'right' else bisect.bisect_left
        return [g(v, y) for y in x] if isinstance(x, list) else g(v, x)
    if n in ('logical_and', 'logical_or') and len(a) == 2:
        return bc((lambda p, q: bool(p and q)) if n == 'logical_and' else
                  (lambda p, q: bool(p or q)), f(a[0]), f(a[1]))
    if n in ('round', 'around', 'round_', 'floor', 'ceil', 'trunc', 'rint',
             'fix') and a:
        d = 0
        for k in a[1:]:
            k = k.args[0].args[1] if k.op == 'kw' else k
            d = f(k)
        if not isinstance(d, int):
            raise Unknown(n)
        g = {'floor': math.floor, 'ceil': math.ceil, 'trunc': int,
             'fix': int}.get(n, round)
        return bc(lambda p, _: g(p * Fraction(10) ** d) / Fraction(10) ** d,
                  f(a[0]), 0)
    if n in ('float32', 'float16') and len(a) == 1:
        return bc(lambda p, _: Fraction(*struct.unpack(
            'f' if n == 'float32' else 'e', struct.pack(
                'f' if n == 'float32' else 'e', p))[0].as_integer_ratio()),
            f(a[0]), 0)
    if n == 'isclose' and len(a) == 2:
        return bc(lambda p, q: abs(p - q) <= Fraction(1, 10 ** 8) +
                  Fraction(1, 10 ** 5) * abs(q), f(a[0]), f(a[1]))
    return NotImplemented


class Rows2(list):
    """a boolean matrix given by rows"""

    def __init__(self, rows):
        self.rows = [list(r) for r in rows]
        list.__init__(self, self.rows)


HOOKS = {'iloc': h_frame, 'loc': h_frame, 'index': h_frame,
         'reindexed': h_frame, 'len': h_frame, 'attr': h_frame,
         'getitem': h_getitem, 'rows': h_rows, 'gframe': h_gframe,
         'concat': h_concat, 'str': h_str, 'isin': h_isin, 'np': h_np}


def h_truth(f, t):
    v = f(t.args[0])
    if isinstance(v, Tab):
        raise Unknown('truth of a frame')
    return NotImplemented
