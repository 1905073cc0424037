"""Exact n-dimensional arrays for the evaluation of value-graph terms.

Arr is an array of exact values (integers, fractions, +-inf, booleans,
strings, or abstract tokens) with a numpy-like type tag; integer results wrap
around in their type as numpy's do, and integers that become floats lose the
precision floats lose. ND evaluates terms with these arrays.
"""
import bisect
import itertools
import math
import struct
from fractions import Fraction
from .finite import *
from .lib import Unknown
from .terms import *
from . import real

INF = float('inf')


class Arr(object):
    __slots__ = ('shape', 'data', 'dt')

    def __init__(self, shape, data, dt=None):
        self.shape = tuple(shape)
        self.data = list(data)
        self.dt = dt or guess(self.data)

    def __len__(self):
        if not self.shape:
            raise Unknown('len of a scalar')
        return self.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self.item(i)

    def item(self, i):
        n = self.shape[0]
        if not -n <= i < n:
            raise ShapeError('index %d out of range %d' % (i, n))
        i %= n
        if len(self.shape) == 1:
            return self.data[i]
        k = prod(self.shape[1:])
        return Arr(self.shape[1:], self.data[i * k:(i + 1) * k], self.dt)

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def __repr__(self):
        return 'Arr(%s, %s)' % (self.tolist() if self.shape else self.data,
                                self.dt)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.shape == o.shape and \
            self.data == o.data

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def guess(data):
    k = 'b1'
    if not data:
        return 'f8'
    for x in data:
        if isinstance(x, bool):
            c = 'b1'
        elif isinstance(x, int):
            c = 'i8'
        elif isinstance(x, (Fraction, float)):
            c = 'f8'
        else:
            return 'O'
        k = max(k, c, key=lambda z: 'bif'.index(z[0]))
    return k


def arr(x, dt=None):
    """array of nested sequences"""
    if isinstance(x, Arr):
        return x if dt is None else cast(x, dt)
    if isinstance(x, (list, tuple, range)):
        xs = list(x)
        if any(isinstance(y, (list, tuple, Arr, range)) and
               not (isinstance(y, Arr) and not y.shape) for y in xs):
            ys = [arr(y) for y in xs]
            if any(y.shape != ys[0].shape for y in ys):
                raise Unknown('ragged array')
            d = ys[0].dt
            for y in ys:
                d = promote(d, y.dt)
            r = Arr((len(ys),) + ys[0].shape,
                    [v for y in ys for v in y.data], d)
        else:
            r = Arr((len(xs),), [y.data[0] if isinstance(y, Arr) else y
                                 for y in xs])
        return r if dt is None else cast(r, dt)
    r = Arr((), [x])
    return r if dt is None else cast(r, dt)


NAMES = {'int8': 'i1', 'int16': 'i2', 'int32': 'i4', 'int64': 'i8',
         'uint8': 'u1', 'uint16': 'u2', 'uint32': 'u4', 'uint64': 'u8',
         'float16': 'f2', 'float32': 'f4', 'float64': 'f8', 'float': 'f8',
         'int': 'i8', 'bool': 'b1', 'bool_': 'b1', 'int_': 'i8',
         'intp': 'i8', 'double': 'f8', 'object': 'O', 'single': 'f4',
         'longlong': 'i8', 'uint': 'u8', 'byte': 'i1', 'short': 'i2',
         'intc': 'i4', 'ubyte': 'u1', 'float_': 'f8', 'half': 'f2'}
# h5py accepts the one-letter codes as well
CODES = set('u1 u2 u4 u8 i1 i2 i4 i8 f2 f4 f8 b1 O'.split())


def dtname(v):
    """type tag of an evaluated dtype; None if unknown"""
    if v is None:
        return None
    if isinstance(v, str):
        v = v.split('.')[-1]
        if v in CODES:
            return v
        return NAMES.get(v)
    return None


def lim(dt):
    b = 8 * int(dt[1])
    return (0, 2 ** b) if dt[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1))


def fit(x, dt):
    """value of x stored in type dt"""
    if dt is None or dt == 'O' or isinstance(x, (str, bytes)) or \
            not isinstance(x, (bool, int, float, Fraction)):
        return x
    k = dt[0]
    if k == 'b':
        return bool(x)
    if k in 'iu':
        if isinstance(x, float):
            if x != x or x in (INF, -INF):
                return lim(dt)[0]
            x = Fraction(x)
        x = int(x)
        lo, hi = lim(dt)
        return (x - lo) % (hi - lo) + lo
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float):
        return x
    if dt == 'f8':
        if isinstance(x, int) and abs(x) > 2 ** 53:
            return int(float(x))
        return x
    if dt == 'f4':
        y = struct.unpack('f', struct.pack('f', float(x)))[0]
    else:
        y = struct.unpack('e', struct.pack('e', float(x)))[0]
    return y if y in (INF, -INF) else plain(Fraction(y))


def plain(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def cast(x, dt):
    if isinstance(x, (list, tuple)):
        x = arr(x)
    if isinstance(x, Arr):
        return Arr(x.shape, [fit(v, dt) for v in x.data], dt)
    return fit(x, dt)


def promote(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    if 'O' in (a, b):
        return 'O'
    ka, kb, na, nb = a[0], b[0], int(a[1]), int(b[1])
    if ka == 'b':
        return b
    if kb == 'b':
        return a
    if ka == kb:
        return ka + str(max(na, nb))
    if 'f' in (ka, kb):
        f, (k, n) = (na, (kb, nb)) if ka == 'f' else (nb, (ka, na))
        need = {1: 2, 2: 4, 4: 8, 8: 8}[n]
        return 'f%d' % max(f, need)
    u, i = (na, nb) if ka == 'u' else (nb, na)
    if i > u:
        return 'i%d' % i
    return 'f8' if u == 8 else 'i%d' % (2 * u)


def small(x, kind):
    """smallest type holding the scalar x, in the promotion with an array"""
    if isinstance(x, bool):
        return 'b1'
    if isinstance(x, int):
        if x >= 0:
            for n in (1, 2, 4, 8):
                if kind == 'i':
                    if x < 2 ** (8 * n - 1):
                        return 'i%d' % n
                elif x < 2 ** (8 * n):
                    return 'u%d' % n
        else:
            for n in (1, 2, 4, 8):
                if x >= -2 ** (8 * n - 1):
                    return 'i%d' % n
        return 'O'
    if isinstance(x, (Fraction, float)):
        return 'f2'
    return 'O'


CAT = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'O': 3}


def result_dt(xs):
    arrs = [x for x in xs if isinstance(x, Arr) and x.shape]
    scal = [x for x in xs if not (isinstance(x, Arr) and x.shape)]
    scal = [x.data[0] if isinstance(x, Arr) else x for x in scal]
    if not arrs:
        return None
    d = None
    for x in arrs:
        d = promote(d, x.dt)
    for s in scal:
        c = small(s, d[0])
        if CAT[c[0]] > CAT[d[0]]:
            d = promote(d, {'f2': 'f8'}.get(c, 'i8' if c[0] in 'iu' else c))
        elif c[0] == 'i' and d[0] == 'u' and isinstance(s, int) and s < 0:
            d = promote(d, c)
        else:
            d = promote(d, c) if c[0] == d[0] and c[0] in 'iu' else d
    return d


def shape_of(x):
    return x.shape if isinstance(x, Arr) else ()


def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        ds = {s[i - n + len(s)] for s in shapes if i - n + len(s) >= 0}
        ds.discard(1)
        if len(ds) > 1:
            raise ShapeError('shapes %s' % ' and '.join(map(str, shapes)))
        out.append(ds.pop() if ds else 1)
    return tuple(out)


def strides(shape):
    s, r = [], 1
    for d in reversed(shape):
        s.append(r)
        r *= d
    return list(reversed(s))


def spread(x, shape):
    """flat data of x broadcast to shape"""
    if not isinstance(x, Arr):
        return [x] * prod(shape)
    if x.shape == shape:
        return x.data
    k = len(shape) - len(x.shape)
    st = [0] * k + [0 if d == 1 else s
                    for d, s in zip(x.shape, strides(x.shape))]
    return [x.data[sum(i * s for i, s in zip(ix, st))]
            for ix in itertools.product(*[range(d) for d in shape])]


def lift(f, *xs, **kw):
    """elementwise f with broadcasting; kw dt: type of the result"""
    xs = [arr(x) if isinstance(x, (list, range)) else x for x in xs]
    if not any(isinstance(x, Arr) for x in xs):
        return f(*xs)
    shape = bshape([shape_of(x) for x in xs])
    dt = kw.get('dt') or result_dt(xs)
    cols = [spread(x, shape) for x in xs]
    data = [fit(f(*r), dt) if dt else f(*r) for r in zip(*cols)]
    if not shape:
        return data[0]
    return Arr(shape, data, dt)


def num(x):
    return isinstance(x, (int, Fraction, float))


def fadd(a, b):
    if isinstance(a, (str, bytes, tuple, list)):
        if type(a) is not type(b):
            raise ShapeError('adding %r and %r' % (a, b))
        return a + b
    if isinstance(a, float) or isinstance(b, float):
        return float(a) + float(b)
    return plain(a + b)


def fmul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, Fraction):
            a = float(a)
        if isinstance(b, Fraction):
            b = float(b)
    return plain(a * b)


def fdiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if b == 0:
            return float('nan') if a == 0 or a != a else \
                INF * (1 if a > 0 else -1)
        return float(a) / float(b)
    if b == 0:
        return float('nan') if a == 0 else INF * (1 if a > 0 else -1)
    return plain(Fraction(a) / b)


def ffloordiv(a, b):
    if b == 0:      # numpy: zero, with a warning
        return 0
    return a // b


def fmod_(a, b):
    if isinstance(a, (str, bytes)):
        return a % b
    if b == 0:
        return 0
    return a % b


OPS = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'eq': lambda a, b: a == b, 'floordiv': ffloordiv, 'mod': fmod_,
       'div': fdiv, 'min': min, 'max': max}


# ------------------------------------------------------------------ indexing

def norm_index(x, idx):
    idx = list(idx) if isinstance(idx, tuple) and not is_slice(idx) else [idx]
    idx = [arr(i) if isinstance(i, (list, range)) else i for i in idx]
    used = 0
    for i in idx:
        if i is None or i is Ellipsis:
            continue
        if isinstance(i, str):
            raise Unknown('index %s' % i)
        used += len(i.shape) if isinstance(i, Arr) and i.dt == 'b1' else 1
    nd = len(x.shape)
    if used > nd:
        raise ShapeError('too many indices for %d dimensions' % nd)
    full = ('slice', None, None, None)
    if any(i is Ellipsis for i in idx):
        k = [n for n, i in enumerate(idx) if i is Ellipsis][0]
        idx[k:k + 1] = [full] * (nd - used)
    else:
        idx += [full] * (nd - used)
    return idx


def is_slice(i):
    return isinstance(i, tuple) and len(i) == 4 and i[0] == 'slice'


def positions(x, idx):
    """(shape, flat positions) selected by an index"""
    idx = norm_index(x, idx)
    st = strides(x.shape)
    parts = []       # ('s', positions) | ('i', position) | ('n',) | ('f', Arr)
    ax = 0
    for i in idx:
        if i is None:
            parts.append(('n',))
            continue
        if isinstance(i, Arr) and i.dt == 'b1' and i.shape:
            k = len(i.shape)
            if i.shape != x.shape[ax:ax + k]:
                raise ShapeError('mask of shape %s for %s' % (
                    i.shape, x.shape[ax:ax + k]))
            ss = strides(i.shape)
            hit = [p for p, v in enumerate(i.data) if v]
            for j in range(k):
                parts.append(('f', Arr((len(hit),), [
                    (p // ss[j]) % i.shape[j] * st[ax + j] for p in hit],
                    'i8')))
            ax += k
            continue
        n = x.shape[ax]
        if is_slice(i):
            for v in i[1:]:
                if v is not None and (isinstance(v, bool) or
                                      not isinstance(v, int)):
                    raise ShapeError('slice bound %r' % (v,))
            parts.append(('s', [p * st[ax] for p in
                                range(*slice(*i[1:]).indices(n))]))
        elif isinstance(i, Arr):
            if i.dt[0] not in 'iu' and i.data:
                raise ShapeError('index array of type %s' % i.dt)
            for v in i.data:
                if not -n <= v < n:
                    raise ShapeError('index %s out of range %d' % (v, n))
            parts.append(('f', Arr(i.shape, [v % n * st[ax]
                                             for v in i.data], 'i8')))
        elif isinstance(i, int) and not isinstance(i, bool):
            if not -n <= i < n:
                raise ShapeError('index %d out of range %d' % (i, n))
            parts.append(('i', i % n * st[ax]))
        else:
            raise Unknown('index %r' % (i,))
        ax += 1
    fs = [p for p in parts if p[0] == 'f']
    if not fs:
        dims, choices, base = [], [], 0
        for p in parts:
            if p[0] == 's':
                dims.append(len(p[1]))
                choices.append(p[1])
            elif p[0] == 'n':
                dims.append(1)
                choices.append([0])
            else:
                base += p[1]
        return tuple(dims), [base + sum(c)
                             for c in itertools.product(*choices)]
    # fancy: broadcast the index arrays, placed at their (contiguous) position
    sh = bshape([p[1].shape for p in fs])
    fl = [sum(c) for c in zip(*[spread(p[1], sh) for p in fs])]
    where = [k for k, p in enumerate(parts) if p[0] in 'fi']
    contiguous = where == list(range(where[0], where[-1] + 1))
    base = sum(p[1] for p in parts if p[0] == 'i')
    before, after = [], []
    for k, p in enumerate(parts):
        if p[0] in 'sn':
            (before if contiguous and k < where[0] else after).append(
                p[1] if p[0] == 's' else [0])
    dims = [len(c) for c in before] + list(sh) + [len(c) for c in after]
    pos = [base + sum(b) + f + sum(a) for b in itertools.product(*before)
           for f in fl for a in itertools.product(*after)]
    return tuple(dims), pos


def getitem(x, idx):
    if isinstance(x, (list, tuple, range)):
        if isinstance(idx, bool) or not isinstance(idx, int):
            if is_slice(idx):
                return x[slice(*idx[1:])]
            raise Unknown('index %r of a sequence' % (idx,))
        if not -len(x) <= idx < len(x):
            raise ShapeError('index %d out of range %d' % (idx, len(x)))
        return x[idx]
    if isinstance(x, dict):
        if idx not in x:
            raise ShapeError('key %r' % (idx,))
        return x[idx]
    if isinstance(x, str):
        return x[slice(*idx[1:])] if is_slice(idx) else x[idx]
    if isinstance(x, Arr):
        dims, pos = positions(x, idx)
        data = [x.data[p] for p in pos]
        if not dims:
            return data[0]
        return Arr(dims, data, x.dt)
    raise Unknown('item of %r' % (type(x),))


def setitem(x, idx, v):
    """x with x[idx] = v"""
    if isinstance(x, list):
        x = list(x)
        if isinstance(idx, int) and not isinstance(idx, bool):
            if not -len(x) <= idx < len(x):
                raise ShapeError('index %d out of range %d' % (idx, len(x)))
            x[idx] = v
            return x
        raise Unknown('list item')
    if isinstance(x, dict):
        x = dict(x)
        x[idx] = v
        return x
    if isinstance(x, Arr):
        dims, pos = positions(x, idx)
        if isinstance(v, (list, tuple)):
            v = arr(v)
        if isinstance(v, Arr):
            sh = v.shape
            while len(sh) > len(dims) and sh and sh[0] == 1:
                sh = sh[1:]
            v = Arr(sh, v.data, v.dt)
            if sh != dims and (len(sh) > len(dims) or
                               bshape([sh, dims]) != dims):
                raise ShapeError('%s values are assigned to %s places' % (
                    sh, dims))
            vals = spread(v, dims)
        else:
            vals = [v] * len(pos)
        data = list(x.data)
        for p, w in zip(pos, vals):
            data[p] = fit(w, x.dt)
        return Arr(x.shape, data, x.dt)
    raise Unknown('item assignment')


# ---------------------------------------------------------------- reductions

def along(x, axis, keep=False):
    """(shape of the result, the vectors along an axis)"""
    if axis is None:
        return (), [x.data]
    if isinstance(axis, tuple):
        raise Unknown('axes')
    axis %= len(x.shape)
    sh = x.shape[:axis] + x.shape[axis + 1:]
    st = strides(x.shape)
    vs = []
    for ix in itertools.product(*[range(d) for d in sh]):
        full = ix[:axis] + (0,) + ix[axis:]
        b = sum(i * s for i, s in zip(full, st))
        vs.append([x.data[b + j * st[axis]] for j in range(x.shape[axis])])
    if keep:
        sh = x.shape[:axis] + (1,) + x.shape[axis + 1:]
    return sh, vs


def total(v, start=0):
    r = start
    for y in v:
        r = fadd(r, y)
    return r


def mean(v):
    if not v:
        return float('nan')
    return fdiv(total(v), len(v))


def nonempty(f):
    def g(v):
        if not len(v):
            raise ShapeError('extremum of an empty array')
        if any(x != x for x in v):
            return float('nan')
        return f(v)
    return g


def product(v):
    r = 1
    for x in v:
        r = fmul(r, x)
    return r


RED = {'sum': total, 'prod': product, 'mean': mean, 'average': mean,
       'max': nonempty(max), 'min': nonempty(min),
       'any': lambda v: any(bool(x) for x in v),
       'all': lambda v: all(bool(x) for x in v),
       'argmax': nonempty(lambda v: v.index(max(v))),
       'argmin': nonempty(lambda v: v.index(min(v))),
       'count_nonzero': lambda v: sum(1 for x in v if x),
       'ptp': nonempty(lambda v: max(v) - min(v)),
       'median': nonempty(lambda v: fdiv(
           sorted(v)[(len(v) - 1) // 2] + sorted(v)[len(v) // 2], 2))}


def reduce_(n, x, axis=None, keep=False):
    x = arr(x)
    sh, vs = along(x, axis, keep)
    f = RED[n]
    dt = x.dt
    if n in ('sum', 'prod'):
        dt = {'b': 'i8', 'i': 'i8', 'u': 'u8'}.get(x.dt[0], x.dt)
    elif n in ('mean', 'average', 'median'):
        dt = x.dt if x.dt[0] == 'f' else 'f8'
    elif n in ('any', 'all'):
        dt = 'b1'
    elif n in ('argmax', 'argmin', 'count_nonzero'):
        dt = 'i8'
    data = [fit(f(v), dt) for v in vs]
    if sh == ():
        return data[0]
    return Arr(sh, data, dt)


def scan(x, f, axis=None):
    x = arr(x)
    if len(x.shape) > 1:
        raise Unknown('scan')
    out, s = [], None
    dt = {'b': 'i8', 'i': 'i8', 'u': 'u8'}.get(x.dt[0], x.dt)
    for v in x.data:
        s = v if s is None else f(s, v)
        out.append(fit(s, dt))
    return Arr(x.shape, out, dt)


def concat(parts, axis=0):
    parts = [arr(p) for p in parts]
    if not parts:
        raise ShapeError('nothing to concatenate')
    nd = len(parts[0].shape)
    if axis is None:
        parts = [Arr((len(p.data),), p.data, p.dt) for p in parts]
        axis, nd = 0, 1
    if nd == 0 or any(len(p.shape) != nd for p in parts):
        raise ShapeError('concatenation of different dimensions')
    axis %= nd
    dt = None
    for p in parts:
        dt = promote(dt, p.dt)
        if p.shape[:axis] + p.shape[axis + 1:] != \
                parts[0].shape[:axis] + parts[0].shape[axis + 1:]:
            raise ShapeError('concatenation of shapes %s and %s' % (
                parts[0].shape, p.shape))
    outer = prod(parts[0].shape[:axis])
    data = []
    for o in range(outer):
        for p in parts:
            k = prod(p.shape[axis:])
            data += p.data[o * k:(o + 1) * k]
    sh = list(parts[0].shape)
    sh[axis] = sum(p.shape[axis] for p in parts)
    return Arr(sh, [fit(x, dt) for x in data], dt)


def transpose(x):
    x = arr(x)
    sh = x.shape[::-1]
    st = strides(x.shape)[::-1]
    return Arr(sh, [x.data[sum(i * s for i, s in zip(ix, st))]
                    for ix in itertools.product(*[range(d) for d in sh])],
               x.dt)


def reshape(x, sh):
    x = arr(x)
    sh = list(sh) if isinstance(sh, (tuple, list, Arr)) else [sh]
    if -1 in sh:
        k = prod(d for d in sh if d != -1)
        if not k or len(x.data) % k:
            raise ShapeError('reshape to %s' % (sh,))
        sh[sh.index(-1)] = len(x.data) // k
    if prod(sh) != len(x.data):
        raise ShapeError('reshape of %s to %s' % (x.shape, tuple(sh)))
    return Arr(sh, x.data, x.dt)


def dot(a, b):
    a, b = arr(a), arr(b)
    if len(a.shape) == 1 and len(b.shape) == 1:
        if a.shape != b.shape:
            raise ShapeError('dot of %s and %s' % (a.shape, b.shape))
        return total(fmul(x, y) for x, y in zip(a.data, b.data))
    if len(a.shape) == 2 and len(b.shape) in (1, 2):
        b2 = b if len(b.shape) == 2 else reshape(b, (len(b), 1))
        if a.shape[1] != b2.shape[0]:
            raise ShapeError('dot of %s and %s' % (a.shape, b.shape))
        rows = [[total(fmul(a.data[i * a.shape[1] + k],
                            b2.data[k * b2.shape[1] + j])
                       for k in range(a.shape[1]))
                 for j in range(b2.shape[1])] for i in range(a.shape[0])]
        dt = promote(a.dt, b.dt)
        r = Arr((a.shape[0], b2.shape[1]), [x for r_ in rows for x in r_], dt)
        return r if len(b.shape) == 2 else reshape(r, (a.shape[0],))
    raise Unknown('dot')


def order(v):
    return sorted(range(len(v)), key=lambda i: v[i])


def fl(x):
    """1-d data of a value"""
    if isinstance(x, Arr):
        if len(x.shape) != 1:
            raise Unknown('expected one dimension')
        return x.data
    if isinstance(x, (list, tuple, range)):
        return list(x)
    raise Unknown('expected a vector')


class ND(Finite):
    """Finite with exact arrays"""

    def __init__(self, env, funcs=None, it=None):
        Finite.__init__(self, env, funcs, it)

    def sub(self, env):
        e = dict(self.env)
        e.update(env)
        return self.__class__(e, self.funcs, self.it)

    def kw(self, args):
        """(positional values, keyword values) of the arguments of np"""
        pos, kws = [], {}
        for x in args:
            if x.op == 'kw':
                for y in x.args:
                    kws[y.args[0]] = self(y.args[1])
            else:
                pos.append(self(x))
        return pos, kws

    def dtype(self, t):
        """type tag of a dtype term"""
        if t is NONE or t is None:
            return None
        if t.op == 'ext':
            r = dtname(str(t.args[0]))
        else:
            r = dtname(self(t))
        if r is None:
            raise Unknown('dtype %s' % show(t, 3))
        return r

    def ev(self, t):
        op, a = t.op, t.args
        if op == 'const':
            return a[0]
        f = self.funcs.get(op)
        if f is not None:
            r = f(self, t)
            if r is not NotImplemented:
                return r
        g = getattr(self, 'op_' + op, None)
        if g is not None:
            r = g(t, *a)
            if r is not NotImplemented:
                return r
        return Finite.ev(self, t)

    # ---- scalars and elementwise
    def op_poly(self, t, p):
        r = None
        for m, c in p:
            v = c if c.denominator != 1 else int(c)
            first = True
            w = None
            for x, e in m:
                y = self(x)
                if not isinstance(y, (Arr, list, int, Fraction, float)) and \
                        not (len(m) == 1 and c == 1 and e == 1):
                    raise Unknown('arithmetic of %r' % (y,))
                if e != 1:
                    if e < 0:
                        y = lift(lambda u: fdiv(1, u ** -e), y, dt='f8') \
                            if isinstance(y, Arr) else fdiv(1, y ** -e)
                    else:
                        y = lift(lambda u: u ** e, y)
                w = y if first else lift(fmul, w, y)
                first = False
            if first:
                w = v
            elif v != 1:
                w = lift(fmul, v, w)
            r = w if r is None else lift(fadd, r, w)
        return 0 if r is None else r

    def binop(self, n, x, y):
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and \
                n in ('eq', 'lt', 'le'):
            return OPS[n](x, y)
        if n in ('eq', 'lt', 'le'):
            return lift(OPS[n], x, y, dt='b1')
        if n == 'div':
            return lift(fdiv, x, y, dt='f8')
        return lift(OPS[n], x, y)

    def op_lt(self, t, x, y):
        return self.binop('lt', self(x), self(y))

    def op_le(self, t, x, y):
        return self.binop('le', self(x), self(y))

    def op_eq(self, t, x, y):
        if x.op == 'ext' or y.op == 'ext':
            u, v = dtname(self(x)), dtname(self(y))
            if u and v:
                return u == v
        return self.binop('eq', self(x), self(y))

    def op_floordiv(self, t, x, y):
        return self.binop('floordiv', self(x), self(y))

    def op_mod(self, t, x, y):
        return self.binop('mod', self(x), self(y))

    def op_div(self, t, x, y):
        return self.binop('div', self(x), self(y))

    def op_min(self, t, *xs):
        r = self(xs[0])
        for x in xs[1:]:
            r = lift(min, r, self(x))
        return r

    def op_max(self, t, *xs):
        r = self(xs[0])
        for x in xs[1:]:
            r = lift(max, r, self(x))
        return r

    def op_not(self, t, x):
        return lift(lambda v: not v, self(x), dt='b1')

    def op_truth(self, t, x):
        v = self(x)
        if isinstance(v, Arr):
            if len(v.data) != 1:
                raise ShapeError('truth of an array')
            return bool(v.data[0])
        return bool(v)

    def logic(self, xs, stop):
        r = not stop
        for x in xs:
            v = self(x)
            if isinstance(v, Arr) or isinstance(r, Arr):
                r = lift((lambda p, q: bool(p or q)) if stop else
                         (lambda p, q: bool(p and q)), r, v, dt='b1')
            elif bool(v) == stop:
                return stop
        return r

    def op_and(self, t, *xs):
        return self.logic(xs, False)

    def op_or(self, t, *xs):
        return self.logic(xs, True)

    def op_ite(self, t, c, x, y):
        c = self(c)
        if isinstance(c, Arr):
            u, v = self(x), self(y)
            return lift(lambda p, q, r: q if p else r, c, u, v,
                        dt=result_dt([w for w in (u, v)
                                      if isinstance(w, Arr)] or
                                     [arr([u, v])]))
        return self(x if c else y)

    def op_ceil(self, t, x):
        return lift(lambda v: v if v in (INF, -INF) else -int(-v // 1),
                    self(x))

    def op_floor(self, t, x):
        return lift(lambda v: v if v in (INF, -INF) else int(v // 1), self(x))

    def op_trunc(self, t, x):
        v = self(x)
        if isinstance(v, Arr):
            raise Unknown('int of an array')
        return int(v)

    # ---- shapes
    def op_len(self, t, x):
        v = self(x)
        return len(v)

    op_card = op_len

    def op_dim(self, t, x, k):
        v, k = self(x), self(k)
        if isinstance(v, (list, tuple)):
            v = arr(v)
        if not isinstance(v, Arr) or k >= len(v.shape):
            raise ShapeError('dimension %r' % (k,))
        return v.shape[k]

    def op_shape(self, t, x):
        v = arr(self(x))
        return v.shape

    def op_attr(self, t, x, n):
        v = self(x)
        if isinstance(v, Arr):
            if n == 'size':
                return len(v.data)
            if n == 'shape':
                return v.shape
            if n == 'ndim':
                return len(v.shape)
            if n == 'T':
                return transpose(v)
            if n == 'dtype':
                return v.dt
            if n == 'itemsize':
                return int(v.dt[1:] or 8)
        if isinstance(v, dict) and 'finfo' in v and n in v:
            return v[n]
        if n == 'itemsize' and dtname(v):
            return int(dtname(v)[1:] or 8)
        raise Unknown('attribute %s' % n)

    def op_T(self, t, x):
        return transpose(self(x))

    def op_dtype(self, t, x):
        return arr(self(x)).dt

    # ---- items
    def op_slice(self, t, *xs):
        r = [None if x is NONE else self(x) for x in xs]
        while len(r) < 3:
            r.append(None)
        return ('slice',) + tuple(r)

    def op_ellipsis(self, t):
        return Ellipsis

    def op_getitem(self, t, x, i):
        return getitem(self(x), self(i))

    def op_upd(self, t, x, i, v):
        return setitem(self(x), self(i), self(v))

    def op_fill(self, t, x, d, g, i, v):
        r = self(x)
        for f in self.iterate(d, g, i, v):
            if f(g):
                r = setitem(r, f(i), f(v))
        return r

    def op_list(self, t, *xs):
        r = []
        for x in xs:
            if x.op == 'star':
                r += list(self(x.args[0]))
            else:
                r.append(self(x))
        return r

    def op_vec(self, t, *xs):
        return arr([self(x) for x in xs])

    def op_tuple(self, t, *xs):
        return tuple(self.op_list(t, *xs))

    def op_cols(self, t, *xs):
        vs = []
        for x in xs:
            v = arr(self(x))
            vs.append(reshape(v, (len(v), 1)) if len(v.shape) == 1 else v)
        return concat(vs, 1)

    def op_colvec(self, t, x):
        v = arr(self(x))
        return reshape(v, (len(v.data), 1))

    def op_concat_rows(self, t, *xs):
        parts = []
        for x in xs:
            if x.op == 'star':
                parts += list(self(x.args[0]))
            else:
                parts.append(self(x))
        return concat(parts)

    def op_lcat(self, t, *xs):
        r = []
        for x in xs:
            if x.op == 'li':
                if self(x.args[0]):
                    r.append(self(x.args[1]))
            elif x.op == 'lx':
                if self(x.args[0]):
                    r += list(self(x.args[1]))
            else:
                r += list(self(x))
        return r

    def op_items(self, t, x):
        return list(self(x).items())

    def op_vals(self, t, x):
        return list(self(x).values())

    def op_loopseq(self, t, *xs):
        raise Unknown('loop-carried list')

    def op_lcomp(self, t, d, g, v):
        if d.op != 'doms':
            raise Unknown('lcomp')
        return [f(v) for f in self.iterate(d, g, v) if f(g)]

    def op_sum(self, t, *xs):
        if xs[0].op == 'doms':
            r = 0
            for f in self.iterate(*xs[:3]):
                if f(xs[1]):
                    r = lift(fadd, r, f(xs[2]))
            return r
        if len(xs) == 1:
            v = self(xs[0])
            if isinstance(v, Arr) and len(v.shape) > 1:
                return reduce_('sum', v, 0)
            return total(v)
        raise Unknown('sum')

    def op_zip(self, t, *xs):
        return [tuple(r) for r in zip(*[list(self(x)) for x in xs])]

    def op_enumerate(self, t, x, *s):
        return list(enumerate(list(self(x)), *[self(y) for y in s]))

    def op_reversed(self, t, x):
        return list(self(x))[::-1]

    def op_sorted(self, t, x, *k):
        if k:
            raise Unknown('sorted with a key')
        return sorted(list(self(x)))

    def op_set(self, t, *xs):
        return set(self.op_list(t, *xs))

    def op_setof(self, t, x, *r):
        return set(self(x))

    def op_in(self, t, x, s):
        x, s = self(x), self(s)
        if isinstance(s, Arr):
            return any(v == x for v in s.data)
        return x in s

    def op_isin(self, t, x, s):
        s = self(s)
        s = set(s.data if isinstance(s, Arr) else s)
        return lift(lambda v: v in s, self(x), dt='b1')

    # ---- allocation
    def dims(self, t):
        s = self(t)
        if isinstance(s, Arr):
            s = s.data
        if isinstance(s, (list, tuple)):
            r = tuple(s)
        else:
            r = (s,)
        for d in r:
            if isinstance(d, bool) or not isinstance(d, int) or d < 0:
                raise ShapeError('shape %r' % (r,))
        return r

    def op_empty(self, t, s, *d):
        r = self.dims(s)
        return Arr(r, [None] * prod(r), self.dtype(d[0]) if d else 'f8')

    def op_zeros(self, t, s, *d):
        r = self.dims(s)
        return Arr(r, [0] * prod(r), self.dtype(d[0]) if d else 'f8')

    def op_ones(self, t, s, *d):
        r = self.dims(s)
        return Arr(r, [1] * prod(r), self.dtype(d[0]) if d else 'f8')

    def op_full(self, t, s, v, *d):
        r = self.dims(s)
        return Arr(r, [self(v)] * prod(r))

    def op_arange(self, t, *xs):
        return Arr_range(*[self(x) for x in xs])

    def op_range(self, t, *xs):
        vs = [self(x) for x in xs]
        for v in vs:
            if isinstance(v, bool) or not isinstance(v, int):
                raise ShapeError('range of %r' % (v,))
        return list(range(*vs))

    # ---- vectors
    def op_cumsum(self, t, x):
        return scan(self(x), fadd)

    def op_argsort(self, t, x):
        v = self(x)
        return Arr((len(v),), order(fl(v)), 'i8')

    def op_nonzero(self, t, x):
        v = fl(self(x))
        r = [i for i, y in enumerate(v) if y]
        return Arr((len(r),), r, 'i8')

    def op_unique(self, t, x):
        v = arr(self(x))
        r = sorted(set(v.data))
        return Arr((len(r),), r, v.dt)

    def setop(self, x, y, keep):
        a, b = arr(self(x)), arr(self(y))
        r = sorted(v for v in set(a.data) | set(b.data)
                   if keep(v in a.data, v in b.data))
        return Arr((len(r),), r, promote(a.dt, b.dt)
                   if a.dt and b.dt else a.dt or b.dt)

    def op_setunion(self, t, x, y):
        return self.setop(x, y, lambda p, q: True)

    def op_setinter(self, t, x, y):
        return self.setop(x, y, lambda p, q: p and q)

    def op_setdiff(self, t, x, y):
        return self.setop(x, y, lambda p, q: p and not q)

    def op_setxor(self, t, x, y):
        return self.setop(x, y, lambda p, q: p != q)

    def op_tile(self, t, x, k):
        v, k = arr(self(x)), self(k)
        if isinstance(k, int):
            return concat([v] * k, len(v.shape) - 1) if k else \
                Arr(v.shape[:-1] + (0,), [], v.dt)
        k = tuple(k)
        n = max(len(k), len(v.shape))
        k = (1,) * (n - len(k)) + k
        v = reshape(v, (1,) * (n - len(v.shape)) + v.shape)
        for ax in range(n):
            if k[ax] < 1:
                raise Unknown('tile')
            v = concat([v] * k[ax], ax)
        return v

    def op_reshape(self, t, x, s):
        return reshape(self(x), self(s))

    def op_concat(self, t, *xs):
        return ''.join(self(x) if isinstance(self(x), str) else
                       text(self(x)) for x in xs)

    def op_str(self, t, x):
        return text(self(x))

    def op_join(self, t, s, x):
        return self(s).join(self(x))

    def op_format(self, t, s, *xs):
        raise Unknown('format')

    # ---- numpy functions
    def op_np(self, t, n, *args):
        h = getattr(self, 'np_' + n.replace('.', '_'), None)
        if n in RED:
            pos, kw = self.kw(args)
            axis = pos[1] if len(pos) > 1 else kw.get('axis')
            if set(kw) - {'axis', 'keepdims', 'dtype'}:
                raise Unknown('%s with %s' % (n, sorted(kw)))
            x = pos[0]
            if kw.get('dtype') is not None:
                x = cast(arr(x), dtname(kw['dtype']))
            return reduce_(n, x, axis, bool(kw.get('keepdims')))
        if h is not None:
            pos, kw = self.kw(args)
            try:
                return h(*pos, **kw)
            except TypeError as e:
                raise Unknown('%s: %s' % (n, e))
        if n in NAMES or n in ('float32', 'float16'):
            return cast(self(args[0]), dtname(n))
        raise Unknown('numpy.%s' % n)

    def np_sort(self, x, axis=-1):
        x = arr(x)
        if len(x.shape) == 1:
            return Arr(x.shape, sorted(x.data), x.dt)
        raise Unknown('sort')

    def np_abs(self, x):
        return lift(abs, x)

    def np_sign(self, x):
        return lift(lambda v: (v > 0) - (v < 0), x)

    def np_ravel(self, x):
        x = arr(x)
        return Arr((len(x.data),), x.data, x.dt)

    np_flatten = np_ravel

    def np_astype(self, x, dt=None):
        d = dtname(dt)
        if d is None:
            raise Unknown('type %r' % (dt,))
        return cast(x, d)

    def np_array(self, x, dt=None):
        x = arr(x)
        return x if dt is None else self.np_astype(x, dt)

    def np_view(self, x, dt=None):
        if dt is None:
            return x
        raise Unknown('view')

    def np_squeeze(self, x, axis=None):
        x = arr(x)
        if axis is not None:
            if x.shape[axis] != 1:
                raise ShapeError('squeeze')
            sh = list(x.shape)
            del sh[axis]
        else:
            sh = [d for d in x.shape if d != 1]
        return Arr(sh, x.data, x.dt) if sh else x.data[0]

    def np_atleast_1d(self, x):
        x = arr(x)
        return x if x.shape else Arr((1,), x.data, x.dt)

    def np_expand_dims(self, x, axis):
        x = arr(x)
        axis %= len(x.shape) + 1
        return Arr(x.shape[:axis] + (1,) + x.shape[axis:], x.data, x.dt)

    def op_ext(self, t, n):
        k = str(n).split('.')
        if k[0] in ('numpy', 'math') and k[-1] in CONSTS:
            return CONSTS[k[-1]]
        return str(n)

    # ---- real functions
    def np_sqrt(self, x):
        return lift(real.sqrt, x, dt='f8')

    def np_log(self, x):
        return lift(real.log, x, dt='f8')

    def np_log2(self, x):
        return lift(lambda v: fdiv(real.log(v), real.log(2)), x, dt='f8')

    def np_log1p(self, x):
        return lift(lambda v: real.log(fadd(1, v)), x, dt='f8')

    def np_exp(self, x):
        return lift(real.exp, x, dt='f8')

    def np_arccos(self, x):
        return lift(real.arccos, x, dt='f8')

    np_math_acos = np_arccos

    def np_arcsin(self, x):
        return lift(real.arcsin, x, dt='f8')

    def np_arctan2(self, y, x):
        return lift(real.arctan2, y, x, dt='f8')

    def np_lib_scimath_arccos(self, x):
        return lift(real.arccos_complex, x, dt='f8')

    np_emath_arccos = np_lib_scimath_arccos

    def np_lib_scimath_sqrt(self, x):
        return lift(lambda v: real.sqrt(v) if v >= 0 else 0, x, dt='f8')

    def np_real(self, x):
        return x

    def np_square(self, x):
        return lift(lambda v: fmul(v, v), x)

    def np_clip(self, x, lo=None, hi=None):
        if lo is not None:
            x = lift(lambda u, v: u if u != u else max(u, v), x, lo)
        if hi is not None:
            x = lift(lambda u, v: u if u != u else min(u, v), x, hi)
        return x

    def np_nan_to_num(self, x, nan=0):
        return lift(lambda v: nan if v != v else v, x)

    def np_where(self, c, x, y):
        return lift(lambda k, u, v: u if k else v, c, x, y, dt=result_dt(
            [w for w in (x, y) if isinstance(w, Arr)] or [arr([x, y])]))

    def np_minimum(self, x, y):
        return lift(lambda u, v: u if u != u or u < v else v, x, y)

    def np_maximum(self, x, y):
        return lift(lambda u, v: u if u != u or u > v else v, x, y)

    np_fmin, np_fmax = np_minimum, np_maximum

    def np_linalg_norm(self, x, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2):
            raise Unknown('norm')
        return self.np_sqrt(reduce_('sum', self.np_square(arr(x)), axis,
                                    keepdims))

    def np_power(self, x, k):
        if k == Fraction(1, 2):
            return self.np_sqrt(x)
        if isinstance(k, int) and k >= 0:
            return lift(lambda v: v ** k, x)
        raise Unknown('power')

    def np_transpose(self, x, *axes):
        x = arr(x)
        if not axes or axes[0] is None:
            return transpose(x)
        p = axes[0] if isinstance(axes[0], (tuple, list)) else axes
        p = [k % len(x.shape) for k in p]
        if sorted(p) != list(range(len(x.shape))):
            raise ShapeError('axes %s' % (p,))
        st = strides(x.shape)
        sh = tuple(x.shape[k] for k in p)
        return Arr(sh, [x.data[sum(i * st[k] for i, k in zip(ix, p))]
                        for ix in itertools.product(*[range(d)
                                                      for d in sh])], x.dt)

    def np_swapaxes(self, x, a, b):
        p = list(range(len(arr(x).shape)))
        p[a], p[b] = p[b], p[a]
        return self.np_transpose(x, p)

    def np_atleast_2d(self, x):
        x = arr(x)
        return x if len(x.shape) > 1 else Arr((1,) + (x.shape or (1,)),
                                              x.data, x.dt)

    def np_finfo(self, dt):
        d = dtname(dt)
        if d not in EPS:
            raise Unknown('finfo of %s' % (dt,))
        return {'eps': EPS[d], 'finfo': d}

    def np_broadcast_to(self, x, sh):
        x = arr(x)
        if isinstance(sh, int):
            sh = (sh,)
        if bshape([x.shape, tuple(sh)]) != tuple(sh):
            raise ShapeError('broadcast to %s' % (sh,))
        return Arr(sh, spread(x, tuple(sh)), x.dt)

    def np_einsum(self, spec, *xs):
        if not isinstance(spec, str) or '.' in spec or '->' not in spec:
            raise Unknown('einsum')
        ins, out = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        xs = [arr(x) for x in xs]
        size = {}
        for s, x in zip(ins, xs):
            if len(s) != len(x.shape):
                raise ShapeError('einsum')
            for c, d in zip(s, x.shape):
                if size.setdefault(c, d) != d:
                    raise ShapeError('einsum')
        rest = [c for c in sorted(size) if c not in out]
        data = []
        for ix in itertools.product(*[range(size[c]) for c in out]):
            tot = 0
            for jx in itertools.product(*[range(size[c]) for c in rest]):
                e = dict(zip(out, ix))
                e.update(zip(rest, jx))
                v = 1
                for s, x in zip(ins, xs):
                    v = fmul(v, x.data[sum(e[c] * k for c, k in
                                           zip(s, strides(x.shape)))])
                tot = fadd(tot, v)
            data.append(tot)
        if not out:
            return data[0]
        return Arr([size[c] for c in out], data, result_dt(xs))

    def op_mcall(self, t, x, n, *args):
        v = self(x)
        if isinstance(v, Arr) and n in METHODS:
            pos, kw = self.kw(args)
            return getattr(self, 'np_' + n)(v, *pos, **kw)
        raise Unknown('method %s' % n)


    def np_cumsum(self, x):
        return scan(arr(x), fadd)

    def np_cumprod(self, x):
        return scan(x, fmul)

    def np_dot(self, a, b):
        return dot(a, b)

    def np_inner(self, a, b):
        return dot(a, transpose(arr(b)))

    def np_matmul(self, a, b):
        return dot(a, b)

    def np_outer(self, a, b):
        a, b = arr(a), arr(b)
        return lift(fmul, reshape(a, (-1, 1)), reshape(b, (1, -1)))

    def np_diag(self, x):
        x = arr(x)
        if len(x.shape) == 2:
            n = min(x.shape)
            return Arr((n,), [x.data[i * x.shape[1] + i] for i in range(n)],
                       x.dt)
        raise Unknown('diag')

    np_diagonal = np_diag

    def np_searchsorted(self, v, x, side='left', sorter=None):
        v = fl(v)
        g = bisect.bisect_right if side == 'right' else bisect.bisect_left
        return lift(lambda y: g(v, y), x, dt='i8')

    def np_digitize(self, x, bins, right=False):
        b = fl(bins)
        g = bisect.bisect_left if right else bisect.bisect_right
        return lift(lambda y: g(b, y), x, dt='i8')

    def np_repeat(self, x, k, axis=None):
        x = arr(x)
        if axis is not None and axis != 0 or len(x.shape) > 1 and \
                axis is None:
            raise Unknown('repeat')
        ks = [k] * len(x) if isinstance(k, int) else fl(k)
        if len(ks) != len(x):
            raise ShapeError('repeat')
        idx = [i for i, m in enumerate(ks) for _ in range(m)]
        return getitem(x, Arr((len(idx),), idx, 'i8'))

    def np_bincount(self, x, weights=None, minlength=0):
        v = fl(x)
        w = [1] * len(v) if weights is None else fl(weights)
        n = max([minlength] + [i + 1 for i in v])
        r = [0] * n
        for i, y in zip(v, w):
            r[i] = fadd(r[i], y)
        return Arr((n,), r, 'i8' if weights is None else 'f8')

    def np_unique_index(self, x):
        v = fl(x)
        r = [v.index(y) for y in sorted(set(v))]
        return Arr((len(r),), r, 'i8')

    def np_unique_inverse(self, x):
        v = fl(x)
        s = sorted(set(v))
        return Arr((len(v),), [s.index(y) for y in v], 'i8')

    def np_unique_counts(self, x):
        v = fl(x)
        r = [v.count(y) for y in sorted(set(v))]
        return Arr((len(r),), r, 'i8')

    def np_arange(self, *xs, **kw):
        return Arr_range(*xs)

    def np_array_equal(self, a, b):
        return arr(a) == arr(b)

    def np_isinf(self, x):
        return lift(lambda v: v in (INF, -INF), x, dt='b1')

    def np_isnan(self, x):
        return lift(lambda v: v != v, x, dt='b1')

    def np_isfinite(self, x):
        return lift(lambda v: v == v and v not in (INF, -INF), x, dt='b1')

    def np_delete(self, x, i, axis=None):
        x = arr(x)
        drop = {j % len(x) for j in ([i] if isinstance(i, int) else fl(i))}
        if axis not in (None, 0) or axis is None and len(x.shape) > 1:
            raise Unknown('delete')
        keep = [j for j in range(len(x)) if j not in drop]
        return getitem(x, Arr((len(keep),), keep, 'i8'))

    def np_insert(self, x, i, v):
        x = list(fl(x))
        x.insert(i, v)
        return arr(x)

    def np_column_stack(self, xs):
        vs = [arr(v) for v in xs]
        return concat([reshape(v, (len(v), 1)) if len(v.shape) == 1 else v
                       for v in vs], 1)

    def np_concatenate(self, xs, axis=0):
        return concat(list(xs), axis)

    def np_hstack(self, xs):
        xs = [arr(x) for x in xs]
        return concat(xs, 0 if len(xs[0].shape) == 1 else 1)

    def np_vstack(self, xs):
        return concat([reshape(arr(x), (1, -1)) if len(arr(x).shape) == 1
                       else x for x in xs], 0)

    def np_dtype(self, x):
        return dtname(x) or x

    def np_copy(self, x):
        return x

    def np_isclose(self, a, b):
        return lift(lambda p, q: p == q or abs(p - q) <= Fraction(
            1, 10 ** 8) + Fraction(1, 10 ** 5) * abs(q), a, b, dt='b1')


def Arr_range(*xs):
    if any(isinstance(x, bool) or not isinstance(x, int) for x in xs):
        xs = [Fraction(x) for x in xs]
        if len(xs) == 1:
            xs = [Fraction(0), xs[0]]
        step = xs[2] if len(xs) > 2 else Fraction(1)
        r, v = [], xs[0]
        while v < xs[1] and len(r) < 4096:
            r.append(plain(v))
            v += step
        return Arr((len(r),), r, 'f8')
    r = list(range(*xs))
    return Arr((len(r),), r, 'i8')


METHODS = {'transpose', 'clip', 'swapaxes', 'dot', 'repeat', 'copy',
           'searchsorted', 'squeeze', 'ravel', 'flatten', 'astype'}
CONSTS = {'newaxis': None, 'pi': real.PI, 'e': Fraction(math.e), 'inf': INF, 'nan': float('nan'), 'Inf': INF,
          'NaN': float('nan'), 'infty': INF}
EPS = {'f8': Fraction(1, 2 ** 52), 'f4': Fraction(1, 2 ** 23),
       'f2': Fraction(1, 2 ** 10)}


class Num(str):
    """text of a number"""

    def __new__(cls, v):
        s = str.__new__(cls, '<%s>' % (v,))
        s.value = v
        return s


def text(v):
    """str of a value; of a number: a text that identifies it"""
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        return '%s' % (v,)
    if isinstance(v, float):
        return str(v)
    raise Unknown('text of %r' % (v,))
