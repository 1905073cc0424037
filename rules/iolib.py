"""Buffered hdf5 reading and writing, evaluated in small models.

A dataset is a list of row identities. The value graph of the writer (open,
add_dataset, a history of writes, close) and of the reader (open, add_dataset,
a history of reads) is evaluated for every history with small buffers: each
state of the buffer (free space, position in the dataset) and each size of the
next piece relative to it occurs, which is all the transfer functions depend
on.
"""
from rules.common import *
from sa.finite import *
from sa.drive import *
from sa.tables import HOOKS

NP = 'ABXpy.h5tools.np2h5:NP2H5'
HN = 'ABXpy.h5tools.h52np:H52NP'


class Fails(Exception):
    """the modelled program raises"""


class Disk(object):
    """datasets of the modelled files: path -> list of rows"""

    def __init__(self, sets=None):
        self.sets = dict(sets or {})

    def funcs(self):
        fs = dict(HOOKS)

        def h5(f, t):
            p = self.path(f, t)
            if p in self.sets:
                return self.sets[p]
            raise Unknown('dataset %s' % p)

        def attr(f, t):
            x, n = t.args
            if n == 'itemsize':
                return 1
            if n == 'shape':
                v = f(x)
                return (len(v), 1)
            if n == 'dtype':
                return 'T'
            if n == 'size':
                return len(f(x))
            raise Unknown('attribute %s' % n)

        def contains(f, t):
            k = f(t.args[0])
            if isinstance(k, str):
                return any(p == k.strip('/') or
                           p.startswith(k.strip('/') + '/')
                           for p in self.sets)
            raise Unknown('membership')

        def exc(f, t):
            # the group lookups of a new file fail
            return not self.sets

        def npf(f, t):
            n, a = t.args[0], t.args[1:]
            if n == 'round' and len(a) == 1:
                return round(f(a[0]))
            if n == 'dtype':
                return f(a[0])
            if n == 'copy':
                return list(f(a[0]))
            if n == 'concatenate':
                r = []
                for x in f(a[0]):
                    r += x
                return r
            return HOOKS['np'](f, t)

        def zeros(f, t):
            s = t.args[0]
            n = f(s.args[0] if s.op in ('tuple', 'list', 'vec') else s)
            if isinstance(n, Fraction) and n.denominator == 1:
                n = int(n)
            if not isinstance(n, int):
                raise Unknown('shape')
            return [None] * n
        def dim(f, t):
            i = f(t.args[1])
            if i == 0:
                return len(f(t.args[0]))
            if i in (1, -1):
                return 1
            raise Unknown('dim')

        def dtype(f, t):
            return 'T'

        fs.update(h5=h5, dim=dim, dtype=dtype, attr=attr, isin=contains, contains=contains, exc=exc,
                  np=npf, zeros=zeros, empty=zeros)
        fs['in'] = contains
        return fs

    def path(self, f, t):
        p = f(t.args[1])
        if not isinstance(p, str):
            raise Unknown('path')
        return '/'.join(x for x in p.split('/') if x)

    def h5path(self, f, t):
        """path of a file, group or dataset term; None if it is none"""
        if t.op == 'h5':
            return self.path(f, t)
        if t.op == 'h5file':
            return ''
        if t.op == 'mcall' and t.args[1] in ('create_group',
                                             'require_group'):
            b = self.h5path(f, t.args[0])
            return None if b is None else (b + '/' + f(t.args[2])).strip('/')
        return None

    def visit(self, e, f):
        """effect of one event"""
        if any(k[0] == 'handler' for k in e.ctx):
            return
        if not f(e.guard()):
            return
        if e.kind == 'raise':
            raise Fails(e)
        if e.kind == 'assert':
            if not f(e.args[0]):
                raise Fails(e)
            return
        if e.kind == 'method' and e.name in ('create_dataset',
                                             'require_dataset'):
            b = self.recv(f, e.recv)
            if b is None:
                return
            p = (b + '/' + f(e.args[0])).strip('/')
            s = e.args[1] if len(e.args) > 1 else e.kwargs.get('shape')
            if s is None or s.op != 'tuple':
                raise Unknown('shape')
            n = f(s.args[0])
            if p in self.sets:
                raise Fails(e)
            self.sets[p] = [0] * n
            return
        if e.kind in ('mutate', 'method') and e.name == 'resize':
            p = self.h5path(f, e.recv)
            if p is None:
                return
            s = e.args[0]
            n = f(s.args[0] if s.op == 'tuple' else s)
            v = self.sets[p]
            self.sets[p] = v[:n] + [0] * (n - len(v))
            return
        if e.kind == 'store' and e.name == 'setitem':
            p = self.h5path(f, e.recv) if e.recv.op in ('h5', 'h5file') \
                else None
            if not p or p not in self.sets:
                return
            self.put(e, f, p)

    def recv(self, f, t):
        p = self.h5path(f, t)
        if p is None and t.op == 'ite':
            return self.recv(f, t.args[1 if f(t.args[0]) else 2])
        if p is None and t.op == 'created':
            return self.recv(f, t.args[0])
        return p

    def put(self, e, f, p):
        i = f(e.args[0])
        w = f(e.args[1])
        if isinstance(i, tuple) and i and i[0] != 'slice':
            if len(i) != 2 or i[1] not in (0, ('slice', None, None, None)):
                raise Unknown('index')
            i = i[0]
        if i is Ellipsis:
            i = ('slice', None, None, None)
        if not (isinstance(i, tuple) and i[0] == 'slice' and
                i[3] in (None, 1)):
            raise Unknown('index %r' % (i,))
        v = self.sets[p]
        a = i[1] or 0
        b = len(v) if i[2] is None else i[2]
        # hdf5 selections are clipped like numpy slices and the shapes have
        # to agree
        a, b = min(a, len(v)), min(b, len(v))
        w = w if isinstance(w, list) else [w] * max(b - a, 0)
        if len(w) == 1:
            w = w * max(b - a, 0)
        if len(w) != max(b - a, 0):
            raise Fails(e)
        self.sets[p] = v[:a] + w + v[b:]
