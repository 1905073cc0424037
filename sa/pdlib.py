"""A model of the pandas operations that build the item table.

Frames, columns and indexes are library values: terms `av` that name an entry
of the library's store. An operation of the analysed code on one of them is
given the meaning pandas documents for it, on files that are part of the model;
labels and rows are kept apart, so that a mask, a column or a merge attached to
the wrong rows shows. An operation outside the model makes the analysis
undecided.
"""
import posixpath
import re
from fractions import Fraction

from .terms import *
from .lib import Unknown
from .interp import Obj, LibError


class Missing(object):
    def __repr__(self):
        return 'nan'


NAN = Missing()
NA = {'', '#N/A', '#N/A N/A', '#NA', '-1.#IND', '-1.#QNAN', '-NaN', '-nan',
      '1.#IND', '1.#QNAN', '<NA>', 'N/A', 'NA', 'NULL', 'NaN', 'n/a', 'nan',
      'null'}
NOFILE = ['FileNotFoundError', 'IOError', 'OSError', 'EnvironmentError',
          'Exception', 'BaseException']
ASSERT = ['AssertionError', 'Exception', 'BaseException']
VALUE = ['ValueError', 'Exception', 'BaseException']
KEY = ['KeyError', 'LookupError', 'Exception', 'BaseException']
INDEX = ['IndexError', 'LookupError', 'Exception', 'BaseException']


class Ser(object):
    def __init__(self, vals, labels, name=None):
        self.vals, self.labels, self.name = list(vals), list(labels), name

    def map(self, f):
        return Ser([f(x) for x in self.vals], self.labels, self.name)


class Idx(object):
    def __init__(self, vals):
        self.vals = list(vals)


class DF(object):
    def __init__(self, cols, rows, labels=None):
        self.cols, self.rows = list(cols), [list(r) for r in rows]
        self.labels = list(range(len(rows))) if labels is None \
            else list(labels)

    def col(self, c):
        n = self.cols.count(c)
        if n == 0:
            raise LibError(KEY, why='no column %r' % (c,))
        if n > 1:
            raise Unknown('repeated column')
        k = self.cols.index(c)
        return Ser([r[k] for r in self.rows], self.labels, c)

    def take(self, pos):
        return DF(self.cols, [self.rows[p] for p in pos],
                  [self.labels[p] for p in pos])

    def select(self, names):
        ks = []
        for c in names:
            if self.cols.count(c) != 1:
                raise LibError(KEY, why='no column %r' % (c,))
            ks.append(self.cols.index(c))
        return DF([self.cols[k] for k in ks],
                  [[r[k] for k in ks] for r in self.rows], self.labels)

    def map(self, f):
        return DF(self.cols, [[f(x) for x in r] for r in self.rows],
                  self.labels)

    def copy(self):
        return DF(self.cols, self.rows, self.labels)


class Mat(object):
    """an array of truth values given by rows, without labels"""

    def __init__(self, rows):
        self.rows = rows


class Vec(object):
    """a one dimensional array, without labels"""

    def __init__(self, vals):
        self.vals = list(vals)


def boolean(v):
    return isinstance(v, bool)


class Lib(object):
    def __init__(self, files):
        self.files = files      # name -> text
        self.written = []       # (name, frame)
        self.store = []

    # ------------------------------------------------------------- values
    def term(self, it, v, st):
        if v is None:
            return NONE
        if isinstance(v, T):
            return v
        if isinstance(v, (str, int, bool, Fraction)):
            return const(v)
        if isinstance(v, Missing):
            return sym('nan')
        if isinstance(v, list):
            return it.new_list(st, [self.term(it, x, st) for x in v])
        if isinstance(v, tuple):
            return mk('tuple', *[self.term(it, x, st) for x in v])
        self.store.append(v)
        return mk('av', len(self.store) - 1)

    def py(self, it, t, st):
        t = it.simp(t, st)
        if t.op == 'av':
            return self.store[t.args[0]]
        if t.op == 'const':
            return t.args[0]
        if t is sym('nan'):
            return NAN
        if t.op == 'ext' and t.args[0].split('.')[-1] in (
                'str', 'int', 'float', 'bool', 'object'):
            return t
        if t.op in ('tuple', 'vec', 'list'):
            r = [self.py(it, x, st) for x in t.args]
            return tuple(r) if t.op == 'tuple' else r
        if t.op == 'range' and all(is_num(x) for x in t.args):
            return list(range(*[x.args[0] for x in t.args]))
        if t.op == 'slice':
            return slice(*[self.py(it, x, st) for x in t.args])
        o = it.obj(st, t)
        if o is not None and o.kind in ('list', 'set'):
            if all(s[0] == 'i' and s[1] is TRUE for s in o.data):
                return [self.py(it, s[2], st) for s in o.data]
        if o is not None and o.kind == 'dict':
            if all(not e[0] and e[1] is TRUE for e in o.data):
                return {self.py(it, e[2], st): self.py(it, e[3], st)
                        for e in o.data}
        if t.op == 'func' or t.op == 'bound':
            return t
        raise Unknown('value %s' % show(t, 3))

    def seq(self, v):
        """values of an iterable library value"""
        if isinstance(v, (Ser, Idx, Vec)):
            return list(v.vals)
        if isinstance(v, DF):
            return list(v.cols)
        if isinstance(v, Mat):
            return [Vec(r) for r in v.rows]
        raise Unknown('iteration over %s' % type(v).__name__)

    def unknown(self, why):
        raise Unknown(why)

    def subscript(self, it, v, i, st):
        """v[i] when a library value is involved"""
        if v.op == 'av':
            return self.getitem(it, v, i, st)
        if v.op == 'attr' and v.args[1] in ('loc', 'iloc') and \
                v.args[0].op == 'av':
            try:
                return self.term(it, self.locate(
                    self.store[v.args[0].args[0]], v.args[1],
                    self.py(it, i, st)), st)
            except LibError as e:
                e.st = e.st or st
                raise
        if i.op == 'av':
            raise Unknown('index')
        if v.op == 'const' and isinstance(v.args[0], str):
            try:
                return self.term(it, v.args[0][self.py(it, i, st)], st)
            except IndexError:
                raise LibError(INDEX, st, 'string index out of range')
        o = it.obj(st, v)
        if o is not None and o.kind == 'list' and is_num(i) and all(
                s[0] == 'i' and s[1] is TRUE for s in o.data) and \
                not -len(o.data) <= i.args[0] < len(o.data):
            raise LibError(INDEX, st, 'list index out of range')
        if v.op == 'tuple' and is_num(i) and \
                not -len(v.args) <= i.args[0] < len(v.args):
            raise LibError(INDEX, st, 'tuple index out of range')
        if o is not None and o.kind == 'dict' and i.op == 'const' and all(
                not e[0] and e[1] is TRUE and e[2].op == 'const'
                for e in o.data) and all(e[2] is not i for e in o.data):
            raise LibError(KEY, st, 'key %r' % (i.args[0],))
        return None

    def setitem(self, it, v, i, w, st):
        x, i, w = self.store[v.args[0]], self.py(it, i, st), self.py(
            it, w, st)
        if not isinstance(x, DF) or not isinstance(i, str):
            raise Unknown('assignment of an item')
        if isinstance(w, Ser):
            at = dict(zip(w.labels, w.vals))
            w = [at.get(l, NAN) for l in x.labels]
        elif isinstance(w, (Vec, list)):
            w = list(w.vals if isinstance(w, Vec) else w)
            if len(w) != len(x.rows):
                raise LibError(VALUE, st, 'length of the column')
        else:
            w = [w] * len(x.rows)
        if i in x.cols:
            k = x.cols.index(i)
            for r, y in zip(x.rows, w):
                r[k] = y
        else:
            x.cols.append(i)
            for r, y in zip(x.rows, w):
                r.append(y)

    def unary(self, it, op, v, st):
        if op != 'Invert':
            raise Unknown(op)
        return self.term(it, self.invert(self.store[v.args[0]]), st)

    def isav(self, it, t, st):
        return it.simp(t, st).op == 'av'

    # --------------------------------------------------------------- files
    def read(self, name, opts):
        if not isinstance(name, str):
            raise Unknown('file name')
        sep, dtype, keep, navals = ',', {}, True, set()
        for k, v in opts.items():
            if k in ('sep', 'delimiter'):
                sep = v
            elif k == 'delim_whitespace':
                if v:
                    sep = r'\s+'
            elif k == 'dtype':
                dtype = v
            elif k in ('keep_default_na', 'na_filter'):
                keep = keep and v
                if k == 'na_filter' and not v:
                    navals = set()
            elif k == 'na_values':
                navals = set([v] if isinstance(v, str) else v)
            elif k in ('engine', 'encoding', 'low_memory', 'memory_map'):
                pass
            elif k == 'header' and v in (0, 'infer'):
                pass
            elif k in ('index_col',) and v in (None, False):
                pass
            elif k == 'skip_blank_lines' and v:
                pass
            elif k == 'nrows' and (v is None or isinstance(v, int)):
                pass
            else:
                raise Unknown('read_csv(%s)' % k)
        if name not in self.files:
            raise LibError(NOFILE, why=name)
        if sep not in ('[ \t]+', r'\s+', r'[ \t]+', '[\t ]+', '[\\t ]+',
                       '\t', ' ', ' +', '\t+', r'\t', r'\t+'):
            raise Unknown('separator %r' % sep)
        lines = [x.strip() for x in self.files[name].split('\n')]
        lines = [re.split(sep, x) for x in lines if x]
        if opts.get('nrows') is not None:
            lines = lines[:opts['nrows'] + 1]
        if not lines:
            raise LibError(VALUE, why='empty file')
        head, rows = lines[0], lines[1:]
        seen, cols = {}, []
        for c in head:
            cols.append('%s.%d' % (c, seen[c]) if c in seen else c)
            seen[c] = seen.get(c, 0) + 1
        if any(len(r) > len(cols) for r in rows):
            raise Unknown('long line')
        rows = [r + [''] * (len(cols) - len(r)) for r in rows]
        na = (NA if keep else set()) | navals
        out = []
        for k, c in enumerate(cols):
            vs = [NAN if r[k] in na else r[k] for r in rows]
            ty = dtype.get(c) if isinstance(dtype, dict) else dtype
            out.append(self.typed(vs, ty))
        return DF(cols, [list(r) for r in zip(*out)] if rows else [])

    def typed(self, vs, ty):
        if isinstance(ty, T):
            ty = ty.args[0].split('.')[-1]
        if ty in ('str', 'object', 'O', 'string'):
            return vs
        if ty not in (None, 'float', 'int'):
            raise Unknown('dtype %r' % (ty,))
        if all(v is NAN or re.match(r'^[-+]?\d+$', v) for v in vs):
            return [v if v is NAN else int(v) for v in vs]
        if all(v is NAN or re.match(
                r'^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', v) for v in vs):
            return [v if v is NAN else Fraction(v) for v in vs]
        if ty is not None:
            raise LibError(VALUE, why='dtype')
        return vs

    # ------------------------------------------------------------ functions
    def external(self, it, name, args, kw, st, node):
        """result term of a library function, None if it is not modelled
        here"""
        base, fn = name.rpartition('.')[::2]
        fresh = lambda v: self.term(it, v, st)
        try:
            if base == 'pandas' or base.startswith('pandas.'):
                a = [self.py(it, x, st) for x in args]
                k = {x: self.py(it, v, st) for x, v in kw.items()}
                return fresh(self.pandas(it, fn, a, k, st, node))
            if base in ('numpy', 'np') and args and any(
                    self.isav(it, x, st) for x in args):
                a = [self.py(it, x, st) for x in args]
                k = {x: self.py(it, v, st) for x, v in kw.items()}
                return fresh(self.numpy(fn, a, k))
            if name in ('os.path.exists', 'os.path.isfile', 'os.path.lexists'):
                return const(self.py(it, args[0], st) in self.files)
            if name in ('os.path.splitext', 'os.path.basename',
                        'os.path.dirname', 'os.path.join',
                        'os.path.normpath', 'os.path.split'):
                return fresh(getattr(posixpath, name[8:])(
                    *[self.py(it, x, st) for x in args]))
            if name in ('any', 'all', 'len', 'list', 'tuple', 'sum', 'set',
                        'sorted', 'bool') and args and \
                    self.isav(it, args[0], st):
                v = self.py(it, args[0], st)
                if name == 'bool':
                    return fresh(self.truth(v))
                if name == 'len':
                    return fresh(len(v.rows) if isinstance(v, (DF, Mat))
                                 else len(v.vals))
                xs = self.seq(v)
                if name in ('any', 'all', 'sum'):
                    if not all(boolean(x) for x in xs):
                        if name == 'any' and isinstance(v, DF):
                            return const(any(xs))
                        raise Unknown(name)
                    return const({'any': any, 'all': all, 'sum': sum}[name](
                        xs))
                xs = [fresh(x) for x in xs]
                if name == 'tuple':
                    return mk('tuple', *xs)
                if name == 'set':
                    seen = set()
                    return it.new_set(st, [
                        x for x in xs
                        if x.id not in seen and not seen.add(x.id)])
                if name == 'sorted':
                    return fresh(sorted(self.seq(v)))
                return it.new_list(st, xs)
        except LibError as e:
            e.st = e.st or st
            raise
        return None

    def pandas(self, it, fn, a, k, st, node):
        if fn in ('read_csv', 'read_table'):
            name = a[0] if a else k.pop('filepath_or_buffer')
            k = dict(k)
            if len(a) > 1:
                k['sep'] = a[1]
            if fn == 'read_table' and 'sep' not in k:
                k['sep'] = '\t'
            return self.read(name, k)
        if fn in ('isnull', 'isna'):
            return a[0].map(lambda x: x is NAN)
        if fn in ('notnull', 'notna'):
            return a[0].map(lambda x: x is not NAN)
        if fn == 'merge':
            return self.merge(*a, **k)
        if fn == 'Index':
            v = a[0]
            return Idx(v if isinstance(v, list) else self.seq(v))
        if fn in ('DataFrame', 'Series', 'concat'):
            raise Unknown(fn)
        raise Unknown('pandas.%s' % fn)

    def merge(self, left, right, how='inner', on=None, left_on=None,
              right_on=None, validate=None, sort=False, copy=True,
              suffixes=('_x', '_y'), left_index=False, right_index=False,
              indicator=False):
        if not isinstance(left, DF) or not isinstance(right, DF) or \
                left_index or right_index or indicator:
            raise Unknown('merge')
        if left_on is not None or right_on is not None:
            if left_on != right_on:
                raise Unknown('merge')
            on = left_on
        if on is None:
            on = [c for c in left.cols if c in right.cols]
        on = list(on) if isinstance(on, (list, tuple)) else [on]
        lk = list(zip(*[left.col(c).vals for c in on]))
        rk = list(zip(*[right.col(c).vals for c in on]))
        lt_ = {type(x) for y in lk for x in y if x is not NAN}
        rt_ = {type(x) for y in rk for x in y if x is not NAN}
        if (str in lt_) != (str in rt_) and lt_ and rt_:
            raise LibError(VALUE, why='merge of text and numbers')
        v = {'m:1': (False, True), 'many_to_one': (False, True),
             '1:1': (True, True), 'one_to_one': (True, True),
             '1:m': (True, False), 'one_to_many': (True, False),
             None: (False, False), 'm:m': (False, False),
             'many_to_many': (False, False)}[validate]
        if v[0] and len(set(lk)) < len(lk) or v[1] and len(set(rk)) < len(rk):
            raise LibError(VALUE, why='merge: keys are not unique')
        other = [c for c in right.cols if c not in on]
        clash = {c for c in left.cols if c not in on and c in other}
        cols = [c + suffixes[0] if c in clash else c for c in left.cols] + \
            [c + suffixes[1] if c in clash else c for c in other]
        ro = [right.cols.index(c) for c in other]
        kc = {left.cols.index(c): j for j, c in enumerate(on)}
        rows = []

        def row(i, j):
            l = [NAN] * len(left.cols) if i is None else list(left.rows[i])
            if i is None:
                for c, q in kc.items():
                    l[c] = rk[j][q]
            return l + ([NAN] * len(ro) if j is None else
                        [right.rows[j][c] for c in ro])
        if how in ('left', 'inner', 'outer'):
            used = set()
            for i, key in enumerate(lk):
                js = [j for j, x in enumerate(rk) if x == key]
                used |= set(js)
                for j in js:
                    rows.append((key, row(i, j)))
                if not js and how != 'inner':
                    rows.append((key, row(i, None)))
            if how == 'outer':
                for j, x in enumerate(rk):
                    if j not in used:
                        rows.append((x, row(None, j)))
        elif how == 'right':
            for j, key in enumerate(rk):
                js = [i for i, x in enumerate(lk) if x == key]
                for i in js:
                    rows.append((key, row(i, j)))
                if not js:
                    rows.append((key, row(None, j)))
        else:
            raise Unknown('merge')
        if sort or how == 'outer':
            rows.sort(key=lambda r: [(x is NAN, str(x)) for x in r[0]])
        return DF(cols, [r for _, r in rows])

    def numpy(self, fn, a, k):
        if fn in ('any', 'all'):
            ax = a[1] if len(a) > 1 else k.get('axis')
            return self.quant(fn, a[0], ax)
        if fn == 'isnan':
            return a[0].map(lambda x: x is NAN)
        if fn in ('logical_not', 'invert', 'bitwise_not'):
            return self.invert(a[0])
        if fn in ('logical_or', 'bitwise_or', 'logical_and', 'bitwise_and'):
            return self.logic(fn, a[0], a[1])
        if fn in ('array', 'asarray') and len(a) == 1:
            return self.plain(a[0])
        if fn == 'unique' and len(a) == 1 and not k:
            return Vec(sorted(set(self.seq(a[0]))))
        if fn in ('where', 'flatnonzero', 'nonzero') and len(a) == 1:
            v = Vec([i for i, x in enumerate(self.seq(a[0])) if x])
            return v if fn == 'flatnonzero' else (v,)
        if fn in ('sum', 'count_nonzero') and len(a) == 1 and isinstance(
                a[0], (Ser, Vec)):
            return sum(1 if x is True else x for x in self.seq(a[0]))
        raise Unknown('numpy.%s' % fn)

    def plain(self, v):
        if isinstance(v, (Ser, Idx, Vec)):
            return Vec(v.vals)
        if isinstance(v, DF):
            return Mat(v.rows)
        raise Unknown('array')

    def quant(self, fn, v, ax=None):
        g = any if fn == 'any' else all
        if isinstance(v, (Ser, Vec)):
            if not all(boolean(x) for x in v.vals):
                raise Unknown(fn)
            return g(v.vals)
        if isinstance(v, (DF, Mat)):
            if not all(boolean(x) for r in v.rows for x in r):
                raise Unknown(fn)
            if ax in (1, -1, 'columns'):
                if isinstance(v, Mat):
                    return Vec([g(r) for r in v.rows])
                return Ser([g(r) for r in v.rows], v.labels)
            if ax in (0, 'index') or ax is None and isinstance(v, DF):
                n = len(v.cols) if isinstance(v, DF) else len(v.rows[0])
                c = [g(r[i] for r in v.rows) for i in range(n)]
                return Vec(c) if isinstance(v, Mat) else Ser(c, v.cols)
            if ax is None:
                return g(x for r in v.rows for x in r)
        raise Unknown(fn)

    def invert(self, v):
        if isinstance(v, (Ser, Vec)):
            if not all(boolean(x) for x in v.vals):
                raise Unknown('~')
            r = [not x for x in v.vals]
            return Vec(r) if isinstance(v, Vec) else Ser(r, v.labels)
        if isinstance(v, DF):
            return v.map(lambda x: not x)
        raise Unknown('~')

    def logic(self, fn, a, b):
        g = (lambda x, y: x or y) if 'or' in fn else (lambda x, y: x and y)
        if isinstance(a, Ser) and isinstance(b, Ser) and \
                a.labels == b.labels:
            return Ser([g(x, y) for x, y in zip(a.vals, b.vals)], a.labels)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return Vec([g(x, y) for x, y in zip(a.vals, b.vals)])
        raise Unknown(fn)

    def truth(self, v):
        if isinstance(v, (DF, Ser, Idx)) or len(v.vals) != 1:
            raise LibError(VALUE, why='truth value of a frame is ambiguous')
        return bool(v.vals[0])

    # ----------------------------------------------------------- attributes
    def getattr(self, it, v, name, st):
        x = self.store[v.args[0]]
        r = self.attr(x, name)
        return mk('attr', v, name) if r is NotImplemented else \
            self.term(it, r, st)

    def attr(self, x, name):
        if isinstance(x, DF):
            if name == 'columns':
                return Idx(x.cols)
            if name == 'index':
                return Idx(x.labels)
            if name == 'shape':
                return (len(x.rows), len(x.cols))
            if name == 'empty':
                return not (x.rows and x.cols)
            if name == 'size':
                return len(x.rows) * len(x.cols)
            if name == 'values':
                return Mat(x.rows)
        elif isinstance(x, (Ser, Idx, Vec)):
            if name == 'values':
                return Vec(x.vals)
            if name == 'index' and isinstance(x, Ser):
                return Idx(x.labels)
            if name == 'size':
                return len(x.vals)
            if name == 'shape':
                return (len(x.vals),)
            if name == 'empty':
                return not x.vals
            if name == 'is_unique':
                return len(set(x.vals)) == len(x.vals)
        return NotImplemented

    def setattr(self, it, v, name, w, st):
        x, w = self.store[v.args[0]], self.py(it, w, st)
        w = w if isinstance(w, (list, tuple)) else self.seq(w)
        if isinstance(x, DF) and name == 'columns':
            if len(w) != len(x.cols):
                raise LibError(VALUE, st, 'number of columns')
            x.cols = list(w)
        elif isinstance(x, DF) and name == 'index':
            if len(w) != len(x.rows):
                raise LibError(VALUE, st, 'number of rows')
            x.labels = list(w)
        else:
            raise Unknown('assignment of %s' % name)

    # -------------------------------------------------------------- indexing
    def maskpos(self, x, m):
        """positions of the rows a mask keeps"""
        if isinstance(m, Ser):
            if m.labels != x.labels:
                at = dict(zip(m.labels, m.vals))
                if len(at) != len(m.labels) or \
                        any(l not in at for l in x.labels):
                    raise LibError(INDEX, why='the mask is not aligned with '
                                   'the frame')
                m = [at[l] for l in x.labels]
            else:
                m = m.vals
        else:
            m = m.vals if isinstance(m, Vec) else m
            if len(m) != len(x.labels):
                raise LibError(VALUE, why='the mask has another length than '
                               'the frame')
        return [i for i, k in enumerate(m) if k]

    def ismask(self, i):
        v = i.vals if isinstance(i, (Ser, Vec)) else i
        return isinstance(v, list) and bool(v) and all(
            boolean(y) for y in v) or isinstance(i, Ser) and not v

    def getitem(self, it, v, i, st):
        x = self.store[v.args[0]]
        if v.op == 'av' and isinstance(x, tuple):
            raise Unknown('item')
        return self.term(it, self.item(x, self.py(it, i, st)), st)

    def item(self, x, i):
        if isinstance(x, DF):
            if isinstance(i, str):
                return x.col(i)
            if isinstance(i, slice):
                return x.take(range(len(x.rows))[i])
            if isinstance(i, DF):
                raise Unknown('frame mask')
            if self.ismask(i):
                return x.take(self.maskpos(x, i))
            if isinstance(i, (Idx, Ser, Vec)):
                i = i.vals
            if isinstance(i, list) and all(isinstance(c, str) for c in i):
                return x.select(i)
            raise Unknown('frame item')
        if isinstance(x, Ser):
            if self.ismask(i):
                p = self.maskpos(x, i)
                return Ser([x.vals[k] for k in p], [x.labels[k] for k in p],
                           x.name)
            if isinstance(i, slice):
                return Ser(x.vals[i], x.labels[i], x.name)
            if len(set(x.labels)) < len(x.labels):
                raise Unknown('repeated labels')
            ks = i if isinstance(i, list) else i.vals if isinstance(
                i, (Idx, Ser, Vec)) else [i]
            if any(boolean(k) or not isinstance(k, (str, int)) for k in ks):
                raise Unknown('column item')
            pos = []
            for k in ks:
                if k not in x.labels:
                    if isinstance(k, int) and any(isinstance(
                            l, str) for l in x.labels):
                        raise Unknown('position in a column')
                    raise LibError(KEY, why='no label %r' % (k,))
                pos.append(x.labels.index(k))
            if ks is not i and not isinstance(i, (Idx, Ser, Vec)):
                return x.vals[pos[0]]
            return Ser([x.vals[k] for k in pos], ks, x.name)
        if isinstance(i, (Vec, list)):
            i = i.vals if isinstance(i, Vec) else i
            if i and all(boolean(y) for y in i):
                i = [k for k, y in enumerate(i) if y]
            return type(x)([x.vals[k] for k in i])
        if isinstance(i, slice):
            return type(x)(x.vals[i])
        if isinstance(i, int):
            if not -len(x.vals) <= i < len(x.vals):
                raise LibError(INDEX, why='index')
            return x.vals[i]
        raise Unknown('item')

    def locate(self, x, how, i):
        """frame.loc[i], frame.iloc[i]"""
        if not isinstance(x, DF):
            raise Unknown(how)
        c = None
        if isinstance(i, tuple):
            if len(i) != 2:
                raise Unknown(how)
            i, c = i
        if isinstance(i, slice) and i == slice(None):
            pass
        elif self.ismask(i):
            x = x.take(self.maskpos(x, i))
        elif how == 'iloc' and isinstance(i, slice):
            x = x.take(range(len(x.rows))[i])
        elif how == 'iloc' and isinstance(i, (list, Vec)):
            x = x.take(i if isinstance(i, list) else i.vals)
        elif how == 'loc' and isinstance(i, (list, Vec, Idx)):
            ls = i if isinstance(i, list) else i.vals
            if any(l not in x.labels for l in ls):
                raise LibError(KEY, why='labels')
            if len(set(x.labels)) < len(x.labels):
                raise Unknown('labels')
            x = x.take([x.labels.index(l) for l in ls])
        else:
            raise Unknown(how)
        if c is None or isinstance(c, slice) and c == slice(None):
            return x
        if how == 'iloc':
            if isinstance(c, slice):
                return x.select(x.cols[c])
            if isinstance(c, list):
                return x.select([x.cols[j] for j in c])
            return x.col(x.cols[c])
        if isinstance(c, slice):
            b = 0 if c.start is None else x.cols.index(c.start)
            e = len(x.cols) if c.stop is None else x.cols.index(c.stop) + 1
            return x.select(x.cols[b:e])
        if isinstance(c, str):
            return x.col(c)
        return x.select(c if isinstance(c, list) else self.seq(c))

    # --------------------------------------------------------------- methods
    def receives(self, v):
        return v.op == 'av' or v.op == 'const' and isinstance(
            v.args[0], str)

    STR = {'startswith', 'endswith', 'lstrip', 'rstrip', 'strip', 'split',
           'join', 'replace', 'lower', 'upper', 'find', 'rfind', 'index',
           'count', 'partition', 'rpartition', 'format', 'rsplit',
           'removeprefix', 'removesuffix', 'title', 'isdigit'}

    def method(self, it, v, name, args, kw, st, node):
        if v.op == 'const':
            if name not in self.STR or kw and name != 'format':
                raise Unknown('str.%s' % name)
            a = [self.seq(x) if isinstance(x, (Ser, Idx, Vec)) else x
                 for x in (self.py(it, y, st) for y in args)]
            k = {n: self.py(it, y, st) for n, y in kw.items()}
            try:
                return self.term(it, getattr(v.args[0], name)(*a, **k), st)
            except (ValueError, TypeError, IndexError, KeyError) as e:
                raise LibError([type(e).__name__, 'Exception'], st, str(e))
        x = self.store[v.args[0]]
        try:
            a = [self.py(it, y, st) for y in args]
            k = {n: self.py(it, y, st) for n, y in kw.items()}
            return self.term(it, self.meth(it, x, name, a, k, st), st)
        except LibError as e:
            e.st = e.st or st
            raise

    def meth(self, it, x, name, a, k, st):
        if name in ('isnull', 'isna') and isinstance(x, (DF, Ser)):
            return x.map(lambda y: y is NAN)
        if name in ('notnull', 'notna') and isinstance(x, (DF, Ser)):
            return x.map(lambda y: y is not NAN)
        if name in ('any', 'all'):
            ax = a[0] if a else k.get('axis', 0 if isinstance(x, DF) else None)
            return self.quant(name, x, ax)
        if name == 'sum' and isinstance(x, (Ser, Vec)) and not a and not k:
            return sum(int(y) if boolean(y) else y for y in x.vals)
        if name in ('tolist', 'to_list') and not isinstance(x, DF):
            return list(x.vals)
        if name == 'copy':
            return x.copy() if isinstance(x, DF) else x
        if name == 'to_numpy':
            return self.plain(x)
        if name == 'get_loc' and isinstance(x, Idx):
            if a[0] not in x.vals:
                raise LibError(KEY, why=str(a[0]))
            return x.vals.index(a[0])
        if name == 'duplicated' and isinstance(x, (Ser, Idx)):
            keep = a[0] if a else k.get('keep', 'first')
            vs = x.vals
            r = []
            for i, y in enumerate(vs):
                before, after = y in vs[:i], y in vs[i + 1:]
                r.append(before if keep == 'first' else after
                         if keep == 'last' else before or after)
            return Ser(r, x.labels) if isinstance(x, Ser) else Vec(r)
        if name == 'nunique' and isinstance(x, Ser):
            return len({y for y in x.vals if y is not NAN})
        if name == 'unique' and isinstance(x, (Ser, Idx)):
            r = []
            for y in x.vals:
                if y not in r:
                    r.append(y)
            return Vec(r)
        if name == 'astype' and isinstance(x, Ser):
            ty = a[0]
            ty = ty.args[0].split('.')[-1] if isinstance(ty, T) else ty
            if ty == 'str':
                return x.map(lambda y: 'nan' if y is NAN else str(y))
            if ty == 'bool' and all(boolean(y) for y in x.vals):
                return x
            raise Unknown('astype')
        if not isinstance(x, DF):
            raise Unknown('method %s' % name)
        if name == 'dropna':
            return self.dropna(x, *a, **k)
        if name == 'merge':
            return self.merge(x, *a, **k)
        if name == 'to_csv':
            self.written.append((a[0] if a else k.get('path_or_buf'),
                                 x.copy()))
            return None
        if name == 'reset_index':
            if not (k.get('drop') or a[1:2] == [True]):
                raise Unknown(name)
            r = DF(x.cols, x.rows)
            return self.put(x, r, k)
        if name == 'drop_duplicates':
            sub = a[0] if a else k.get('subset')
            keep = k.get('keep', 'first')
            sub = x.cols if sub is None else [sub] if isinstance(
                sub, str) else list(sub)
            if keep not in ('first', 'last', False):
                raise Unknown(name)
            keys = list(zip(*[x.col(c).vals for c in sub]))
            pos = [i for i, y in enumerate(keys) if not (
                keep != 'last' and y in keys[:i] or
                keep != 'first' and y in keys[i + 1:])]
            r = x.take(pos)
            if k.get('ignore_index'):
                r = DF(r.cols, r.rows)
            return self.put(x, r, k)
        if name == 'rename':
            m = k.get('columns')
            if not isinstance(m, dict):
                raise Unknown(name)
            return self.put(x, DF([m.get(c, c) for c in x.cols], x.rows,
                                  x.labels), k)
        if name == 'head':
            return x.take(range(len(x.rows))[:a[0] if a else 5])
        if name == 'drop':
            cols = k.get('columns')
            if cols is None:
                ls = a[0] if a else k.get('labels', k.get('index'))
                ls = ls if isinstance(ls, list) else self.seq(ls)
                if k.get('axis', a[1] if len(a) > 1 else 0) in (1, 'columns'):
                    cols = ls
                else:
                    return self.put(x, x.take([
                        i for i, l in enumerate(x.labels) if l not in ls]), k)
            cols = [cols] if isinstance(cols, str) else list(cols)
            return self.put(x, x.select([c for c in x.cols
                                         if c not in cols]), k)
        if name in ('sort_index', 'sort_values'):
            key = x.labels if name == 'sort_index' else x.col(
                a[0] if a else k['by']).vals
            return self.put(x, x.take(sorted(
                range(len(key)), key=lambda i: (key[i] is NAN,
                                                str(key[i])))), k)
        if name == 'insert':
            if len(a) != 3:
                raise Unknown(name)
            vals = a[2].vals if isinstance(a[2], (Ser, Vec)) else list(a[2])
            x.cols.insert(a[0], a[1])
            for r, y in zip(x.rows, vals):
                r.insert(a[0], y)
            return None
        raise Unknown('method %s' % name)

    def put(self, x, r, k):
        if k.get('inplace'):
            x.cols, x.rows, x.labels = r.cols, r.rows, r.labels
            return None
        return r

    def dropna(self, x, axis=0, how='any', subset=None, thresh=None,
               inplace=False):
        if thresh is not None:
            raise Unknown('dropna')
        if axis in (1, 'columns'):
            g = any if how == 'any' else all
            return self.put(x, x.select([
                c for c in x.cols if not g(y is NAN for y in x.col(c).vals)]),
                {'inplace': inplace})
        cs = range(len(x.cols)) if subset is None else [
            x.cols.index(c) for c in (
                [subset] if isinstance(subset, str) else subset if isinstance(
                    subset, list) else self.seq(subset))]
        g = any if how == 'any' else all
        return self.put(x, x.take([
            i for i, r in enumerate(x.rows)
            if not g(r[c] is NAN for c in cs)]), {'inplace': inplace})

    # ------------------------------------------------------------- operators
    def compare(self, it, op, a, b, st):
        a, b = self.py(it, a, st), self.py(it, b, st)
        if op == 'Is' or op == 'IsNot':
            return const((a is b) == (op == 'Is'))
        if op in ('In', 'NotIn'):
            c = b.labels if isinstance(b, Ser) else self.seq(b)
            return const((a in c) == (op == 'In'))
        if op not in ('Eq', 'NotEq'):
            raise Unknown(op)
        if isinstance(b, (Ser, Idx, Vec)):
            a, b = b, a
        av = a.vals if isinstance(a, (Ser, Idx, Vec)) else None
        if av is None:
            raise Unknown(op)
        bv = b.vals if isinstance(b, (Ser, Idx, Vec)) else list(b) \
            if isinstance(b, (list, tuple)) else [b] * len(av)
        if len(av) != len(bv):
            raise LibError(VALUE, st, 'lengths must match')
        r = [(x == y and x is not NAN) == (op == 'Eq')
             for x, y in zip(av, bv)]
        return self.term(it, Ser(r, a.labels) if isinstance(a, Ser)
                         else Vec(r), st)

    def binop(self, it, op, a, b, st):
        a, b = self.py(it, a, st), self.py(it, b, st)
        if op in ('BitAnd', 'BitOr'):
            return self.term(it, self.logic(
                'or' if op == 'BitOr' else 'and', a, b), st)
        if op == 'Add' and isinstance(a, Idx) and isinstance(b, str):
            return self.term(it, Idx([x + b for x in a.vals]), st)
        raise Unknown('operator %s' % op)
