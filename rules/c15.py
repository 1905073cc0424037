"""Rows written through a buffer are the rows in the dataset, and read back.

See iolib for the models. Writing: after any history of writes and the close,
the dataset holds exactly the rows written, in order, and a dataset of
announced size that was not filled exactly makes the close raise. Reading:
successive reads return the rows of the selected range in order, each the
requested amount or what is left, and then signal the end.
"""
import itertools
from rules.iolib import *

ASSUMES = ['h5py datasets behave as arrays on disk; slices are clipped to the '
           'dataset and shapes have to agree']
F = 'ABXpy/h5tools/np2h5.py'
G = 'ABXpy/h5tools/h52np.py'


class Writer(object):
    """value graph of: open, add_dataset, k writes, close"""

    def __init__(self, ck, k, fixed, overwrite=False):
        it = self.it = interp(ck.repo, classes=())
        st = State()
        self.k = k
        p = it.instantiate(NP, [const('F')], {}, st, None)
        p = it.call_method(p, '__enter__', [], {}, st, None)
        kw = {'n_rows': sym('N'), 'n_columns': ONE, 'item_type': sym('T'),
              'buf_size': sym('BS'), 'chunk_size': sym('CS'),
              'fixed_size': TRUE if fixed else FALSE}
        if overwrite:
            kw['overwrite'] = TRUE
        b = it.call_method(p, 'add_dataset', [const('g'), const('d')], kw, st,
                           None)
        for i in range(k):
            it.call_method(b, 'write', [sym('x%d' % i)], {}, st, None)
        self.closing = len(it.events)
        it.call_method(p, '__exit__', [NONE, NONE, NONE], {}, st, None)
        ck.saw(it)
        self.over = overwrite

    def model(self, buf, sizes, n):
        """rows of the dataset after the run; None: the run fails before the
        close, 'raise': the close raises"""
        d = Disk({'g/d': ['old'] * n} if self.over else {})
        env = {sym('N').id: n, sym('T').id: 'T',
               sym('BS').id: Fraction(buf, 1000),
               sym('CS').id: Fraction(1, 1000)}
        r = 0
        for i, k in enumerate(sizes):
            env[sym('x%d' % i).id] = list(range(r, r + k))
            r += k
        f = Finite(env, d.funcs(), self.it)
        try:
            replay(self.it, self.it.events[:self.closing], f, d.visit)
        except Fails as x:
            return None, x.args[0]
        except ShapeError as x:
            return str(x), None
        try:
            replay(self.it, self.it.events[self.closing:], f, d.visit)
        except Fails as x:
            return 'raise', x.args[0]
        except ShapeError as x:
            return str(x), None
        return d.sets.get('g/d'), None


def write_rule(ck):
    for fixed, over in ((True, False), (False, False), (True, True)):
        rule = 'write-%s' % ('overwrite' if over else
                             'fixed' if fixed else 'growing')
        n = 0
        bad = None
        try:
            w = Writer(ck, 3, fixed, over)
            for buf in (1, 2, 3):
                top = 2 * buf + 2
                for sizes in itertools.product(range(top), repeat=3):
                    if fixed and not sum(sizes):
                        continue
                    for slack in ((0,) if fixed else (0, -1, 2)):
                        total = sum(sizes)
                        if total + slack < 0:
                            continue
                        got, e = w.model(buf, sizes, total + slack)
                        n += 1
                        want = list(range(total))
                        if not isinstance(got, list):
                            bad = ('fails at line %s' % e.where[2] if e
                                   else got or 'no dataset', e)
                        elif got[:total] != want:
                            bad = ('the dataset holds %s' % got, None)
                        elif fixed and len(got) != total:
                            bad = ('the dataset has %d rows' % len(got), None)
                        if bad:
                            break
                    if bad:
                        break
                if bad:
                    break
        except Unknown as u:
            ck.undecided(rule, F, str(u)[:200])
            continue
        except Diverges:
            bad = ('the write does not terminate', None)
        if bad:
            ck.violated(rule, bad[1] or F + ':NP2H5buffer.write', 'writes of '
                        '%s rows with a buffer of %d rows: %s' % (
                            ', '.join(map(str, sizes)), buf, bad[0]))
        else:
            ck.holds(rule, F + ':NP2H5buffer.write',
                     'rows conserved in %d histories' % n)


def complete_rule(ck):
    """a dataset of announced size that is not filled exactly is an error"""
    n = 0
    bad = None
    try:
        w = Writer(ck, 2, True)
        for buf in (1, 2, 3):
            for sizes in itertools.product(range(2 * buf + 2), repeat=2):
                for slack in (-2, -1, 1, 2, 3):
                    total = sum(sizes)
                    if total + slack <= 0:
                        continue
                    got, e = w.model(buf, sizes, total + slack)
                    n += 1
                    if isinstance(got, list):
                        bad = bad or (buf, sizes, total + slack)
    except Unknown as u:
        ck.undecided('incomplete', F, str(u)[:200])
        return
    except Diverges:
        return
    if bad:
        ck.violated('incomplete', F + ':NP2H5.__exit__', 'writes of %s rows '
                    'to a dataset announced with %d rows end without an error'
                    % (', '.join(map(str, bad[1])), bad[2]))
    else:
        ck.holds('incomplete', F + ':NP2H5.__exit__',
                 'an error in %d histories' % n)


class Reader(object):
    """value graph of: open, add_(sub)dataset, k reads"""

    def __init__(self, ck, k, subset, amount):
        it = self.it = interp(ck.repo, classes=())
        st = State()
        p = it.instantiate(HN, [const('F')], {}, st, None)
        p = it.call_method(p, '__enter__', [], {}, st, None)
        kw = {'buf_size': sym('BS'), 'minimum_occupied_portion': sym('MP')}
        if subset:
            kw['indexes'] = it.new_list(st, [sym('lo'), sym('hi')])
        b = it.call_method(p, 'add_subdataset' if subset else 'add_dataset',
                           [const('g'), const('d')], kw, st, None)
        self.marks, self.reads = [], []
        for i in range(k):
            self.marks.append(len(it.events))
            r = it.call_method(b, 'read' if amount else '__next__',
                               [sym('n%d' % i)] if amount else [], {}, st,
                               None)
            self.reads.append(it.snap(r, st))
        self.marks.append(len(it.events))
        ck.saw(it)

    def model(self, buf, rows, lo, hi, portion, amounts=()):
        """[rows or 'stop'] of the successive reads"""
        d = Disk({'g/d': list(range(rows))})
        env = {sym('BS').id: Fraction(buf, 1000), sym('MP').id: portion,
               sym('lo').id: lo, sym('hi').id: hi}
        for i, k in enumerate(amounts):
            env[sym('n%d' % i).id] = k
        f = Finite(env, d.funcs(), self.it)
        out = []
        replay(self.it, self.it.events[:self.marks[0]], f, d.visit)
        for i, r in enumerate(self.reads):
            try:
                replay(self.it, self.it.events[
                    self.marks[i]:self.marks[i + 1]], f, d.visit)
            except Fails as x:
                out.append(('stop', x.args[0]))
                break
            except ShapeError as x:
                out.append(('shape', str(x)))
                break
            out.append((f(r), None))
        return out


def is_end(e):
    return e.kind == 'raise' and e.args and str(
        e.args[0].args[0]).split('.')[-1] == 'StopIteration'


def read_rule(ck):
    half = Fraction(1, 4)
    for subset in (False, True):
        for amount in (False, True):
            rule = 'read-%s%s' % ('subset' if subset else 'dataset',
                                  '-amount' if amount else '')
            n, bad = 0, None
            try:
                wide = ck.tier == 'thorough'
                r = Reader(ck, 4 if wide or not amount else 3, subset, amount)
                for c in cases(subset, amount, wide):
                    buf, rows, lo, hi, am = c
                    got = r.model(buf, rows, lo, hi, half, am)
                    n += 1
                    bad = judge(got, lo, hi, am)
                    if bad:
                        break
            except ShapeError as x:
                bad = str(x)
            except Unknown as u:
                ck.undecided(rule, G, str(u)[:200])
                continue
            except Fails as x:
                bad = 'opening fails at line %s' % x.args[0].where[2]
            except Diverges:
                bad = 'the read does not terminate'
            except (IndexError, TypeError) as x:
                ck.undecided(rule, G, 'model error %r' % x)
                continue
            if bad:
                ck.violated(rule, G + ':H52NPbuffer.read', 'rows %d to %d of '
                            '%d, a buffer of %d rows%s: %s' % (
                                lo, hi, rows, buf, ', reads of %s' %
                                (am,) if am else '', bad))
            else:
                ck.holds(rule, G + ':H52NPbuffer.read',
                         'rows in order in %d histories' % n)


def cases(subset, amount, wide=False):
    for buf in (1, 2, 4, 5) if wide else (1, 2, 3):
        for rows in range(1, 2 * buf + 3):
            if amount and not wide and rows > 2 * buf + 1:
                continue
            for lo, hi in (itertools.combinations(range(rows + 1), 2)
                           if subset else [(0, rows)]):
                if subset and lo > 2 and rows - hi > 1:
                    continue
                if not amount:
                    yield buf, rows, lo, hi, ()
                    continue
                if subset and (rows > buf + 2 or
                               not wide and (lo > 1 or rows - hi > 1)):
                    continue
                tops = (1, 2, buf, buf + 1, 2 * buf + 1)
                for am in itertools.product(sorted(set(tops)),
                                            repeat=3 if wide else 2):
                    yield buf, rows, lo, hi, am + (1,)


def judge(got, lo, hi, am):
    pos = lo
    for i, (v, e) in enumerate(got):
        if v == 'stop':
            if pos != hi:
                return 'the end is signalled at row %d (line %s)' % (
                    pos, e.where[2])
            return None if is_end(e) else 'fails at line %s' % e.where[2]
        if v == 'shape':
            return 'read %d: %s' % (i + 1, e)
        if pos == hi:
            return 'read %d returns %s after the end' % (i + 1, v)
        if am:
            want = list(range(pos, min(pos + am[i], hi)))
            if v != want:
                return 'read %d returns %s instead of %s' % (i + 1, v, want)
        elif not v or v != list(range(pos, pos + len(v))) or \
                pos + len(v) > hi:
            return 'read %d returns %s after row %d' % (i + 1, v, pos)
        pos += len(v)
    return None


RULES = [write_rule, complete_rule, read_rule]
