"""Sorting a dataset that does not fit in memory.

The value graph of the external merge sort is evaluated in small models of
files: key datasets over all patterns of equal and different keys, every
number of rows per chunk, one or two further datasets sorted along, input
buffers that are refilled early or late. The result has to be a permutation of
the rows in which the keys are in order and every other dataset is permuted
like the keys. The buffers are abstracted by what they promise (C15); the two
questions only sorting asks them (last row held, number of rows not above a
value) are evaluated on their own source for every small sorted buffer.
"""
import itertools

from rules.iolib import *
from rules import iolib

ASSUMES = ['reading and writing through buffers is faithful (C15)',
           'keys are compared as numbers']

HH = 'ABXpy.h5tools.h5_handler:H5Handler'
SITE = 'ABXpy/h5tools/h5_handler.py:H5Handler.sort'
PURE = {'dataset_empty', 'buffer_empty', 'isempty', 'current_tail',
        'nb_lower_than'}


class Buf(object):
    """input buffer over rows, of a given length"""

    def __init__(self, rows, n, eager):
        self.disk, self.held, self.n = list(rows), [], n
        self.eager = eager
        self.refill()

    def refill(self):
        low = len(self.held) < self.n if self.eager else \
            len(self.held) * 4 < self.n
        if low and self.disk:
            k = self.n - len(self.held)
            self.held += self.disk[:k]
            self.disk = self.disk[k:]

    def read(self, amount=None):
        if amount is None:
            amount = len(self.held)
        elif amount <= 0:
            raise Fails('read of nothing')
        if not self.held and not self.disk:
            raise Fails('read at the end')
        out = []
        while len(out) < amount and (self.held or self.disk):
            k = amount - len(out)
            out += self.held[:k]
            self.held = self.held[k:]
            self.refill()
        return out

    def ask(self, name, args):
        if name == 'dataset_empty':
            return not self.disk
        if name == 'buffer_empty':
            return not self.held
        if name == 'isempty':
            return not self.held and not self.disk
        if name == 'current_tail':
            if not self.held:
                raise Fails('tail of an empty buffer')
            return self.held[-1]
        if name == 'nb_lower_than':
            return sum(1 for x in self.held if x <= args[0])
        raise Unknown(name)


class Model(Finite):
    def sub(self, env):
        e = dict(self.env)
        e.update(env)
        m = Model(e, self.funcs, self.it)
        m.files = self.files
        return m

    def turns(self, loop):
        if loop.kind != 'while':
            for f in Finite.turns(self, loop):
                yield f
            return
        phis = {k: i for k, i in self.it.phi_info.items() if i[0] is loop}
        st = defined(self, {k: i[1] for k, i in phis.items()})
        for n in range(200):
            f = self.sub(st)
            self.files.results.clear()
            self.files.snap = True
            go = f(loop.cond)
            self.files.snap = False
            if not go:
                break
            f.memo.clear()
            yield f.sub({mk('wv', loop.id).id: n})
            f.memo.clear()
            st = defined(f, {k: i[2] for k, i in phis.items()})
            if f.breaks(loop):
                break
        else:
            raise Diverges(loop)
        self.memo.clear()
        self.env.update(st)


class Files(Disk):
    def __init__(self, sets, eager):
        Disk.__init__(self, sets)
        self.eager, self.snap = eager, False
        self.results, self.bufs, self.out = {}, {}, {}

    def prefix(self, t):
        return 'tmp:' if any(x.op in ('tmpdir', 'tmpfile')
                             for x in subterms(t)) else ''

    def path(self, f, t):
        p = Disk.path(self, f, t)
        return self.prefix(t.args[0]) + p

    def h5path(self, f, t):
        if t.op == 'h5file':
            return self.prefix(t)
        return Disk.h5path(self, f, t)

    def funcs(self):
        fs = Disk.funcs(self)
        base = fs['in']

        def contains(f, t):
            k = f(t.args[0])
            if isinstance(k, str) and len(t.args) > 1 and isinstance(
                    t.args[1], T):
                k = self.prefix(t.args[1]) + '/'.join(
                    x for x in k.split('/') if x)
                return any(p == k or p.startswith(k + '/')
                           for p in self.sets)
            return base(f, t)

        def mcall(f, t):
            r = self.recv_of(f, t.args[0])
            if r is None:
                return NotImplemented
            k = (t.id, r)
            if k in self.results:
                return self.results[k]
            if t.args[1] in PURE and r in self.bufs:
                v = self.bufs[r].ask(t.args[1], [f(x) for x in t.args[2:]])
                if self.snap:
                    self.results[k] = v
                return v
            raise Unknown('call of %s' % t.args[1])

        def argsort(f, t):
            v = f(t.args[0])
            # equal keys in no particular order
            return sorted(range(len(v)), key=lambda i: (v[i], -i))

        fs.update(contains=contains, isin=contains, mcall=mcall,
                  argsort=argsort)
        fs['in'] = contains
        return fs

    def recv_of(self, f, t):
        """key of a buffer"""
        if t.op == 'mcall' and t.args[1] == 'add_dataset':
            return (t.args[2],) + tuple(f(x) for x in t.args[3:])
        return None

    def visit(self, e, f):
        if any(k[0] == 'handler' for k in e.ctx):
            return
        if e.kind == 'method' and e.name == 'add_dataset' and \
                e.recv.op == 'inst':
            if not f(e.guard()):
                return
            b = e.bound
            if b is None:
                raise Unknown('add_dataset')
            p = '/'.join(x for x in (f(b['group']) + '/' +
                                     f(b['dataset'])).split('/') if x)
            k = (e.result.args[2],) + tuple(f(x) for x in e.result.args[3:])
            if 'H52NP' in e.recv.args[0]:
                p = 'tmp:' + p
                if p not in self.sets:
                    raise Fails('no dataset %s' % p)
                n = round(Fraction(f(b['buf_size'])) * 1000)
                if n <= 0:
                    raise Unknown('buffer')
                self.bufs[k] = Buf(self.sets[p], n, self.eager)
            else:
                self.out[k] = (p, f(b['n_rows']), [])
            return
        if e.kind == 'method' and e.recv is not None and \
                e.recv.op == 'mcall':
            k = self.recv_of(f, e.recv)
            if k is not None:
                if not f(e.guard()):
                    return
                f.memo.clear()
                args = [f(x) for x in e.args]
                if k in self.out and e.name == 'write':
                    self.out[k][2].extend(args[0])
                elif k in self.bufs and e.name in ('read', '__next__',
                                                   'next'):
                    self.results[e.result.id, k] = self.bufs[k].read(*args)
                elif k in self.bufs and e.name in PURE:
                    self.results[e.result.id, k] = self.bufs[k].ask(e.name,
                                                                    args)
                else:
                    raise Unknown('buffer call %s' % e.name)
                f.memo.clear()
                return
        Disk.visit(self, e, f)


class Sort(object):
    def __init__(self, ck, extra):
        it = interp(ck.repo, classes={'H52NP', 'NP2H5'})
        it.indexed = True
        st = State()
        self.sets = ['KG/K'] + ['G%d/D%d' % (i, i) for i in range(extra)]
        args = [const('F'), const('KG'), const('K')]
        if extra:
            args += [it.new_list(st, [const('G%d' % i)
                                      for i in range(extra)]),
                     it.new_list(st, [const('D%d' % i)
                                      for i in range(extra)])]
        h = it.instantiate(HH, args, {}, st, None)
        n = len(it.events)
        it.call_method(h, 'sort', [], {'buffer_size': sym('bs'),
                                       'o_buffer_size': sym('obs'),
                                       'tmpdir': sym('tmp')}, st, None)
        self.it, self.n0 = it, n
        ck.saw(it)

    def run(self, keys, rows, eager):
        d = Files({}, eager)
        for i, p in enumerate(self.sets):
            d.sets[p] = list(keys) if i == 0 else \
                [('row', k) for k in range(len(keys))]
        w = len(self.sets)
        f = Model({sym('bs').id: Fraction(rows * w, 1000),
                   sym('obs').id: Fraction(2 * w, 1000)}, d.funcs(), self.it)
        f.files = d
        replay(self.it, self.it.events[self.n0:], f, d.visit)
        return {p: (n, r) for p, n, r in d.out.values()}


def cases(thorough):
    seen = []
    for n in range(1, 6 if thorough else 5):
        for keys in itertools.product(range(3), repeat=n):
            seen.append(keys)
    import random
    r = random.Random(5)
    for n in (6, 7, 9, 11, 13):
        for k in range(60 if thorough else 8):
            seen.append(tuple(r.randrange(2 + k % 7) for _ in range(n)))
    for keys in seen:
        n = len(keys)
        for rows in range(1, n + 2):
            chunks = -(-n // rows)
            if round(Fraction(rows, chunks)) > 0:
                yield keys, rows
    for keys, rows in (((3, 1, 2, 0, 2, 1, 3, 0, 1, 0), 4),
                       ((5, 4, 3, 2, 1, 0) * 2, 5),
                       (tuple(i * 29 % 67 for i in range(66)), 6)):
        yield keys, rows


def judge(keys, got, sets):
    for p in sets:
        if p not in got:
            return '%s is not written' % p
        n, r = got[p]
        if n != len(keys):
            return '%s is announced with %s rows' % (p, n)
        if len(r) != len(keys):
            return '%d rows of %d are written to %s' % (len(r), len(keys), p)
    out = got[sets[0]][1]
    if out != sorted(keys):
        return 'the keys come out as %s' % (out,)
    for p in sets[1:]:
        r = [x[1] for x in got[p][1]]
        if sorted(r) != list(range(len(keys))):
            return 'rows of %s are lost or repeated' % p
        if [keys[i] for i in r] != out:
            return 'rows of %s do not follow their keys' % p
    return None


def sort_rule(ck):
    wide = ck.tier == 'thorough'
    for extra in (0, 1, 2):
        rule = 'sort-%d' % extra
        n, bad, c = 0, None, None
        try:
            s = Sort(ck, extra)
            for i, c in enumerate(cases(wide)):
                if extra and not wide and i % (3 * extra) and len(c[0]) < 50:
                    continue
                eager = bool(i % 2)
                got = s.run(c[0], c[1], eager)
                n += 1
                bad = judge(c[0], got, s.sets)
                if bad:
                    break
        except Fails as x:
            w = x.args[0]
            bad = 'fails: %s' % (w if isinstance(w, str) else
                                 '%s at line %s' % (w.kind, w.where[2]))
        except Diverges:
            bad = 'does not terminate'
        except ZeroDivisionError:
            bad = 'fails: division by zero'
        except ShapeError as x:
            bad = str(x)
        except Unknown as x:
            ck.undecided(rule, SITE, str(x)[:200])
            continue
        except (IndexError, TypeError, KeyError, AttributeError) as x:
            ck.undecided(rule, SITE, 'model error %r' % x)
            continue
        if bad:
            ck.violated(rule, SITE, 'keys %s in chunks of %d: %s' % (
                c[0], c[1], bad))
        else:
            ck.holds(rule, SITE, '%d files' % n)


class Asked(object):
    """a buffer after some reads, asked a question, then read whole"""

    def __init__(self, ck, question, reads):
        it = interp(ck.repo, classes=set())
        st = State()
        p = it.instantiate(HN, [const('F')], {}, st, None)
        p = it.call_method(p, '__enter__', [], {}, st, None)
        b = it.call_method(p, 'add_dataset', [const('g'), const('d')],
                           {'buf_size': sym('BS')}, st, None)
        for i in range(reads):
            it.call_method(b, 'read', [sym('n%d' % i)], {}, st, None)
        self.answer = it.snap(it.call_method(
            b, question, [sym('x')] if question == 'nb_lower_than' else [],
            {}, st, None), st)
        self.mark = len(it.events)
        self.held = it.snap(it.call_method(b, 'read', [], {}, st, None), st)
        self.it, self.reads = it, reads
        ck.saw(it)

    def model(self, keys, buf, amounts, x):
        """(answer, rows held)"""
        d = Disk({'g/d': list(keys)})
        fs = d.funcs()
        fs['xcall'] = bisects
        zeros = fs['zeros']
        fs['zeros'] = lambda f, t: [0] * len(zeros(f, t))
        env = {sym('BS').id: Fraction(buf, 1000), sym('x').id: x}
        for i, k in enumerate(amounts):
            env[sym('n%d' % i).id] = k
        f = Finite(env, fs, self.it)
        replay(self.it, self.it.events[:self.mark], f, d.visit)
        a = f(self.answer)
        try:
            replay(self.it, self.it.events[self.mark:], f, d.visit)
            h = f(self.held)
        except Fails:
            h = []
        return a, h


def bisects(f, t):
    n = str(t.args[0])
    if n.startswith('bisect.bisect'):
        v, x = f(t.args[1]), f(t.args[2])
        if not isinstance(v, list):
            raise Unknown('bisect')
        if n.endswith('left'):
            return sum(1 for y in v if y < x)
        return sum(1 for y in v if y <= x)
    raise Unknown('call of %s' % n)


def questions(ck):
    g = 'ABXpy/h5tools/h52np.py:H52NPbuffer.'
    for q in ('nb_lower_than', 'current_tail', 'buffer_empty',
              'dataset_empty', 'isempty'):
        rule = 'ask-' + q
        n, bad, c = 0, None, None
        try:
            for reads in (0, 1, 2):
                a = Asked(ck, q, reads)
                for c in asked(reads, q, ck.tier == 'thorough'):
                    keys, buf, amounts, x = c
                    ans, held = a.model(*c)
                    left = list(keys)[sum(amounts):]
                    n += 1
                    if list(held) != left[:len(held)] or \
                            not held and left:
                        raise Unknown('reads')
                    if q == 'nb_lower_than':
                        want = sum(1 for k in held if k <= x)
                    elif q == 'current_tail':
                        if not held:
                            continue
                        want = held[-1]
                    elif q == 'buffer_empty':
                        want = not held
                    elif q == 'dataset_empty':
                        want = len(held) == len(left)
                    else:
                        want = not left
                    if ans != want:
                        bad = 'answers %s instead of %s' % (ans, want)
                        break
                if bad:
                    break
        except ShapeError as x:
            bad = str(x)
        except Unknown as x:
            ck.undecided(rule, g + q, str(x)[:200])
            continue
        except Fails as x:
            bad = 'fails at line %s' % (x.args[0].where[2])
        except Diverges:
            bad = 'does not terminate'
        except (IndexError, TypeError, KeyError, AttributeError) as x:
            ck.undecided(rule, g + q, 'model error %r' % x)
            continue
        if bad:
            ck.violated(rule, g + q, 'rows %s, buffer of %d, after reads of '
                        '%s, value %s: %s' % (c + (bad,)))
        else:
            ck.holds(rule, g + q, '%d buffers' % n)


def asked(reads, q, wide):
    for keys in ((0,), (0, 0), (0, 1), (0, 1, 1), (0, 0, 1), (0, 1, 2),
                 (0, 1, 1, 2), (0, 0, 2, 2, 3), (0, 1, 1, 1, 2, 3, 3)):
        for buf in (1, 2, 3, 5, 8):
            for am in itertools.product((1, 2, 3), repeat=reads):
                if sum(am) < len(keys):
                    for x in (-1, 0, 1, 2, 3) if q == 'nb_lower_than' \
                            and (wide or reads < 2) else (1,):
                        yield keys, buf, am, x


RULES = [sort_rule, questions]
