"""Analysis of the scores: one line per group of triplets with equal levels.

The value graph of the analysis is evaluated with a task and a score file whose
regressor rows, levels and scores are abstract tokens of small tables, over the
possible groupings: equal rows adjacent or interleaved, one to three
regressors, levels colliding in all but one column, several by levels, key
spaces at the limits of the integer types. Every line has to carry the levels
of the group, the by level, the mean of its scores mapped from [-1, 1] to
[0, 1], and its size; the lines have to be exactly the groups that occur.
"""
import itertools
from rules.common import *
from sa.nd import *
from sa.finite import replay

ASSUMES = ['h5py datasets read as numpy arrays; names of group members are '
           'listed in alphabetical order']
F = 'ABXpy/analyze.py'


class Fails(Exception):
    pass


class Tree(object):
    """a hdf5 file: nested dicts of arrays and lists"""

    def __init__(self, files):
        self.files = files

    def funcs(self):
        def h5file(f, t):
            n = f(t.args[0])
            if n not in self.files:
                raise Unknown('file %r' % (n,))
            return self.files[n]

        def h5(f, t):
            v = f(t.args[0])
            p = f(t.args[1]) if hasattr(t.args[1], 'op') else t.args[1]
            for x in p.split('/'):
                if x:
                    v = self.step(v, x)
            return v

        def gi(f, t):
            v = f(t.args[0])
            if isinstance(v, dict):
                return self.step(v, f(t.args[1]))
            return NotImplemented

        def listed(f, t):
            v = f(t.args[0])
            if isinstance(v, dict):
                return sorted(v)
            return NotImplemented

        return {'h5file': h5file, 'h5': h5, 'getitem': gi, 'keys': listed}

    def step(self, v, x):
        if isinstance(x, int):
            return sorted(v)[x]
        if x in (Ellipsis, ()):
            return v
        for y in str(x).split('/'):
            if not isinstance(v, dict) or y not in v:
                raise ShapeError('no member %r' % (y,))
            v = v[y]
        return v


class Output(object):
    """lines written to a text file"""

    def __init__(self, name):
        self.name, self.text = name, ''

    def visit(self, e, f):
        if any(k[0] == 'handler' for k in e.ctx):
            return
        if e.kind in ('raise', 'assert', 'call') or \
                e.kind == 'method' and e.name in ('write', 'writelines',
                                                  'writerow'):
            if not f(e.guard()):
                return
        if e.kind == 'raise' or e.kind == 'assert' and not f(e.args[0]):
            raise Fails(e)
        if e.kind == 'method' and e.recv is not None and \
                e.recv.op == 'file' and f(e.recv.args[0]) == self.name:
            if e.name == 'write':
                self.text += f(e.args[0])
            elif e.name == 'writelines':
                self.text += ''.join(f(e.args[0]))
            elif e.name not in ('close', 'flush'):
                raise Unknown('file method %s' % e.name)
        elif e.kind == 'call' and e.name in ('csv.writer', 'pandas.DataFrame',
                                             'numpy.savetxt'):
            raise Unknown(e.name)


def analysed(it, task, scores):
    out = Output('R')
    f = ND({sym('task').id: 'T', sym('score').id: 'S',
            sym('res').id: 'R'}, Tree({'T': task, 'S': scores}).funcs(), it)
    replay(it, it.events, f, out.visit)
    return out.text


def model(groups, levels, dt=None):
    """files of by levels given as (by, [(regressor row, score)])"""
    # the type h5io stores the level numbers in (C14)
    dt = dt or ('u1' if max(map(len, levels)) < 256 else 'u2')
    regs = ['r%d' % i for i in range(len(levels))]
    by_index, scores, tabs = [], [], {}
    for by, rows in groups:
        by_index.append([len(scores), len(scores) + len(rows)])
        scores += [[s] for _, s in rows]
        data = [list(r) for r, _ in rows]
        tabs[by] = {
            'indexed_data': Arr((len(data), len(regs)),
                                [x for r in data for x in r], dt),
            'indexed_datasets': list(regs),
            'indexed_datasets_indexes': list(regs),
            'indexes': {r: list(l) for r, l in zip(regs, levels)}}
    task = {'bys': [b for b, _ in groups],
            'triplets': {'by_index': arr(by_index, 'i8')},
            'regressors': tabs}
    sc = {'scores': Arr((len(scores), 1), [s for r in scores for s in r],
                        'i1')}
    return task, sc


def expected(groups, levels):
    out = []
    for by, rows in groups:
        acc = {}
        for r, s in rows:
            acc.setdefault(tuple(r), []).append(s)
        for r, ss in acc.items():
            m = (Fraction(sum(ss), len(ss)) + 1) / 2
            out.append((tuple(levels[i][x] for i, x in enumerate(r)), by,
                        plain(m), len(ss)))
    return out


def number(s):
    try:
        return Fraction(s)
    except (ValueError, ZeroDivisionError):
        pass
    try:
        return Fraction(float(s))
    except (ValueError, OverflowError):
        return s


def parse(text, n):
    lines = text.split('\n')
    if lines[-1] != '':
        return None, None
    head = lines[0].split('\t')
    out = []
    for l in lines[1:-1]:
        c = l.split('\t')
        if len(c) != n + 3:
            return head, l
        out.append((tuple(c[:n]), c[n], number(c[n + 1]), number(c[n + 2])))
    return head, out


def close(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) < Fraction(1, 10 ** 12)


def same(got, want):
    if len(got) != len(want):
        return False
    want = sorted(want, key=repr)
    got = sorted(got, key=lambda r: repr((r[0], r[1])))
    want = sorted(want, key=lambda r: repr((r[0], r[1])))
    return all(g[0] == w[0] and g[1] == w[1] and close(g[2], w[2]) and
               close(g[3], w[3]) for g, w in zip(got, want))


def cases(wide):
    L = [['a', 'b', 'c'], ['x', 'y'], ['p', 'q', 'r', 's']]
    # every grouping of few rows of two regressors
    for rows in itertools.product(itertools.product(range(2), range(2)),
                                  repeat=3):
        yield [('b0', [(r, s) for r, s in zip(rows, (1, -1, 0))])], L[:2]
    for rows in itertools.product(range(3), repeat=4):
        yield [('b0', [((r,), s) for r, s in zip(rows, (1, 1, -1, 0))])], \
            L[:1]
    # three regressors with different numbers of levels, interleaved rows
    r3 = [(0, 0, 0), (2, 1, 3), (0, 1, 0), (2, 0, 3), (1, 1, 1), (0, 0, 3),
          (2, 1, 0), (0, 0, 1), (1, 0, 0)]
    yield [('b0', [(r3[i % 9], (-1, 0, 1, 1, -1)[i % 5])
                   for i in range(22)])], L
    yield [('b0', [(r3[(i * 7) % 9], (1, 0, 1, 1)[i % 4])
                   for i in range(19)])], L
    # several by levels, with different rows and sizes
    for a, b, c in ((1, 3, 2), (2, 0, 3), (4, 1, 1), (0, 2, 2)):
        yield [('b1', [((i % 2, i % 2), 1) for i in range(a)]),
               ('b0', [((i % 3, 1), (0, -1)[i % 2]) for i in range(b)]),
               ('b2', [((2, i % 2), (1, 0, -1)[i % 3])
                       for i in range(c)])], L[:2]


def big_cases(wide):
    """key spaces around the limits of the integer types"""
    for n, k in ((250, 1), (255, 1), (16, 2), (17, 2), (40, 3), (200, 3),
                 (200, 4), (250, 4), (100, 7), (100, 9), (255, 8)):
        levels = [['%d.%d' % (j, i) for i in range(n)] for j in range(k)]
        top = n - 1
        rows = [(top,) * k, (0,) * k, (top,) * (k - 1) + (0,),
                (0,) * (k - 1) + (top,), (top - 1,) * k,
                tuple((7 * i + 3) % n for i in range(k)), (top,) * k,
                tuple((top - i) % n for i in range(k))]
        yield [('b0', [(r, (1, -1, 0)[i % 3])
                       for i, r in enumerate(rows)])], levels


def huge_cases():
    """key spaces that fit in no integer type"""
    for n, k in ((200, 9), (256, 8), (250, 16)):
        levels = [['%d.%d' % (j, i) for i in range(n)] for j in range(k)]
        rows = [(n - 1,) * k, (0,) * k, (n - 1,) + (0,) * (k - 1),
                (0,) * (k - 1) + (n - 1,)]
        yield [('b0', [(r, 1) for r in rows])], levels


def build(ck):
    it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                exact=True)
    it.run('ABXpy.analyze:analyze', [sym('task'), sym('score'), sym('res')])
    ck.saw(it)
    return it


def check(ck, it, rule, cs, what, may_fail=False, dt=None):
    n = 0
    for groups, levels in cs:
        task, sc = model(groups, levels, dt)
        regs = ['r%d' % i for i in range(len(levels))]
        try:
            text = analysed(it, task, sc)
        except Fails as e:
            if may_fail:
                n += 1
                continue
            return ck.violated(rule, e.args[0], 'the analysis of %s fails'
                               % brief(groups))
        except ShapeError as e:
            return ck.violated(rule, F + ':collapse', 'the analysis of %s '
                               'fails: %s' % (brief(groups), e))
        head, got = parse(text, len(levels))
        if head != regs + ['by', 'score', 'n']:
            return ck.violated('header', F + ':analyze',
                               'the header is %r' % (head,))
        want = expected(groups, levels)
        if not isinstance(got, list):
            return ck.violated(rule, F + ':collapse', 'line %r' % (got,))
        if not same(got, want):
            miss = [w for w in want if not any(same([g], [w]) for g in got)]
            more = [g for g in got if not any(same([g], [w]) for w in want)]
            return ck.violated(rule, F + ':collapse', 'with %s: %s instead '
                               'of %s' % (brief(groups), show_rows(more),
                                          show_rows(miss)))
        n += 1
    ck.holds(rule, F + ':collapse', '%s in %d models' % (what, n))


def show_rows(rs):
    return '; '.join('%s %s score %s n %s' % (','.join(r[0]), r[1], r[2],
                                              r[3]) for r in rs[:3]) or \
        'nothing'


def brief(groups):
    return '; '.join('%s: %s' % (b, ' '.join(
        '%s%+d' % (','.join(map(str, r)), s) for r, s in rows[:8]))
        for b, rows in groups)[:300]


def groups_rule(ck):
    it = build(ck)
    wide = ck.tier == 'thorough'
    check(ck, it, 'groups', cases(wide), 'one line per group')
    check(ck, it, 'keys', big_cases(wide), 'no two groups are confused')
    check(ck, it, 'overflow', huge_cases(), 'refused or exact', True)


RULES = [groups_rule]
