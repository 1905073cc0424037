"""Dynamic time warping: the cheapest alignment of two sequences.

The value graph of the alignment is evaluated for every small matrix of frame
distances (and samples of larger ones): the result has to be the minimum over
all monotone alignments of the summed distances, and with normalization that
minimum divided by the number of steps of a cheapest alignment. The provided
distances have to hand over the frame distances of the two sequences in their
order, and the normalization they were asked for.
"""
import itertools
from rules.common import *
from sa.nd import *
from sa.finite import replay

ASSUMES = ['the Cython subset of dtw.pyx: typed variables hold the values '
           'assigned, no integer division of typed variables']
F = 'ABXpy/distances/metrics/dtw/dtw.pyx'
DTW = 'ABXpy.distances.metrics.dtw:dtw'
# provided distances: (function, arguments, metric, takes the normalization)
PROVIDED = [
    ('ABXpy.distance:default_distance', 'cosine_distance'),
    ('ABXpy.distance:dtw_kl_distance', 'kl_divergence'),
    ('ABXpy.distances.example_distances:dtw_cosine', 'cosine_distance'),
    ('ABXpy.distances.example_distances:dtw_kl_divergence', 'kl_divergence')]


def optimum(d):
    """(cheapest cost, lengths of the cheapest alignments)"""
    n, m = len(d), len(d[0])
    best = {}
    for i in range(n):
        for j in range(m):
            prev = [best[p] for p in ((i - 1, j), (i, j - 1), (i - 1, j - 1))
                    if p in best]
            if not prev:
                best[i, j] = (d[i][j], {1})
                continue
            c = min(p[0] for p in prev)
            ls = set()
            for p in prev:
                if p[0] == c:
                    ls |= {l + 1 for l in p[1]}
            best[i, j] = (c + d[i][j], ls)
    return best[n - 1, m - 1]


def noise(seed):
    while True:
        seed = (seed * 1103515245 + 12345) % 2 ** 31
        yield seed >> 16


def matrices(wide):
    for n, m, vals in ((1, 1, (0, 3)), (1, 3, (0, 1, 2)), (3, 1, (0, 1, 2)),
                       (2, 2, (0, 1, 2)), (2, 3, (0, 1)), (3, 2, (0, 1))):
        for v in itertools.product(vals, repeat=n * m):
            yield [list(v[i * m:(i + 1) * m]) for i in range(n)]
    g = noise(7)
    for n, m, k in ((2, 3, 30), (3, 2, 30), (3, 3, 90), (3, 4, 40),
                    (4, 3, 40), (4, 4, 30), (2, 6, 15), (6, 2, 15),
                    (5, 5, 10), (1, 5, 5), (5, 1, 5)):
        for r in range(k * (6 if wide else 1)):
            top = (2, 4, 9, 2)[r % 4]
            yield [[Fraction(next(g) % top, 1 + r % 3) for _ in range(m)]
                   for _ in range(n)]


def frames(n, tag):
    return Arr((n, 1), ['%s%d' % (tag, i) for i in range(n)], 'O')


def evaluate(it, res, d, norm, metric=None):
    """result of the alignment for the matrix of frame distances d"""
    n, m = len(d), len(d[0])

    def matrix(a, b):
        if not isinstance(a, Arr) or not isinstance(b, Arr) or \
                len(a.shape) != 2 or len(b.shape) != 2:
            raise Unknown('arguments of the metric')
        r = []
        for u in a.data:
            for v in b.data:
                if u[0] != 'x' or v[0] != 'y':
                    raise ShapeError('the metric is called with %s for the '
                                     'rows and %s for the columns' % (u, v))
                r.append(d[int(u[1:])][int(v[1:])])
        return Arr((len(a.data), len(b.data)), r, 'f8')

    def ucall(f, t):
        if t.args[0] is not sym('metric') and \
                t.args[0] is not const('metric') and t.args[0] != 'metric':
            raise Unknown('call of %s' % show(t, 3))
        if len(t.args) != 3:
            raise Unknown('arguments')
        return matrix(f(t.args[1]), f(t.args[2]))

    def call(f, t):
        if str(t.args[0]).split(':')[-1].split('.')[-1] != metric:
            raise ShapeError('%s is called instead of %s' % (t.args[0],
                                                             metric))
        kw = {}
        for i, a in enumerate(t.args[1:]):
            if a.op == 'arg':
                kw[a.args[0]] = a.args[1]
            else:
                kw['xy'[i]] = a
        if set(kw) - {'x', 'y'} and metric == 'cosine_distance' or \
                not {'x', 'y'} <= set(kw):
            raise Unknown('arguments of %s' % metric)
        return matrix(f(kw['x']), f(kw['y']))
    f = ND({sym('x').id: frames(n, 'x'), sym('y').id: frames(m, 'y'),
            sym('norm').id: norm}, {'ucall': ucall, 'call': call}, it)
    for e in it.events:
        if e.kind in ('raise', 'assert') and not e.loops and \
                not any(k[0] == 'handler' for k in e.ctx):
            if f(e.guard()) and (e.kind == 'raise' or not f(e.args[0])):
                raise ShapeError('an error is raised (line %s)' % e.where[2])
    return f(res)


def judge(got, d, norm):
    c, ls = optimum(d)
    if isinstance(got, (Arr, str)) or got is None:
        return 'returns %r' % (got,)
    if not norm:
        return None if got == c else 'the distance is %s instead of %s' % (
            got, c)
    if any(got * l == c for l in ls):
        return None
    return 'the normalized distance is %s instead of %s' % (
        got, ' or '.join('%s/%s' % (c, l) for l in sorted(ls)))


def core_rule(ck):
    it = Interp(ck.repo, exact=True)
    _, res = it.run(DTW, [sym('x'), sym('y'), sym('metric'), sym('norm')])
    ck.saw(it)
    for norm, rule in ((False, 'cheapest'), (True, 'normalized')):
        run(ck, it, res, norm, rule, F + ':_dtw',
            matrices(ck.tier == 'thorough'))


def run(ck, it, res, norm, rule, where, mats, metric=None):
    n = 0
    for d in mats:
        try:
            got = evaluate(it, res, d, norm, metric)
            bad = judge(got, d, norm)
        except ShapeError as e:
            bad = str(e)
        except Diverges:
            bad = 'the computation does not end'
        except Unknown as e:
            ck.undecided(rule, where, str(e)[:200])
            return
        n += 1
        if bad:
            ck.violated(rule, where, 'frame distances %s%s: %s' % (
                [[str(x) for x in r] for r in d],
                ', normalization %s' % norm, bad))
            return
    ck.holds(rule, where, 'optimal in %d models' % n)


def few():
    yield [[1, 2, 0], [0, 5, 1]]
    yield [[3]]
    yield [[0, 4], [2, 1], [7, 1]]
    yield [[0, 0, 1, 0], [0, 2, 0, 1], [1, 0, 0, 3]]


def provided_rule(ck):
    for fn, metric in PROVIDED:
        mod, name = fn.split(':')
        where = mod.replace('.', '/') + '.py:' + name
        it = Interp(ck.repo, exact=True, opaque={metric})
        try:
            _, res = it.run(fn, [sym('x'), sym('y'), sym('norm')])
        except AnalysisBroken:
            ck.undecided('provided', where, 'function is missing')
            continue
        ck.saw(it)
        for norm in (False, True, 0, 1):
            run(ck, it, res, norm, 'provided-%s' % norm, where, few(), metric)


def requested_rule(ck):
    """every pair of a run is compared with the normalization requested"""
    from rules.c08 import job_run
    from rules.featlib import JobModel, Tab
    rule = 'requested'
    it = job_run(ck)
    calls = [e for e in it.events if e.kind == 'ucall' and e.recv is
             sym('dist')]
    where = 'ABXpy/distances/distances.py:run_distance_job'
    if not calls:
        ck.undecided(rule, where, 'distance calls not recognised')
        return
    n = 0
    for norm in (None, 0, 1, False, True):
        m = JobModel(it, Tab({'file': ['f', 'f', 'f'], 'onset': [0, 1, 2],
                              'offset': [3, 3, 3]}), [1, 2, 5], 3,
                     {'f': [0, 1, 2, 3]},
                     {'f': [('f', i) for i in range(4)]})
        m.root.env[sym('norm').id] = norm
        m.root.env[sym('job').id].update(by=['lev', 'lev'], start=[0, 0],
                                         stop=[3, 3])
        got = {}
        try:
            for e in calls:
                for f, at in turns_of(it, e, m.root):
                    a = e.kwargs.get('normalized')
                    if a is None and len(e.args) > 2:
                        a = e.args[2]
                    got.setdefault(at, []).append(
                        None if a is None else f(a))
        except (Unknown, Diverges, KeyError, TypeError) as x:
            ck.undecided(rule, calls[0], '%s: %s' % (norm, str(x)[:150]))
            return
        if len(got) != 6 or any(len(v) != 1 for v in got.values()):
            ck.undecided(rule, calls[0], '%s: calls %s' % (norm, got))
            return
        for at in sorted(got):
            n += 1
            v = got[at][0]
            if (v is None) != (norm is None) or norm is not None and \
                    bool(v) != bool(norm):
                ck.violated(rule, calls[0], 'with the normalization %s '
                            'requested, pair %d of block %d is compared with '
                            '%s' % (norm, at[1], at[0], 'the normalization '
                                    'of the distance by default' if v is None
                                    else 'normalized=%s' % v))
                return
    ck.holds(rule, calls[0], '%d calls of the distance' % n)


def turns_of(it, e, root):
    terms = [e.guard(('branch',))] + list(e.args[2:]) + \
        list(e.kwargs.values())
    loops = [it.domsterm(l.doms) for l in e.loops]

    def go(k, f, at):
        if k == len(loops):
            if f(terms[0]):
                yield f, at
            return
        for i, g in enumerate(f.iterate(loops[k], *terms)):
            for r in go(k + 1, g, at + (i,)):
                yield r
    return go(0, root, ())


RULES = [core_rule, provided_rule, requested_rule]
