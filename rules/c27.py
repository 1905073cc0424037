"""Sampling without replacement: size, distinct positions, chunks, chances.

The value graphs of the samplers are evaluated over every outcome of the
random draws they contain, in small populations: a draw is a nondeterministic
choice, made once per turn of the loop it belongs to, and the paths are
enumerated depth first. The probability of an outcome is the sum of those of
its paths, so that the chances of the samples are decided exactly for draws
compared with a threshold, and on a fine grid of the unit square for the
number of items in a chunk.
"""
import ast
import itertools
import math
import random
from rules.common import *
from sa.nd import *
from sa.finite import Diverges, replay

ASSUMES = ['numpy.random.rand is uniform in [0, 1) and numpy.random.randint '
           'in its range, independent between calls']
F = 'ABXpy/sampling/sampler.py'
M = 'ABXpy.sampling.sampler:'


class Rejected(Exception):
    pass


class Path(object):
    """the outcomes of the draws of one path"""

    def __init__(self, script, options, limit):
        self.script, self.options, self.limit = list(script), options, limit
        self.made, self.sizes, self.weight = {}, [], Fraction(1)
        self.forced = False

    def draw(self, key, n):
        """a choice among n"""
        if key in self.made:
            return self.made[key]
        i = len(self.sizes)
        if i >= self.limit:
            # the rest of a long path: every choice in turn
            self.forced = True
            r = (i - self.limit + 1) % n
        else:
            if i >= len(self.script):
                self.script.append(0)
            r = self.script[i]
            self.sizes.append(n)
            self.weight /= n
        if i >= self.limit:
            self.sizes.append(0)
        self.made[key] = r
        return r

    def next(self):
        """script of the next path"""
        s = self.script[:self.limit]
        n = self.sizes[:len(s)]
        s = s[:len(n)]
        while s:
            if s[-1] + 1 < n[-1]:
                s[-1] += 1
                return s
            s.pop()
            n = n[:len(s)]
        return None


class Draws(ND):
    """models in which a random draw has the outcome of the path"""
    TURNS = 400
    path = None
    where = None

    def key(self, t):
        name = (t.op,) + tuple(x for x in t.args
                               if isinstance(x, (str, int)))
        loops = self.where.get(name, ())
        k = []
        for l in loops:
            if l.kind == 'while':
                k.append(self.env.get(('turn', l.id)))
            else:
                k += [self.env.get(v.id) for v, _ in l.doms]
        return (name,) + tuple(k)

    def op_fresh(self, t, name, *a):
        e = self.events.get(t.id)
        if e is None or not name.startswith(('numpy.random.', 'random.')):
            return NotImplemented
        n = name.split('.')[-1]
        pos = [self(x) for x in e.args]
        kws = {k: self(v) for k, v in e.kwargs.items()}
        key = self.key(t)
        if n in ('rand', 'random', 'random_sample', 'uniform') and not kws:
            if n == 'uniform' and pos not in ([], [0, 1]):
                raise Unknown('uniform')
            if n == 'uniform':
                pos = []
            return self.array(pos, key, self.path.options['unit'], 'f8')
        if n in ('randint', 'randrange'):
            lo = pos[0]
            hi = pos[1] if len(pos) > 1 else kws.pop('high', None)
            size = pos[2] if len(pos) > 2 else kws.pop('size', None)
            kws.pop('dtype', None)
            if kws:
                raise Unknown('randint')
            if hi is None:
                lo, hi = 0, lo
            if isinstance(hi, Fraction) or isinstance(lo, Fraction):
                raise Unknown('randint of a fraction')
            if hi <= lo:
                raise ShapeError('randint(%r, %r)' % (lo, hi))
            return self.array([] if size is None else [size], key,
                              self.path.options['int'](lo, hi), 'i8')
        raise Unknown(name)

    def array(self, size, key, opts, dt):
        if not size:
            return opts[self.path.draw(key, len(opts))]
        sh = size[0] if isinstance(size[0], tuple) else tuple(size)
        n = 1
        for x in sh:
            n *= x
        return Arr(sh, [opts[self.path.draw(key + (i,), len(opts))]
                        for i in range(n)], dt)

    def op_hyper(self, t, u, N, K, n):
        N, K, n = self(N), self(K), self(n)
        lo, hi = max(0, K - (N - n)), min(n, K)
        if n < 0 or n > N or lo > hi:
            raise ShapeError('%r of %r items of a population of %r' % (
                K, n, N))
        return lo + self.path.draw(self.key(t), hi - lo + 1)

    def op_draws(self, t, u, n, N):
        """sample of n in N: its ends"""
        n, N = self(n), self(N)
        self.path.made.setdefault('calls', {})[self.key(t)] = (n, N)
        return Arr((2,), [0, N - 1], 'i8')

    def np_sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float('nan')

    def np_log(self, x):
        return math.log(x) if x > 0 else -INF

    def op_xcall(self, t, name, *a):
        if name == 'math.lgamma':
            x = self(a[0])
            if x <= 0:
                raise ShapeError('lgamma(%s)' % x)
            return LG.setdefault(x, math.lgamma(x))
        return NotImplemented


LG = {}


class Sampler(object):
    """paths of a term"""

    def __init__(self, it, roots):
        self.it, self.roots = it, roots
        ev = {e.result.id: e for e in it.events
              if e.kind == 'rng' and e.result is not None}

        class D(Draws):
            events = ev
            where = {
                (e.result.op,) + tuple(x for x in e.result.args if isinstance(
                    x, (str, int))): e.loops for e in ev.values()}
        self.D = D

    def paths(self, env, options, limit, budget=20000):
        """(path, values of the roots) of every path"""
        script = []
        while script is not None:
            p = Path(script, options, limit)
            self.D.path = p
            f = self.D({sym(k).id: v for k, v in env.items()}, {}, self.it)
            try:
                r = [f(t) for t in self.roots]
            except Rejected:
                r = None
            yield p, r
            script = p.next()
            budget -= 1
            if not budget:
                raise Unknown('too many paths')


UNIT = [Fraction(0), Fraction(1, 2), Fraction(999, 1000)]


def options(unit=UNIT, ends=False):
    def ints(lo, hi):
        if hi - lo <= 3 or not ends:
            return list(range(lo, hi))
        return [lo, (lo + hi - 1) // 2, hi - 1]
    return {'unit': unit, 'int': ints}


def valid(v, n, N):
    """what is wrong with a sample"""
    d = list(arr(v).data)
    if len(arr(v).shape) != 1:
        return 'is not a list of positions'
    if len(d) != n:
        return 'has %d items: %r' % (len(d), d)
    if any(x < 0 or x >= N for x in d):
        return 'leaves the population: %r' % (d,)
    if len(set(d)) < n:
        return 'has an item twice: %r' % (d,)
    if sorted(d) != d:
        return 'is not in increasing order: %r' % (d,)
    return None


def direct(ck):
    it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                exact=True)
    st, r = it.run(M + 'sample_without_replacement', [sym('n'), sym('N')])
    ck.saw(it)
    return Sampler(it, [r])


def samples_rule(ck):
    """a sample has the size asked for and distinct items, in order"""
    rule = 'C27.sample'
    s = direct(ck)
    top = 6 if ck.tier == 'quick' else 8
    big = [(1, 101), (2, 101), (3, 150), (1, 10 ** 12), (2, 10 ** 12),
           (0, 500), (61, 101), (90, 150), (150, 150), (101, 101),
           (100, 100)]
    cases = [(n, N, N + 1, options()) for N in range(1, top + 1)
             for n in range(N + 1)] + \
        [(n, N, 4 if n < 10 else 1, options(ends=True)) for n, N in big]
    k = 0
    for n, N, limit, opt in cases:
        try:
            for p, (v,) in s.paths({'n': n, 'N': N}, opt, limit):
                k += 1
                bad = valid(v, n, N)
                if bad:
                    ck.violated(rule, F, 'a sample of %d items of a '
                                'population of %d %s' % (n, N, bad))
                    return
        except Diverges:
            ck.violated(rule, F, 'a sample of %d items of a population of '
                        '%d is never completed' % (n, N))
            return
        except ShapeError as x:
            ck.violated(rule, F, 'a sample of %d items of a population of '
                        '%d fails: %s' % (n, N, x))
            return
        except (Unknown, ZeroDivisionError, TypeError) as x:
            ck.undecided(rule, F, '%d of %d: %s' % (n, N, x))
            return
    ck.holds(rule, F, '%d sequences of draws, %d population and sample '
             'sizes' % (k, len(cases)))


def chances_rule(ck):
    """every sample of the size asked for is equally likely"""
    rule = 'C27.chances'
    s = direct(ck)
    k = 0

    def cells(m):
        return options([Fraction(2 * i + 1, 2 * m) for i in range(m)])
    cases = [(n, N, N, cells(6), range(N)) for N in (2, 3)
             for n in range(1, N)]
    cases += [(n, 4, 4, cells(12), range(4)) for n in (1, 2, 3)]
    # few items of many: conditional on draws of three positions
    cases += [(n, N, d, options(ends=True), (0, (N - 1) // 2, N - 1))
              for N in (101, 10 ** 6) for n, d in ((1, 4), (2, 7))]
    for n, N, limit, opt, pop in cases:
        acc, rest = {}, Fraction(0)
        try:
            for p, (v,) in s.paths({'n': n, 'N': N}, opt, limit):
                k += 1
                d = tuple(arr(v).data)
                if p.forced:
                    rest += p.weight
                else:
                    acc[d] = acc.get(d, 0) + p.weight
        except (Unknown, Diverges, ZeroDivisionError, TypeError) as x:
            ck.undecided(rule, F, '%d of %d: %s' % (n, N, x))
            return
        subsets = list(itertools.combinations(pop, n))
        want = (1 - rest) / len(subsets)
        for x in subsets:
            if abs(acc.get(x, 0) - want) > rest:
                ck.violated(rule, F, 'samples of %d items of a population of '
                            '%d are not equally likely: %r has probability '
                            '%s, not %s' % (n, N, list(x), acc.get(x, 0),
                                            want))
                return
    ck.holds(rule, F, 'equal probabilities of all samples, %d sequences of '
             'draws, %d population and sample sizes' % (k, len(cases)))


class Random(Path):
    """a path taken at random"""

    def __init__(self, rng, options):
        Path.__init__(self, [], options, 0)
        self.rng = rng

    def draw(self, key, n):
        if key not in self.made:
            self.made[key] = self.rng.randrange(n)
        return self.made[key]


def marginal_rule(ck):
    """positions of larger samples are spread evenly over the population"""
    rule = 'C27.marginal'
    s = direct(ck)
    rng = random.Random(1)
    reps = 150 if ck.tier == 'quick' else 1500
    opt = {'unit': [Fraction(2 * i + 1, 2048) for i in range(1024)],
           'int': range}
    cases = ((8, 101), (20, 101), (45, 101), (60, 101), (10, 40), (30, 40),
             (16, 1001), (40, 100000))
    for n, N in cases:
        tot = [0.] * 3
        try:
            for i in range(reps):
                s.D.path = Random(rng, opt)
                f = s.D({sym('n').id: n, sym('N').id: N}, {}, s.it)
                v = f(s.roots[0])
                bad = valid(v, n, N)
                if bad:
                    ck.violated(rule, F, 'a sample of %d items of a '
                                'population of %d %s' % (n, N, bad))
                    return
                u = [(2. * x + 1) / N - 1 for x in arr(v).data]
                tot[0] += sum(u)
                tot[1] += sum(x * x for x in u) - n / 3.
                tot[2] += sum(x ** 3 for x in u)
        except (Unknown, Diverges, ZeroDivisionError, TypeError) as x:
            ck.undecided(rule, F, '%d of %d: %s' % (n, N, x))
            return
        # variances of the moments of one uniform position in [-1, 1]; for
        # positions without replacement they are smaller
        for t, var, what in ((tot[0], 1 / 3., 'first'),
                             (tot[1], 4 / 45., 'second'),
                             (tot[2], 1 / 7., 'third')):
            z = t / math.sqrt(reps * n * var)
            if abs(z) > 6:
                ck.violated(rule, F, 'positions of samples of %d items of a '
                            'population of %d are not spread evenly: %s '
                            'moment %.1f standard deviations off' % (
                                n, N, what, z))
                return
    ck.holds(rule, F, 'moments of the positions on %d paths of the graph for '
             '%d population and sample sizes' % (reps, len(cases)))


def pmf(N, K, n):
    c = {}
    for k in range(max(0, K - (N - n)), min(n, K) + 1):
        c[k] = Fraction(math.comb(K, k) * math.comb(N - K, n - k),
                        math.comb(N, n))
    return c


class Once(Path):
    """draws of the first turn only"""

    def draw(self, key, n):
        if any(isinstance(x, int) and x > 0 for x in key[1:]):
            raise Rejected
        return Path.draw(self, key, n)


def number_rule(ck):
    """how many of the items to sample lie in the next n of the population"""
    rule = 'C27.number'
    it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                exact=True)
    st, r = it.run(M + 'hypergeometric_sample', [sym(x) for x in 'NKn'])
    ck.saw(it)
    s = Sampler(it, [r])
    top = 4 if ck.tier == 'quick' else 6
    m = 40 if ck.tier == 'quick' else 100
    small = [(N, K, n) for N in range(1, top + 1) for K in range(N + 1)
             for n in range(N + 1)]
    few = [Fraction(i, 10) + Fraction(1, 17) for i in (0, 3, 6, 9)]
    big = [(11, 4, 5), (11, 7, 4), (11, 5, 8), (12, 9, 9), (10, 5, 5)]
    cells = [Fraction(2 * i + 1, 2 * m) for i in range(m)]
    n0 = 0
    for c, (N, K, n) in enumerate(small + big):
        want = pmf(N, K, n)
        acc = {}
        script = []
        opt = options(few if c < len(small) else cells)
        try:
            while script is not None:
                p = Once(script, opt, 60)
                s.D.path = p
                f = s.D({sym('N').id: N, sym('K').id: K, sym('n').id: n},
                        {}, it)
                try:
                    k = f(r)
                    acc[k] = acc.get(k, 0) + p.weight
                    if k not in want:
                        ck.violated(rule, F, '%s of the next %d items of a '
                                    'population of %d are sampled, when %d '
                                    'of them are to be' % (k, n, N, K))
                        return
                except Rejected:
                    pass
                n0 += 1
                script = p.next()
                if n0 > 10 ** 6:
                    raise Unknown('too many paths')
        except ShapeError as x:
            ck.violated(rule, F, 'population of %d, %d to sample, next %d: '
                        '%s' % (N, K, n, x))
            return
        except (Unknown, Diverges, ZeroDivisionError, TypeError) as x:
            ck.undecided(rule, F, '%d, %d, %d: %s' % (N, K, n, x))
            return
        tot = sum(acc.values())
        if not tot:
            ck.violated(rule, F, 'population of %d, %d to sample, next %d: '
                        'no number of items is accepted' % (N, K, n))
            return
        if c >= len(small):
            tv = sum(abs(acc.get(k, 0) / tot - want[k]) for k in want) / 2
            if tv > Fraction(25, 1000):
                ck.violated(rule, F, 'population of %d, %d to sample, next '
                            '%d: the number of items is distributed as %s, '
                            'not %s' % (N, K, n, table(acc, tot),
                                        table(want, 1)))
                return
    ck.holds(rule, F, 'bounds of the number of items, %d cases, and its '
             'distribution on a grid of %d by %d draws, %d cases' % (
                 len(small) + len(big), m, m, len(big)))


def summary(op, names):
    """native of a function: its result is a draw with its arguments"""
    def go(it, args, kw, st, node):
        ev = it.event('rng', op, None, list(args), dict(kw), st, node)
        b = dict(zip(names, [it.snap(x, st) for x in args]))
        for k, v in kw.items():
            b[k] = it.snap(v, st)
        if any(n not in b for n in names):
            raise Unknown('arguments of %s' % op)
        it.uniq += 1
        ev.result = mk(op, it.uniq, *[b[n] for n in names])
        return ev.result
    return go


SUMMARIES = (('hypergeometric_sample', 'hyper', ['N', 'K', 'n']),
             ('sample_without_replacement', None, ['n', 'N']))


def sampler(ck, kind, steps, relative):
    """terms of the chunks read from a sampler, with the functions above
    replaced by what was shown of them"""
    it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                exact=True)
    for fn, op, names in SUMMARIES:
        f = ck.repo.lookup(M + fn)
        f = f and f[1]
        have = [a.arg for a in f.args.args] \
            if isinstance(f, ast.FunctionDef) else None
        if not have or have[:len(names)] != names or \
                len(f.args.defaults) < len(have) - len(names):
            raise Unknown('parameters of %s: %s' % (fn, have))
        if op or kind == 'ends':
            it.natives[M + fn] = summary(op or 'draws', names)
    st = State()
    kw = {} if relative is None else {
        'relative_indexing': TRUE if relative else FALSE}
    if kind == 'iter':
        kw['step'] = sym('step')
    o = it.instantiate(M + 'IncrementalSampler', [sym('N'), sym('K')], kw,
                       st, None)
    out, left = [], []
    for i in range(steps):
        if kind != 'sample' and kind != 'ends':
            out.append(it.call_method(o, '__next__', [], {}, st, None))
        else:
            out.append(it.call_method(o, 'sample', [sym('n%d' % i)], {}, st,
                                      None))
        out[-1] = it.snap(out[-1], st)
    ck.saw(it)
    return Sampler(it, out), it


def parts(sizes, N):
    """(first position, size) of the chunks"""
    p = 0
    for n in sizes:
        n = min(n, N - p)
        yield p, n
        p += n


def chunks_rule(ck):
    """a sampler read in chunks"""
    rule = 'C27.chunks'
    top = 4 if ck.tier == 'quick' else 6
    unit = options([Fraction(0), Fraction(999, 1000)])
    k0 = cases = 0
    for kind in ('sample', 'iter'):
        for relative in (True, False, None):
            for steps in (1, 2, 3) if relative is not None else (2,):
                s, it = sampler(ck, kind, steps, relative)
                for N in range(1, top + 1):
                    for K in range(N + 1):
                        for sizes in splits(kind, N, steps):
                            cases += 1
                            n, bad = read(s, kind, N, K, sizes, relative,
                                          unit)
                            k0 += n
                            if bad:
                                ck.violated(rule, F, bad)
                                return
    ck.holds(rule, F, '%d readings of %d samplers in one to three chunks' % (
        k0, cases))


def splits(kind, N, steps):
    if kind == 'iter':
        n = -(-N // steps)
        return [(n,) * steps] if (steps - 1) * n < N else []
    r = []
    for x in itertools.product(range(N + 2), repeat=steps):
        # nothing is read from an exhausted sampler
        if sum(x[:-1]) < N:
            r.append(x)
    return r


def read(s, kind, N, K, sizes, relative, unit):
    env = {'N': N, 'K': K}
    if kind == 'iter':
        env['step'] = sizes[0]
    else:
        env.update(('n%d' % i, n) for i, n in enumerate(sizes))
    what = 'a sampler of %d items of %d read in chunks of %s' % (
        K, N, ', '.join(map(str, sizes)))
    count = 0
    for p, vs in s.paths(env, unit, N + 4):
        count += 1
        got = 0
        for v, (at, n) in zip(vs, parts(sizes, N)):
            d = list(arr(v).data)
            off = at if relative is False else 0
            if any(x < off or x >= off + n for x in d) or \
                    len(set(d)) < len(d) or sorted(d) != d:
                return count, '%s gives %r for the chunk of %d at %d, with ' \
                    '%s positions' % (what, d, n, at, 'relative'
                                      if relative else 'absolute')
            got += len(d)
        if sum(sizes) >= N and got != K:
            return count, '%s gives %d items in all' % (what, got)
    return count, None


def stops(it, f):
    """does the reading end in the model"""
    return any(e.kind == 'raise' and f(e.guard()) and 'StopIteration' in
               str([show(x, 4) for x in e.args] + [e.name])
               for e in it.events)


def iteration_rule(ck):
    """iterating over a sampler reads the population once"""
    rule = 'C27.iteration'
    c = 0
    for kind, steps in (('iter', 1), ('iter', 2), ('iter', 3), ('all', 1),
                        ('all', 2)):
        s, it = sampler(ck, kind, steps, None)
        for N in range(0, 5):
            for K in range(N + 1):
                for step in (1, 2, 3, 5) if kind == 'iter' else (20000,):
                    c += 1
                    p = Path([], options(), 0)
                    s.D.path = p
                    f = s.D({sym('N').id: N, sym('K').id: K,
                             sym('step').id: step}, {}, it)
                    end = -(-N // step) < steps
                    if stops(it, f) != end:
                        ck.violated(rule, F, 'iteration over %d items in '
                                    'chunks of %d: the %s of the chunks %s' %
                                    (N, step, 'number %d' % steps,
                                     'is missing' if not end else
                                     'is read although none are left'))
                        return
                    if kind == 'all' and steps == 1 and N:
                        bad = valid(f(s.roots[0]), K, N)
                        if bad:
                            ck.violated(rule, F, 'the sample of %d items of '
                                        '%d in the default chunk %s' % (
                                            K, N, bad))
                            return
    ck.holds(rule, F, '%d iterations' % c)


def pieces_rule(ck):
    """large chunks are sampled piece by piece"""
    rule = 'C27.pieces'
    N = 10 ** 6
    c = 0
    for relative in (True, False):
        for steps, sizes in ((1, (N,)), (1, (3 * N,)), (1, (700000,)),
                             (2, (300000, N)), (2, (250001, 600007))):
            s, it = sampler(ck, 'ends', steps, relative)
            for K in (500000, 400000, 999999, N):
                c += 1
                env = {'N': N, 'K': K}
                env.update(('n%d' % i, n) for i, n in enumerate(sizes))
                what = 'a sampler of %d items of %d read in chunks of %s' % (
                    K, N, ', '.join(map(str, sizes)))
                p = Path([], {}, 0)
                s.D.path = p
                f = s.D({sym(k).id: v for k, v in env.items()}, {}, it)
                vs = [f(t) for t in s.roots]
                for v, (at, n) in zip(vs, parts(sizes, N)):
                    d = list(arr(v).data)
                    off = 0 if relative else at
                    # ends of adjoining pieces from the first position of
                    # the chunk to its last
                    if d[0] != off or d[-1] != off + n - 1 or any(
                            d[i] + 1 != d[i + 1]
                            for i in range(1, len(d) - 1, 2)):
                        ck.violated(rule, F, '%s: the pieces of the chunk of '
                                    '%d at %d cover %r, with %s positions' % (
                                        what, n, at, d[:8], 'relative'
                                        if relative else 'absolute'))
                        return
                tot = sum(n for n, _ in p.made.get('calls', {}).values())
                if sum(sizes) >= N and tot != K:
                    ck.violated(rule, F, '%s: %d items in all' % (what, tot))
                    return
    ck.holds(rule, F, '%d samplers with chunks above the size of a piece' % c)


def guarded(rule):
    def go(ck):
        try:
            rule(ck)
        except ShapeError as x:
            ck.violated('C27.' + rule.__name__[:-5], F, 'fails: %s' % x)
        except ZeroDivisionError:
            ck.violated('C27.' + rule.__name__[:-5], F,
                        'a sampler is divided by zero')
        except Diverges:
            ck.violated('C27.' + rule.__name__[:-5], F, 'does not end')
    go.__name__ = rule.__name__
    return go


def table(acc, tot):
    return ', '.join('%d: %.2f' % (k, float(v / tot))
                     for k, v in sorted(acc.items()))


RULES = [samples_rule, chances_rule, marginal_rule, number_rule, guarded(chunks_rule),
         guarded(iteration_rule), guarded(pieces_rule)]
