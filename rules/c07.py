"""Threshold sampling, on the value graph of generate_triplets(threshold).

Rows are sorted by a combined key and every run of equal key contributes
min(run length, threshold) distinct rows of its own: decided by interpreting
the extracted offsets over all profiles of a finite family of run lengths and
thresholds. The combined key is proved to be a mixed-radix number of all B and
X regressors (each weighted by the product of the ranges of the later ones), or
refuted by two regressor vectors it confuses; its digits must be the regressor
rows of the triplets being sorted. Sampling must be without replacement.
"""
import itertools

from rules.tasklib import *
from rules import c02
from sa.nd import Arr, ND, ShapeError
from sa.finite import Unknown
from rules.history import leftover

ASSUMES = ['the sampler returns distinct positions below the population size '
           '(C27); regressor codes are non-negative integers']

CONFIGS = [(0, 1, (), 1), (1, 1, (), 1), (2, 1, (), 1),
           (1, 1, ('A', 'B', 'X', 'ABX'), 1), (1, 1, ('ABX',), 1),
           (0, 1, ('ABX',), 1)]


def threshold(ck):
    for cfg in CONFIGS:
        u = Unit(ck, *cfg)
        e = the_write(ck, 'threshold', u)
        if e is None:
            continue
        try:
            n = 0
            for cond, cols in triplet_leaves(u, e):
                if cols is None:
                    continue
                c = Cols(cols)
                for k, s in enumerate(c.sel):
                    if s.op in ('keep', 'slice'):
                        continue
                    n += 1
                    one(ck, u, e, c, k, s)
                if not any(s.op not in ('keep', 'slice') for s in c.sel):
                    if not any(not_(lt(ZERO, mk('len', s))) is x
                               for s in c.sel for x in cond):
                        ck.violated('thresholded', e, '%s: rows are written '
                                    'without thresholding when %s' % (
                                        u.name, show(and_(*cond), 4)))
            if not n:
                ck.undecided('thresholded', e, '%s: no sampling' % u.name)
        except Cannot as x:
            ck.undecided('threshold', e, '%s: %s' % (u.name, x))


def one(ck, u, e, c, k, s):
    g = Grouped(s)
    if g.count is None:
        ck.undecided('per-group', e, show(g.body, 4))
        return
    r = g.runs_ok()
    ck.decide('groups', e, r, '%s: groups are the runs of equal key of the '
              'sorted rows' % u.name)
    r = check_runs(g, True)
    ck.decide('per-group', e, r if r in (True, None) else False, '%s: %s' % (
        u.name, r[1] if isinstance(r, tuple) else
        'min(count, threshold) distinct rows of each group' if r else
        show(g.body, 5)))
    key_rule(ck, u, e, c, k, g.keyterm)


def key_rule(ck, u, e, c, k, key):
    """injectivity of the combined key"""
    want = {n: r for r in 'BX' for l in REGS[r] for n in l}
    atoms = {}
    mx = {}
    for x in subterms(key):
        b, ls = layers(x)
        if b.op == 'reg' and ls and x.op == 'getitem':
            i = 'ABX'.index(b.args[0])
            if [id(l) for l in ls] == [id(l) for l in
                                       [c.digits[i]] + list(c.sel[:k])]:
                atoms[b.args[1]] = x
    for x in subterms(key):
        if x.op == 'np' and x.args[0] == 'max':
            for n, a in atoms.items():
                if x.args[1] is a:
                    mx[n] = x
    miss = [n for n in want if n not in atoms]
    used = {}
    for x in subterms(key):
        if x.op == 'reg':
            used[x.args[1]] = x
    if miss:
        gone = [n for n in miss if n not in used]
        if gone:
            ck.violated('key-regressors', e, '%s: groups ignore regressor %s'
                        % (u.name, ', '.join(sorted(gone))))
        else:
            o = [n for n in miss]
            # present, but with other rows than the triplets being sorted
            rows = [x for x in subterms(key) if x.op == 'getitem' and
                    layers(x)[0].op == 'reg' and
                    layers(x)[0].args[1] == o[0]]
            if rows and not any(opaque_in(l) for x in rows
                                for l in layers(x)[1]):
                ck.violated('key-regressors', e, '%s: rows of regressor %s in '
                            'the grouping key are not those of the triplets'
                            % (u.name, o[0]))
            else:
                ck.undecided('key-regressors', e, show(key, 4))
        return
    ck.holds('key-regressors', e, '%s: all B and X regressors in the key' %
             u.name)
    # mixed radix, in some order
    order = sorted(atoms, key=lambda n: -sum(
        1 for m in tm._topoly(key) if any(a is atoms[n] for a, _ in m)))
    chain = ZERO
    ok = all(n in mx or n == order[0] for n in order)
    if ok:
        for n in order:
            radix = add(mx[n], ONE) if n in mx else ONE
            chain = add(mul(chain, radix), atoms[n])
        if chain is key:
            ck.holds('key-injective', e, '%s: mixed-radix number of %s' % (
                u.name, ', '.join(order)))
            return
    r = models(u.it, key, atoms)
    if r is True:
        ck.holds('key-injective', e, '%s: different keys for different '
                 'regressors in the models' % u.name)
    elif r is None:
        ck.undecided('key-injective', e, show(key, 4))
    else:
        ck.violated('key-injective', e, '%s: %s' % (u.name, r))


def chains(key):
    """{regressor: its selected rows} in a key"""
    out = {}
    inner = set()
    for x in subterms(key):
        if x.op == 'getitem' and isinstance(x.args[0], T):
            inner.add(x.args[0].id)
    for x in subterms(key):
        b = x
        while b.op == 'getitem':
            b = b.args[0]
        if b.op == 'reg' and x.id not in inner and x.op == 'getitem':
            if out.setdefault(b.args[1], x) is not x:
                return None
    return out


def vectors(n, top):
    """regressor vectors with maxima top: small ranges completely, else the
    vectors of extreme digits; some vectors twice"""
    ds = [range(t + 1) if t < 4 else (0, 1, (t + 1) // 2, t) for t in top]
    vs = list(itertools.product(*ds))
    return vs + vs[::7]


def models(it, key, atoms):
    """True: rows have the same key iff they have the same regressors, in all
    models; None: not decided; else two rows that are confused or separated"""
    names = sorted(atoms)
    n = len(names)
    for top in [(1,) * n, (2,) * n, tuple(1 + i % 2 for i in range(n)),
                tuple(2 - i % 2 for i in range(n)), (2 ** 8 - 1,) * n,
                (2 ** 8,) * n, (2 ** 11 - 1,) * n, (2 ** 13 - 1,) * n,
                (2 ** 16,) * n, (2 ** 32 - 1,) * n,
                (2 ** 20 - 1, 2 ** 20 - 1, 2 ** 24 - 1, 2 ** 38 - 1)[:n]
                + (0,) * (n - 4)]:
        vs = vectors(n, top)
        env = {atoms[m].id: Arr((len(vs),), [v[i] for v in vs], 'i8')
               for i, m in enumerate(names)}
        try:
            k = ND(env, {}, it)(key)
        except ShapeError as x:
            return 'regressor codes up to %s: error, %s' % (max(top), x)
        except Unknown:
            return None
        if not isinstance(k, Arr) or k.shape != (len(vs),):
            return None
        seen, back = {}, {}
        for v, x in zip(vs, k.data):
            if seen.setdefault(x, v) != v:
                return 'regressor values %s and %s (maxima %s) of %s get the ' \
                    'same group' % (seen[x], v, top, names)
            if back.setdefault(v, x) != x:
                return 'rows with the same regressor values %s are in ' \
                    'different groups' % (v,)
    return True


def exact_rule(ck):
    """the combined key, with the types of the arrays"""
    for cfg in CONFIGS[1:2] + CONFIGS[4:5]:
        u = Unit(ck, *cfg, exact=True)
        e = the_write(ck, 'key-types', u)
        if e is None:
            continue
        keys = {}
        for x in subterms(e.args[0]):
            if x.op == 'argsort' and any(y.op == 'reg'
                                         for y in subterms(x.args[0])):
                keys[x.args[0].id] = x.args[0]
        for key in keys.values():
            at = chains(key)
            r = models(u.it, key, at) if at else None
            if r is True:
                ck.holds('key-types', e, '%s: the keys neither overflow nor '
                         'lose precision in the models' % u.name)
            elif r is None:
                ck.undecided('key-types', e, show(key, 4))
            else:
                ck.violated('key-types', e, '%s: %s' % (u.name, r))
        if not keys:
            ck.undecided('key-types', e, '%s: no sorted key' % u.name)



def sampler_call(ck):
    for cfg in CONFIGS[1:2]:
        u = Unit(ck, *cfg)
        for x in u.it.events[u.n0:]:
            if x.kind == 'sample':
                ck.holds('sampler', x, 'sampling without replacement')
            if x.kind == 'rng' and 'choice' in x.name:
                ck.violated('sampler', x, 'sampling with %s' % x.name)


RULES = [threshold, sampler_call, exact_rule, leftover]
