"""Reproducible generation: the seed comes first, nothing else is random.

The generation is analysed symbolically: the global generator must be seeded
with the seed asked for, for every seed, before the first draw, and nothing
written, drawn or tested may contain the value of another source of chance
(clock, process number, an unseeded generator). The samplers draw from the
seeded generator only. The order in which the elements of a set of names come
out depends on the hash seed of the interpreter: the construction and
evaluation of the regressors and the generation are interpreted under two
opposite orders, which must give the same tables.
"""
import ast
from rules.common import *
from rules import sidelib
from sa.interp import LibError, Loop
from sa.pdlib import *
from rules.history import leftover

GEN = 'ABXpy.task:Task.generate_triplets'
S = 'ABXpy.sampling.sampler:'
ASSUMES = ['numpy.random.seed determines the later draws of the functions of '
           'numpy.random', 'strings hash in any order']
CHANCE = ('time.', 'uuid.', 'secrets.', 'random.', 'datetime.', 'os.urandom',
          'os.getpid', 'os.times', 'threading.get_ident')
OWN = ('RandomState', 'default_rng', 'Generator', 'Random', 'SystemRandom',
       'PCG64', 'MT19937', 'SeedSequence', 'Philox', 'SFC64')


def last(name):
    return name.split('.')[-1]


def source(e):
    """what the value of an event depends on: 'global', 'other' or None"""
    n = e.name or ''
    if n == 'numpy.random.seed':
        return None
    if n.startswith('numpy.random.'):
        if last(n) in OWN or last(n)[:1].isupper():
            return 'own'
        return 'global'
    if n.startswith(CHANCE):
        return 'own' if last(n) in OWN else 'other'
    if n in ('id', 'input'):
        return 'other'
    return None


def unset(e):
    """a generator made without a seed"""
    a = list(e.args) + list(e.kwargs.values())
    return not a or all(x is NONE for x in a)


def tainted(it, terms, bad):
    """first of the bad events whose value a term contains"""
    if not bad:
        return None
    ids = {e.result.id: e for e in bad if e.result is not None}
    for t in terms:
        for x in subterms(t):
            if x.id in ids:
                return ids[x.id]
            if x.op == 'ext' and x.args[0].startswith(CHANCE):
                return x.args[0]
    return None


def chance(it, events):
    out = []
    for e in events:
        s = source(e)
        if s == 'other' or s == 'own' and unset(e):
            out.append(e)
    return out


def evaluate(t, v):
    """truth of a condition on the seed for a value of the seed, or None"""
    if t.op == 'const':
        return bool(t.args[0])
    if t.op == 'not':
        r = evaluate(t.args[0], v)
        return None if r is None else not r
    if t.op in ('and', 'or'):
        rs = [evaluate(x, v) for x in t.args]
        if t.op == 'and':
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    x = [value(a, v) for a in t.args]
    if t.op == 'truth' and x[0] is not Ellipsis:
        return bool(x[0])
    if t.op in ('eq', 'lt', 'le') and Ellipsis not in x:
        if t.op == 'eq':
            return x[0] == x[1] and (x[0] is None) == (x[1] is None)
        if None in x:
            return None
        return x[0] < x[1] if t.op == 'lt' else x[0] <= x[1]
    return None


def value(t, v):
    if t is sym('seed'):
        return v
    if t is NONE:
        return None
    if t is sym('thr'):
        return 2
    if t.op == 'const' and isinstance(
            t.args[0], (int, Fraction, bool)):
        return t.args[0]
    return Ellipsis


SEEDS = (0, 1, 5, 2 ** 32 - 1)


def draws(e):
    return e.kind == 'sample' or source(e) == 'global'


def seeded(ck):
    """the generator is seeded before the first draw"""
    ck.repo.lookup(GEN)
    for thr in ('thr', None):
        it, st, t, n, st0 = generated(ck.repo, 1, 1, (), thr)
        ck.saw(it)
        ev = it.events[n:]
        first = next((e for e in ev if draws(e)), None)
        if first is None:
            if thr:
                ck.undecided('seeded', GEN, 'no draw was found')
                return
            continue
        seeds = [e for e in ev[:ev.index(first)]
                 if e.name == 'numpy.random.seed']
        later = [e for e in ev[ev.index(first):]
                 if e.name == 'numpy.random.seed']
        if not seeds:
            ck.violated('seeded', first.where, 'the triplets are drawn '
                        'without seeding the generator')
            return
        for e in later:
            a = list(e.args) + list(e.kwargs.values())
            if not a or a[0] is NONE:
                ck.violated('seeded', e.where, 'the generator is seeded '
                            'afresh between the draws')
                return
        e = seeds[-1]
        a = list(e.args) + list(e.kwargs.values())
        if len(a) != 1 or sym('seed') not in list(subterms(a[0])):
            ck.violated('seeded', e.where, 'the generator is not seeded with '
                        'the seed asked for')
            return
        g = e.guard()
        for v in SEEDS:
            r = evaluate(g, v)
            if r is False:
                ck.violated('seeded', e.where, 'the generator is not seeded '
                            'when the seed is %d' % v)
                return
            if r is None and g is not TRUE:
                # conditions of the run that do not concern the seed
                fg = first.guard()
                parts = set(x.id for x in conj(fg))
                rest = [x for x in conj(g) if x.id not in parts and
                        evaluate(x, v) is not True]
                if rest:
                    ck.undecided('seeded', e.where, 'condition %s' % show(
                        rest[0], 4))
                    return
        for v in SEEDS:
            x = given(a[0], v)
            bad = tainted(it, [x], chance(it, ev))
            if x is NONE or bad is not None:
                ck.violated('seeded', e.where, 'the generator is seeded with '
                            'chance when the seed is %d%s' % (
                                v, '' if bad is None else ' (%s)' % (
                                    getattr(bad, 'name', bad))))
                return
            if any(y.op == 'fresh' for y in subterms(x)):
                ck.undecided('seeded', e.where, 'seed %s' % show(x, 4))
                return
    ck.holds('seeded', GEN, 'the generator is seeded with the seed before '
             'the first draw, whatever the seed')


def given(t, v):
    """the seed passed on when the seed asked for is v"""
    if t.op == 'ite':
        c = evaluate(t.args[0], v)
        if c is not None:
            return given(t.args[1] if c else t.args[2], v)
    return t


def conj(g):
    return list(g.args) if g.op == 'and' else [g]


EFFECTS = ('write', 'create_dataset', 'add_dataset', 'to_csv')


def effects(events):
    """what is written, drawn or recorded"""
    return [e for e in events if e.kind in ('store', 'sample', 'rng',
                                            'h5write', 'regressor', 'filter')
            or e.kind == 'method' and last(e.name) in EFFECTS]


def sources(ck):
    """no other source of chance reaches the task"""
    it, st, t, n, st0 = generated(ck.repo, 1, 1, (), 'thr')
    bad = chance(it, it.events)
    eff = [e for e in effects(it.events) if e.name != 'numpy.random.seed']
    for e in eff:
        b = tainted(it, list(e.args) + list(e.kwargs.values()) +
                    [e.guard()], bad)
        if b is not None:
            ck.violated('sources', e.where, 'what is %s depends on %s' % (
                'drawn' if e.kind == 'sample' else 'written',
                getattr(b, 'name', b)))
            return
    ck.holds('sources', GEN, '%d effects depend on the arguments and the '
             'draws only' % len(eff))


def sampler(ck):
    """the samplers draw from the seeded generator only"""
    py = any(e.name == 'random.seed' and sym('seed') in e.args
             for e in generated(ck.repo, 1, 1, (), 'thr')[0].events)
    total = 0
    for what in ('sample_without_replacement', 'Sampler'):
        it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                    exact=True)
        if what == 'Sampler':
            ck.repo.lookup(S + 'IncrementalSampler')
            st = State()
            o = it.instantiate(S + 'IncrementalSampler',
                               [sym('N'), sym('K')], {}, st, None)
            res = it.call_method(o, '__next__', [], {}, st, None)
            res = it.snap(res, st)
        else:
            ck.repo.lookup(S + what)
            st, res = it.run(S + what, [sym('n'), sym('N')])
            res = it.snap(res, st)
        ck.saw(it)
        n = 0
        for e in it.events:
            if e.name == 'numpy.random.seed':
                a = list(e.args) + list(e.kwargs.values())
                if not a or a[0] is NONE or tainted(
                        it, a, chance(it, it.events)):
                    ck.violated('sampler', e.where, 'the sampler seeds the '
                                'generator with chance')
                    return
            s = source(e)
            if s == 'global':
                n += 1
            if s == 'own' and unset(e) or e.name.startswith(
                    'random.') and s == 'other' and not py and last(
                    e.name) not in ('seed', 'getstate', 'setstate'):
                ck.violated('sampler', e.where, 'the draws of %s do not '
                            'depend on the seed' % e.name)
                return
            if s in ('own', 'other') and e.name.startswith('random.') and \
                    last(e.name) == 'SystemRandom':
                ck.violated('sampler', e.where, 'the draws of %s do not '
                            'depend on the seed' % e.name)
                return
        bad = tainted(it, [res], [e for e in chance(it, it.events)
                                  if not e.name.startswith('random.')])
        if bad is not None:
            ck.violated('sampler', S + what, 'the sample depends on %s' % (
                getattr(bad, 'name', bad)))
            return
        if n == 0 and not py:
            ck.undecided('sampler', S + what, 'no draw of the sampler was '
                         'found')
            return
        total += n
    ck.holds('sampler', S, '%d draws, all from the seeded generator' % total)


def owned(ck):
    """no generator outlives a generation"""
    bad = []
    for name, m in sorted(ck.repo.modules.items()):
        if not name.startswith('ABXpy') or m.tree is None:
            continue
        made = {}
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call):
                f = ast.unparse(s.value.func)
                if last(f) in OWN and 'andom' in ast.unparse(s.value):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            made[t.id] = s
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.value, ast.Name) and x.value.id in made:
                    bad.append((m, f, x, x.attr == 'seed'))
    if any(b[3] for b in bad):
        ck.undecided('owned', bad[0][0].name, 'a generator of the module is '
                     'seeded')
    elif bad:
        m, f, x, _ = bad[0]
        ck.violated('owned', '%s:%s' % (m.name, f.name), 'draws from a '
                    'generator that outlives the generation (line %d)'
                    % x.lineno)
    else:
        ck.holds('owned', 'ABXpy', 'no function draws from a generator of '
                 'its module')


# ------------------------------------------------------- order of the names

NAMES = ['o', 'o2', 'a', 'a2', 'b', 'b2', 'z']
SAME = object()
CHOICES = [
    [], ['z_A'], ['z_A', 'o2_1', 'a_1', 'b', 'z_B', 'b2', 'a2_2', 'z_X'],
    ['z_X', 'z_B', 'z_A'], ['b2', 'o_1', 'o_2', 'a_2'],
]


def regressors(ck, regs, order, before=None):
    it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                exact=True)
    it.lib, it.set_order = Lib({}), order
    st = State()
    ck.saw(it)
    t = sidelib.trees(it, st)
    given = [it.new_list(st, [const(x) for x in l])
             for l in (['o'], ['a'], ['b'], regs)]
    if before is SAME:
        one_task(it, st, t, given, 'w')
    elif before is not None:
        one_task(it, st, t, given[:3] + [
            it.new_list(st, [const(x) for x in before])], 'w')
    return one_task(it, st, t, given, '')


def one_task(it, st, t, given, tag):
    out = []
    lib = it.lib
    rows = [[c + tag + str((i * 7 + j * 3) % 4) for j, c in enumerate(NAMES)]
            for i in range(8)]
    db = lib.term(it, DF(NAMES, rows), st)
    obj = it.instantiate(RM, [db, t] + given, {}, st, None)

    def term(x):
        return it.snap(x, st)
    out.append(('the names and levels of the regressors', term(
        it.call_method(obj, 'get_regressor_info', [], {}, st, None))))
    vals = lib.term(it, Ser(rows[0], NAMES), st)
    for f in ('by', 'on_across_by'):
        it.call_method(obj, 'set_%s_regressors' % f, [vals], {}, st, None)
    for s in 'ABX':
        it.call_method(obj, 'set_%s_regressors' % s, [
            vals, db, lib.term(it, [3, 1, 4], st)], {}, st, None)
    o = st.heap[obj.args[0]]
    for f in ('by', 'on_across_by', 'A', 'B', 'X'):
        out.append(('the regressors of ' + f, term(
            o.data[f + '_regressors'])))
    return out


def hashes(ck):
    """the codes of the regressors do not depend on the hash seed"""
    ck.repo.lookup(RM)
    n = 0
    for regs in CHOICES:
        try:
            one, two = [regressors(ck, regs, o) for o in (1, -1)]
        except Unknown as e:
            ck.undecided('hashes', RM, 'regressors %s: %s' % (regs, e))
            return
        except LibError as e:
            ck.undecided('hashes', RM, 'regressors %s fail: %s' % (regs, e))
            return
        for (what, x), (_, y) in zip(one, two):
            n += 1
            if x is not y:
                ck.violated('hashes', RM, '%s depend on the hash seed (%s '
                            'or %s)' % (what, show(x, 5)[:90],
                                        show(y, 5)[:90]))
                return
    ck.holds('hashes', RM, '%d results are the same in two opposite orders '
             'of the names' % n)


def history(ck):
    """a task does not depend on the tasks made before it"""
    n = 0
    for regs in CHOICES:
        for before in [SAME] + CHOICES[1:3]:
            try:
                one, two = [regressors(ck, regs, None, b)
                            for b in (None, before)]
            except (Unknown, LibError) as e:
                ck.undecided('history', RM, 'regressors %s after %s: %s' % (
                    regs, 'itself' if before is SAME else before, e))
                return
            for (what, x), (_, y) in zip(one, two):
                n += 1
                if x is not y:
                    ck.violated('history', RM, '%s differ when another task '
                                'was made before (%s or %s)' % (
                                    what, show(x, 5)[:90], show(y, 5)[:90]))
                    return
    ck.holds('history', RM, '%d results are the same after another task' % n)


def blocks(ck):
    """the blocks and their columns come in an order of their own"""
    for across, by in ((1, 1), (2, 2)):
        evs = []
        for o in (1, -1):
            n, Loop.n = Loop.n, 10 ** 7
            it = generated(ck.repo, across, by, (), 'thr', order=o)[0]
            Loop.n = n
            ck.saw(it)
            evs.append([(e, tuple(a.id for a in e.args)) for e in effects(
                it.events)])
        groups = []
        for l in evs:
            groups.append({x.id: x for e, _ in l for a in e.args
                           for x in subterms(a) if x.op == 'groupby'})
        d = [x for x in groups[0].values() if x.id not in groups[1]]
        if d:
            ck.violated('blocks', GEN, 'the blocks depend on the hash seed: '
                        '%s' % show(d[0], 5)[:120])
            return
        if [x[1] for x in evs[0]] != [x[1] for x in evs[1]]:
            ck.undecided('blocks', GEN, 'the task could not be shown the '
                         'same in two orders of the names')
            return
    ck.holds('blocks', GEN, 'the same effects in two opposite orders of '
             'the names')


RULES = [seeded, sources, sampler, owned, hashes, history, blocks, leftover]
