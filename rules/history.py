"""Nothing is left of one use of an object in the next.

`leftover`: the attributes of the task that its generation assigns are replaced
by symbols before a generation; what is written must not depend on them when
they hold arguments or totals of the generation before.
`again`: a method of a manager is called twice; the result of the second call
must be what the same call gives on a new manager, for every subset of the
arguments that is the same in both calls.
"""
import itertools
from rules.sidelib import *
from sa.interp import Loop

GEN = 'ABXpy.task:Task.generate_triplets'
ARGS = ('out', 'thr', 'tmp', 'seed')


def attempt(repo, across, by, thr, old=()):
    it, st, t = task(repo, across, by, ())
    n = len(it.events)
    if old:
        o = st.heap[t.args[0]]
        d = dict(o.data)
        for k in old:
            d[k] = sym('left:' + k)
        st.heap[t.args[0]] = Obj(o.kind, d, o.cls)
    it.decide = lambda c, i: decide_run(c, thr)
    it.call_method(t, 'generate_triplets', [], {
        'output': sym('out'), 'threshold': NONE if thr is None
        else sym('thr'), 'tmpdir': sym('tmp'), 'seed': sym('seed')}, st, None)
    it.decide = None
    return it, st, t, it.events[n:]


def has(terms, s):
    return any(x is s for a in terms for x in subterms(a))


def leftover(ck):
    """a generation does not depend on the one before"""
    from rules.c23 import effects
    rule = 'leftover'
    ck.repo.lookup(GEN)
    total = 0
    for across, by, thr in ((1, 1, 'thr'), (1, 1, None), (2, 2, 'thr')):
        it, st, t, ev = attempt(ck.repo, across, by, thr)
        ck.saw(it)
        keys = sorted({e.name for e in ev if e.kind == 'setattr'
                       and e.recv is t})
        final = it.obj(st, t).data
        values = {k: it.snap(final[k], st) for k in keys if k in final}
        it2, st2, t2, ev2 = attempt(ck.repo, across, by, thr, keys)
        for e in effects(ev2):
            total += 1
            terms = list(e.args) + list(e.kwargs.values()) + [e.guard()]
            for k in keys:
                s = sym('left:' + k)
                if not has(terms, s):
                    continue
                grows = any(x.kind == 'setattr' and x.name == k
                            and has(x.args, s) for x in ev2)
                kept = k in values and any(
                    has([values[k]], sym(a)) for a in ARGS)
                what = 'the %s of a second generation depends on the ' \
                    'attribute %s left by the first' % (e.name, k)
                if grows or kept:
                    ck.violated(rule, e.where, what)
                else:
                    ck.undecided(rule, e.where, what)
                return
    ck.holds(rule, GEN, '%d effects do not depend on what an earlier '
             'generation left' % total)


def steady(ck, cls, kinds, calls, attr=None):
    """calls: [(method, number of arguments)]"""
    rule = 'again'
    n = 0
    for kind, vars_ in sorted(kinds.items()):
        m = Manager(ck, cls, {'f0': vars_} if cls == FM else
                    {v: [v] for v in vars_})
        if m.rejected:
            continue
        for name, k in calls:
            f = m.it.find_method(cls, name)
            if f is None:
                continue
            for same in itertools.product((False, True), repeat=k):
                first = [sym('w%d' % i) for i in range(k)]
                second = [first[i] if same[i] else sym('v%d' % i)
                          for i in range(k)]
                diff = {s for i, s in enumerate(first) if not same[i]}

                def differ(c, it):
                    if c.op in ('eq', 'is') and NONE in c.args and any(
                            x in first or x in second for y in c.args
                            for x in subterms(y)):
                        return False
                    if c.op in ('eq', 'is') and not all(same):
                        a = [{x for x in subterms(y) if x in diff}
                             for y in c.args]
                        b = [any(x.op == 'sym' and x.args[0][:1] == 'v'
                                 and x.args[0][1:].isdigit()
                                 for x in subterms(y)) for y in c.args]
                        if a[0] and b[1] and not b[0] and not a[1] or \
                                a[1] and b[0] and not b[1] and not a[0]:
                            return False
                    return None
                got = []
                for calls_ in ([first, second], [second]):
                    st = m.st.copy()
                    z, Loop.n = Loop.n, 10 ** 7
                    m.it.decide = differ
                    for j, a in enumerate(calls_):
                        if j == len(calls_) - 1:
                            Loop.n = 2 * 10 ** 7
                        r = m.it.call_method(m.obj, name, list(a), {}, st,
                                             None)
                    m.it.decide = None
                    Loop.n = z
                    if attr is None:
                        got.append(m.it.snap(r, st))
                    else:
                        o = st.heap[m.obj.args[0]]
                        got.append(m.it.snap(o.data[attr(name)], st))
                n += 1
                if got[0] is got[1]:
                    continue
                left = [s for s in diff if has([got[0]], s)]
                what = '%s gives on its second call %s, on a new object %s' \
                    % (name, show(got[0], 6)[:110], show(got[1], 6)[:110])
                if left:
                    ck.violated(rule, cls + '.' + name, what)
                else:
                    ck.undecided(rule, cls + '.' + name, what)
                return
    ck.holds(rule, cls, '%d second calls give what first calls give' % n)


REGS2 = {'by': ['b', 'b2'], 'block': ['o', 'a'], 'A': ['z_A', 'o2_A'],
         'B': ['o_B', 'z_B'], 'X': ['a_X', 'z_X']}
SET = [('set_by_regressors', 1), ('set_on_across_by_regressors', 1),
       ('set_A_regressors', 3), ('set_B_regressors', 3),
       ('set_X_regressors', 3)]
FILT = [('by_filter', 1), ('generic_filter', 2), ('on_across_by_filter', 1),
        ('A_filter', 3), ('B_filter', 3), ('X_filter', 3), ('ABX_filter', 3)]


def regressors_again(ck):
    """the regressors of a block do not depend on the block before"""
    ck.repo.lookup(RM)
    steady(ck, RM, REGS2, SET, lambda n: n[4:])


def filters_again(ck):
    """the result of a filter does not depend on its evaluations before"""
    from rules.c04 import KINDS
    ck.repo.lookup(FM)
    steady(ck, FM, KINDS, FILT)


def names(ck):
    """the columns of the regressors have names of their own"""
    rule = 'names'
    f = RM + '.get_regressor_info'
    ck.repo.lookup(f)
    n = 0
    kinds = [['b'], ['o_A'], ['z_A'], ['z_B'], ['z_X'], ['a_X', 'z_X']]
    for k in range(1, 4):
        for combo in itertools.product(kinds[:4] if k == 3 else kinds,
                                       repeat=k):
            for outputs in (1, 2) if k < 3 else (2,):
                ops = {'f%d' % i: v for i, v in enumerate(combo)}
                m = Manager(ck, RM, ops, outputs=outputs)
                if m.rejected:
                    continue
                r = m.call('get_regressor_info')
                l = r.args[0] if r.op == 'tuple' else r
                if l.op == 'lcat':
                    parts = list(l.args)
                else:
                    parts = [l]
                out = []
                for x in parts:
                    if x.op not in ('list', 'li'):
                        ck.undecided(rule, f, 'names %s' % show(l, 4)[:100])
                        return
                    out += x.args[1:] if x.op == 'li' else x.args
                if any(x.op != 'const' for x in out):
                    ck.undecided(rule, f, 'names %s' % show(l, 4)[:100])
                    return
                out = [x.args[0] for x in out]
                n += 1
                twice = sorted({x for x in out if out.count(x) > 1})
                if twice:
                    ck.violated(rule, f, 'two columns of regressors are '
                                'called %s' % twice[0])
                    return
    ck.holds(rule, f, '%d lists of regressors have distinct names' % n)
