"""Specifications without a meaning are refused, tasks without triplets say so.

`specification`: the constructor of the task is interpreted on model item files
(sa.pdlib) up to the preparation of the blocks, for well-formed and ill-formed
specifications; an ill-formed one has to raise, a well-formed one must not.
`empty`: on the value graph of the generation every effect is conditional on
the number of triplets announced being non-zero, and the warning on its being
zero.
"""
import ast
from rules.common import *
from rules.c26 import LibError
from sa.pdlib import *
from rules.c23 import effects, last
from sa.drive import decide_run, task
from sa.interp import Dead

TASK = 'ABXpy.task:Task'
INIT = TASK + '.__init__'
GEN = TASK + '.generate_triplets'
TREE = 'ABXpy.misc.tinytree:Tree'
LATER = ['_init_prepare_database', '_init_prepare_types',
         'compute_statistics']
ASSUMES = ['pandas operations as documented (see C26)',
           'lists of attributes are given as lists of names']
ROWS = 'f0 0 1 a x 1\nf1 1 2 b y 1\nf2 2 3 a y 2\nf3 3 4 b x 2\n'


def item(cols):
    return '#file onset offset #%s\n%s' % (' '.join(cols), ROWS)


GOOD = {'d.item': item(['p', 's', 'g'])}
AUX = dict(GOOD, **{'d.s': 's age\nx 20\ny 30\n'})


def spec(on, across=None, by=None, files=GOOD, name='d.item'):
    return on, across, by, files, name


ACCEPTED = [
    ('on alone', spec('p')), ('on and across', spec('p', ['s'])),
    ('on and by', spec('p', None, ['g'])),
    ('on, across and by', spec('p', ['s'], ['g'])),
    ('across given by its name', spec('p', 's')),
    ('by given by its name', spec('p', None, 'g')),
    ('two across attributes', spec('p', ['s', 'g'])),
    ('two by attributes', spec('p', [], ['s', 'g'])),
    ('empty lists', spec('p', [], [])),
    ('an attribute of an auxiliary file', spec('age', ['p'], ['g'], AUX)),
    ('across an attribute of an auxiliary file', spec('p', ['age'], [], AUX)),
    ('by an attribute of an auxiliary file', spec('p', ['g'], ['age'], AUX)),
    ('a name with digits and capitals',
     spec('p1', ['Sp-2'], ['g.x'], {'d.item': item(['p1', 'Sp-2', 'g.x'])})),
]
REFUSED = [
    ('no item file', spec('p', ['s'], ['g'], {}, 'd.item')),
    ('no item file, auxiliary files', spec('p', ['s'], [], {
        'd.s': 's age\nx 20\ny 30\n'}, 'd.item')),
    ('an on attribute that is not in the item file', spec('q')),
    ('an across attribute that is not in the item file', spec('p', ['q'])),
    ('a second across attribute that is not in the item file',
     spec('p', ['s', 'q'])),
    ('a by attribute that is not in the item file', spec('p', ['s'], ['q'])),
    ('a second by attribute that is not in the item file',
     spec('p', ['s'], ['g', 'q'])),
    ('an across name that is not in the item file', spec('p', 'q')),
    ('on a column of the locations', spec('onset')),
    ('across a column of the locations', spec('p', ['file'])),
    ('by a column of the locations', spec('p', ['s'], ['file'])),
    ('several on attributes', spec(['p', 's'])),
    ('no on attribute', spec(None)),
] + [
    ('an item file with a column named %s' % n,
     spec('p', a, b, {'d.item': item(cols)}))
    for n, cols in (('s_x', ['p', 's_x', 'g']), ('p_', ['p', 's', 'p_']),
                    ('_g', ['p', '_g', 's']), ('p_A', ['p', 'p_A', 's']),
                    ('s#', ['p', 's', 's#']))
    for a, b in ((None, None), ([cols[1]], None), (None, [cols[2]]))
] + [
    ('an item file whose on column is named p_q',
     spec('p_q', ['s'], ['g'], {'d.item': item(['p_q', 's', 'g'])})),
    ('an auxiliary file with a column named age_x',
     spec('p', ['s'], [], dict(GOOD, **{'d.s': 's age_x\nx 20\ny 30\n'}))),
    ('an auxiliary file with a second column named sex_A',
     spec('p', ['s'], [], dict(GOOD, **{
         'd.s': 's age sex_A\nx 20 m\ny 30 f\n'}))),
    ('an auxiliary file with a column named #by',
     spec('p', ['s'], [], dict(GOOD, **{'d.s': 's #by\nx 20\ny 30\n'}))),
]


class Spec(object):
    """the constructor on one specification"""

    def __init__(self, ck, on, across, by, files, name):
        it = self.it = Interp(ck.repo, opaque=set(),
                              opaque_classes=OPAQUE_CLASSES, exact=True)
        it.lib = Lib(files)
        self.later = []

        def add(it, args, kw, st, nd):
            for x in it.concrete_items(it.simp(args[1], st), st):
                it.call_method(args[0], 'addChild', [x], {}, st, nd)
            return NONE
        it.natives[TREE + '.addChildrenFromList'] = add
        for f in LATER:
            g = it.find_method(TASK, f)
            if g is None:
                continue

            def skip(it, args, kw, st, nd, f=f):
                self.later.append(f)
                return NONE
            it.natives[TASK + '.' + f] = skip
        ck.saw(it)
        st = State()

        def val(x):
            if isinstance(x, list):
                return it.new_list(st, [const(y) for y in x])
            return const(x)
        self.dead = False
        try:
            it.instantiate(TASK, [const(name), val(on)], {
                'across': val(across), 'by': val(by)}, st, None)
        except Dead:
            self.dead = True


def checks_later(repo):
    """the steps that are not interpreted refuse something themselves"""
    for f in LATER:
        try:
            d = repo.lookup(TASK + '.' + f)
        except Exception:
            continue
        for n in ast.walk(d[1]):
            if isinstance(n, (ast.Raise, ast.Assert)):
                return True
    return False


def specification(ck):
    rule = 'specification'
    ck.repo.lookup(INIT)
    n, und = 0, None
    for cases, want in ((ACCEPTED, True), (REFUSED, False)):
        for what, s in cases:
            try:
                r = Spec(ck, *s)
                if r.dead:
                    raise Unknown('the constructor does not end')
                got = True
            except LibError as e:
                got, why = False, str(e)
            except Unknown as e:
                ck.undecided(rule, INIT, '%s: %s' % (what, e))
                return
            if got == want:
                n += 1
                continue
            if got and (not r.later or 'not in the item' in what or
                        ' locations' in what or checks_later(ck.repo)):
                # grouping by an unknown column fails
                und = '%s: accepted so far' % what
                continue
            ck.violated(rule, INIT, 'a task over %s is %s' % (
                what, 'accepted' if got else 'refused: ' + why))
            return
    if und:
        ck.undecided(rule, INIT, und)
    else:
        ck.holds(rule, INIT, '%d specifications' % n)


def run_with(ck, total, across, thr):
    it, st, t = task(ck.repo, across, 1, ())
    o = st.heap[t.args[0]].data['stats']
    if o.op != 'ref' or st.heap[o.args[0]].kind != 'dict':
        raise Unknown('statistics %s' % show(o, 3))
    d = st.heap[o.args[0]]
    if not any(e[2] is const('nb_triplets') for e in d.data):
        raise Unknown('no total number of triplets')
    total0 = it.snap([e[3] for e in d.data
                      if e[2] is const('nb_triplets')][0], st)
    st.heap[o.args[0]] = Obj('dict', tuple(
        (e[0], TRUE, e[2], const(total)) if e[2] is const('nb_triplets')
        else e for e in d.data))
    n = len(it.events)
    it.decide = lambda c, i: decide_run(c, thr)
    try:
        it.call_method(t, 'generate_triplets', [], {
            'output': sym('out'), 'threshold': NONE if thr is None
            else sym('thr'), 'tmpdir': sym('tmp')}, st, None)
    except Dead:
        pass
    it.decide = None
    ck.saw(it)
    return total0, it.events[n:]


def made(ev):
    return [e for e in effects(ev) if e.kind not in ('rng', 'regressor',
                                                     'filter')]


def warned(ev):
    return [e for e in ev if e.kind in ('call', 'xcall') and
            last(e.name) == 'warn' or e.kind == 'warn']


def empty(ck):
    """a task without triplets is announced, and makes no file"""
    rule = 'empty'
    ck.repo.lookup(GEN)
    n = 0
    for across in (0, 1, 2):
        for thr in (None, 'thr'):
            try:
                r0, none = run_with(ck, 0, across, thr)
                _, some = run_with(ck, 7, across, thr)
            except Unknown as e:
                ck.undecided(rule, GEN, str(e))
                return
            w, m = warned(none), made(none)
            errors = [e for e in none if e.kind == 'raise']
            if errors or not made(some):
                ck.undecided(rule, GEN, 'errors at %s' % (
                    [e.where for e in errors],))
                return
            if m and not w:
                ck.violated(rule, m[0].where, 'a task without triplets is '
                            'generated like any other, without a warning')
                return
            if w and not m and not open_(w[0]):
                n += 1
            elif w and m and not open_(w[0]) and \
                    not open_(m[0]):
                ck.violated(rule, m[0].where, 'a file is made although the '
                            'task has no triplets')
                return
            elif not w and not m:
                ck.violated(rule, GEN, 'a task without triplets is passed '
                            'over without a warning')
                return
            elif w and m and other_total(w[0], r0):
                ck.violated(rule, w[0].where, 'the task is announced to be '
                            'empty if %s' % show(other_total(w[0], r0), 4))
                return
            else:
                ck.undecided(rule, GEN, 'warning at %s, effects at %s' % (
                    [e.where for e in w], [e.where for e in m][:2]))
                return
    ck.holds(rule, GEN, '%d generations without triplets warn and make '
             'nothing' % n)


def other_total(e, total):
    """the event depends on another number than that of triplets"""
    for c, b, o in e.pc:
        if o == 'branch' and b and c.op == 'eq' and c.args[1] is ZERO and \
                c.args[0].op == 'sum' and c.args[0] is not total and \
                not opaque_in(c.args[0]):
            return c
    return None


def open_(e):
    """the event depends on a condition"""
    return any(o == 'branch' for c, b, o in e.pc)


RULES = [specification, empty]
