"""Analysis entry points: abstract instances of the repository's classes."""
from .terms import *
from .interp import Interp, State, Obj, Func
from .repo import Repo, AnalysisBroken

ON = 'ON'
OPAQUE = {'fit_integer_type'}
OPAQUE_CLASSES = {'H52NP', 'NP2H5', 'H5IO', 'ProgressDisplay', 'H5Handler'}
FM = 'ABXpy.sideop.filter_manager:FilterManager'
RM = 'ABXpy.sideop.regressor_manager:RegressorManager'
# names of the abstract regressors, grouped as the manager groups them
REGS = {'by': [['rby1', 'rby2']], 'on_across_by': [['roab1'], ['roab2']],
        'A': [['rA1', 'rA2'], ['rA3']], 'B': [['rB1'], ['rB2', 'rB3']],
        'X': [['rX1'], ['rX2']], 'ABX': []}


def load_native(it, args, kw, st, node):
    it.event('load', 'database.load', None, args, kw, st, node)
    return tup(sym('db'), sym('hierarchy'), sym('feat_db'))


def need(repo, dotted):
    repo.lookup(dotted)


def filter_natives(it, on):
    """on: set of the roles among A, B, X, ABX that have filters"""
    def new(it, args, kw, st, node):
        it.event('new', FM, None, args, kw, st, node)
        d = {}
        for r in ('A', 'B', 'X', 'ABX', 'by', 'on_across_by', 'generic'):
            d[r] = it.new_list(st, [sym('filter_' + r)]
                               if r in on or r in ('by', 'on_across_by',
                                                   'generic') else [])
        return it.alloc(st, Obj('inst', d, FM))
    it.natives[FM] = new

    def meth(name, fn):
        def f(it, args, kw, st, node):
            q = it.find_method(FM, name)
            b = it.bind_terms(q, list(args), kw, st)
            if b is None:
                it.event('badcall', name, None, args, kw, st, node)
                return it.fresh(name)
            v = [it.snap(x, st) for k, x in b.items() if k != 'self']
            e = it.event('filter', name, None, v, {}, st, node)
            e.result = fn(*v)
            return e.result
        it.natives['%s.%s' % (FM, name)] = f
    meth('by_filter', lambda v: mk('truth', mk('byok', v)))
    meth('on_across_by_filter', lambda v: mk('truth', mk('oabok', v)))
    meth('generic_filter', lambda v, db: mk('filtered', v, db))
    for r in ('A', 'B', 'X', 'ABX'):
        meth(r + '_filter', lambda v, db, idx, r=r: mk('keep', r, v, db, idx))


def regressor_natives(it):
    def new(it, args, kw, st, node):
        it.event('new', RM, None, args, kw, st, node)
        d = {'ABX': it.new_list(st, [])}
        for r, ns in REGS.items():
            d[r + '_names'] = it.new_list(st, [it.new_list(
                st, [const(n) for n in l]) for l in ns])
            d[r + '_regressors'] = it.new_list(st, [])
        return it.alloc(st, Obj('inst', d, RM))
    it.natives[RM] = new

    def setter(r):
        name = 'set_%s_regressors' % r

        def f(it, args, kw, st, node):
            q = it.find_method(RM, name)
            b = it.bind_terms(q, list(args), kw, st)
            if b is None:
                it.event('badcall', name, None, args, kw, st, node)
                return NONE
            v = [it.snap(x, st) for k, x in b.items() if k != 'self']
            it.event('regressor', name, None, v, {}, st, node)
            self = args[0]
            o = st.heap[self.args[0]]
            d = dict(o.data)
            d[r + '_regressors'] = it.new_list(st, [it.new_list(
                st, [mk('reg', r, n, *v) for n in l]) for l in REGS[r]])
            st.heap[self.args[0]] = Obj('inst', d, o.cls)
            return NONE
        it.natives['%s.%s' % (RM, name)] = f
    for r in REGS:
        setter(r)

    def info(it, args, kw, st, node):
        return tup(sym('reg_names'), sym('reg_indexes'))
    it.natives['%s.get_regressor_info' % RM] = info


def func(repo, dotted):
    m, node, cls = repo.lookup(dotted)
    return Func(m, node, None, cls if cls is not node else None)


SWR = 'ABXpy.sampling.sampler:sample_without_replacement'


def sample_native(it, args, kw, st, node):
    b = it.bind_terms(func(it.repo, SWR), list(args), kw, st)
    if b is None:
        it.event('badcall', SWR, None, args, kw, st, node)
        return it.fresh('sample')
    v = [it.snap(x, st) for x in b.values()]
    e = it.event('sample', SWR, None, v, {}, st, node)
    it.uniq += 1
    e.result = mk('sample', v[0], v[1])
    return e.result


def task(repo, across=1, by=1, filters=(), verbose=FALSE, extra_opaque=(),
         exact=False, classes=None, order=None):
    need(repo, 'ABXpy.task:Task')
    it = Interp(repo, opaque=(set() if exact else OPAQUE) | set(extra_opaque),
                opaque_classes=OPAQUE_CLASSES if classes is None else classes,
                exact=exact)
    it.set_order = order
    it.natives['ABXpy.database.database:load'] = load_native
    filter_natives(it, set(filters))
    regressor_natives(it)
    it.natives[SWR] = sample_native
    st = State()
    acr = it.new_list(st, [const('AC%d' % (i + 1)) for i in range(across)])
    byl = it.new_list(st, [const('BY%d' % (i + 1)) for i in range(by)])
    t = it.instantiate('ABXpy.task:Task', [sym('item'), const(ON)],
                       {'across': acr if across else NONE,
                        'by': byl if by else NONE,
                        'filters': sym('filters'),
                        'regressors': sym('regressors'),
                        'verbose': verbose}, st, None)
    return it, st, t


_cache = {}


def generated(repo, across=1, by=1, filters=(), thr=None, exact=False,
              classes=None, order=None):
    """analysis of Task(...) followed by generate_triplets(...)"""
    k = (repo.root, across, by, tuple(filters), thr, exact,
         None if classes is None else tuple(sorted(classes)), order)
    if k not in _cache:
        it, st, t = task(repo, across, by, filters, exact=exact,
                         classes=classes, order=order)
        n = len(it.events)
        st0 = st.copy()
        it.decide = lambda c, i: decide_run(c, thr)
        it.call_method(t, 'generate_triplets', [], {
            'output': sym('out'), 'threshold': NONE if thr is None
            else sym('thr'), 'tmpdir': sym('tmp'), 'seed': sym('seed')},
            st, None)
        it.decide = None
        _cache[k] = (it, st, t, n, st0)
    return _cache[k]


def decide_run(c, thr):
    """assumptions of the normal run: an output name is given, it does not
    exist, the task has triplets"""
    if c.op == 'eq' and c.args[0] is sym('out') and c.args[1] is NONE:
        return False
    if c.op == 'exists':
        return False
    if c.op == 'eq' and c.args[0] is sym('thr') and c.args[1] is NONE:
        return False
    return None
