"""Items of the triplets and rows of the features are the same objects.

Three links, each evaluated on the value graph in small models of data frames
whose rows carry an identity: (1) loading keeps the attribute rows and the
location rows of the item file in step; (2) in each by level the row at
position k of the feature table is the location of the item numbered k, also
when the labels have gaps and when generic filters remove items; (3) the job
computes the distance of a pair from the rows its two numbers designate.
"""
from rules.featlib import *
from rules.tasklib import *

ASSUMES = ['an hdf5 feature table is read back with the rows in the order '
           'they were stored']
TASK = 'ABXpy/task.py'


# ---------------------------------------------------------------- (2) task

def models():
    for labels in ([0, 1, 2, 3, 4, 5], [0, 2, 3, 5, 8, 9]):
        for key in ('p', 'q'):
            for drop in ((), (0,), (1,), (0, 2)):
                yield labels, key, drop


def task_rows(ck):
    for filters in ((), ('by',), ('generic',)):
        rows_of(ck, filters)


def rows_of(ck, filters):
    try:
        it, st, t, n, st0 = generated(ck.repo, 1, 1, filters)
    except Exception as x:
        ck.undecided('feature-rows', TASK, 'filters %s: %r' % (filters, x))
        return
    ck.saw(it)
    items, feats = stores(it)
    site = TASK + ':_init_prepare_database'
    if not items or not feats:
        ck.undecided('feature-rows', site, 'tables of the by levels not '
                     'recognised')
        return
    for fe in feats:
        key, val = fe.args[0], fe.args[1]
        for ie in items:
            compare(ck, ie, fe)


def stores(it):
    """dictionary stores of the item tables and of the feature tables"""
    items, feats = [], []
    for e in it.events:
        if e.kind == 'dictset' and len(e.args) == 2:
            v = e.args[1]
            fd = any(x is sym('feat_db') for x in subterms(v))
            if fd:
                feats.append(e)
            elif v.op in ('filtered', 'reindexed', 'gframe') and any(
                    x.op == 'gframe' for x in subterms(v)):
                items.append(e)
    return items, feats


def compare(ck, ie, fe):
    n, bad, und = 0, None, None
    for labels, key, drop in models():
        by = ['p', 'q', 'p', 'q', 'p', 'q']
        db = Tab({'BY1': by, 'ON': list('uvwxyz'), 'AC1': list('abcdef')},
                 labels)
        fdb = Tab({'file': list('ABCDEF'), 'onset': list(range(6)),
                   'offset': list(range(1, 7))}, labels)
        gk = [x for x in subterms(ie.args[1]) if x.op == 'gkey']
        gf = [x for x in subterms(fe.args[1]) if x.op == 'gkey']
        if not gk:
            und = 'group key'
            break

        def filt(f, t):
            x = f(t.args[-1])
            if not isinstance(x, Tab):
                raise Unknown('filtered')
            keep = [i for i in range(len(x)) if i not in drop]
            return x.take(keep)
        env = {g.id: key for g in gk + gf}
        env[sym('db').id] = db
        env[sym('feat_db').id] = fdb
        f = Finite(env, dict(HOOKS, filtered=filt))
        try:
            a = f(ie.args[1])
        except Unknown as u:
            und = 'items: %s' % u
            break
        try:
            b = f(fe.args[1])
        except Unknown as u:
            und = 'features: %s' % u
            break
        except (KeyError, IndexError) as x:
            bad = 'with labels %s the feature rows do not exist (%r)' % (
                labels, x)
            break
        if not isinstance(a, Tab) or not isinstance(b, Tab):
            und = 'not a table'
            break
        n += 1
        for lab, ident in zip(a.labels, a.ids):
            if lab >= len(b) or b.ids[lab] != ident:
                bad = 'item %s of a by level is row %s of the item file, its '\
                    'features are those of %s (file labels %s, items %s '\
                    'removed by generic filters)' % (
                        lab, ident, 'row %s' % b.ids[lab] if lab < len(b)
                        else 'no row', labels, drop)
                break
        if bad is None and b.labels != list(range(len(b))):
            bad = 'the stored feature table is not numbered 0..n-1: the ' \
                'accessor, keyed by label, misses items'
        if bad:
            break
    if bad:
        ck.violated('feature-rows', fe, bad)
    elif und:
        ck.undecided('feature-rows', fe, und)
    else:
        ck.holds('feature-rows', fe, 'rows agree in %d models' % n)


# --------------------------------------------------------------- (2b) store

def stored(ck):
    it, st, t, n, st0 = generated(ck.repo, 1, 1, ())
    items, feats = stores(it)
    if not feats:
        return
    vals = {e.args[1].id: e.args[0] for e in feats}
    outs = []
    for e in it.events:
        if e.kind in ('method', 'store', 'call', 'ucall') and e.args:
            for v in e.args:
                if isinstance(v, T) and v.id in vals and e.kind != 'dictset':
                    outs.append((e, v))
    site = TASK + ':_generate_pairs'
    if not outs:
        ck.undecided('feature-store', site, 'write of the feature tables not '
                     'recognised')
        return
    for e, v in outs:
        if e.kind == 'method' and e.name not in ('append', 'put', 'to_hdf',
                                                 '__setitem__'):
            continue
        path = [a for a in e.args if a is not v and (
            a.op in ('concat', 'str') or a.op == 'const' and isinstance(
                a.args[0], str))]
        if not path:
            ck.undecided('feature-store', e, 'path')
            continue
        p = path[0]
        keys = [x for x in subterms(p) if x.op == 'gkey']
        try:
            env = {k.id: 'lev' for k in keys}
            s = Finite(env, HOOKS)(p)
        except Unknown as u:
            ck.undecided('feature-store', e, 'path %s' % u)
            continue
        own_ = [x for x in subterms(vals[v.id]) if x.op == 'gkey']
        if s.strip('/') != 'feat_dbs/lev':
            ck.violated('feature-store', e, 'the feature table of level "lev" '
                        'is stored as %r' % s)
        elif {k.id for k in keys} != {k.id for k in own_}:
            ck.undecided('feature-store', e, 'level keys differ')
        else:
            ck.holds('feature-store', e, 'stored under the name of its by '
                     'level')


# ----------------------------------------------------------------- (3) jobs

def job_rows(ck):
    it = job_run(ck)
    site = DPY + ':run_distance_job'
    times = {c: [1, 2, 3, 4] for c in 'wxyz'}
    feats = {c: [(c, i) for i in range(4)] for c in 'wxyz'}
    tab = Tab({'file': list('wxyz') + ['w'], 'onset': [1, 2, 1, 3, 4],
               'offset': [2, 4, 1, 4, 4]})

    def feat(k):
        c, a, b = (tab.cols[x][k] for x in ('file', 'onset', 'offset'))
        return [(c, t - 1) for t in range(a, b + 1)]
    pairs = [[(0, 1)], [(1, 3), (3, 1)], [(4, 0), (2, 4), (4, 2)],
             [(3, 3), (2, 1)], [(0, 4), (1, 4), (2, 4), (3, 4)]]
    n, bad, und, calls = 0, None, None, set()
    for lo in (0, 3):
        for ps in pairs:
            base = 5
            keys = [a + base * b for a, b in ps]
            m = JobModel(it, tab, keys, base, times, feats, lo)
            try:
                got = m.calls()
            except Unknown as u:
                und = str(u)[:200]
                break
            except Undecodable:
                continue
            except (KeyError, IndexError, TypeError) as x:
                bad = 'the lookup of the items of the pairs %s fails: %r' % (
                    ps, x)
                break
            n += 1
            for e, i, ops in got:
                calls.add(e)
                want = [feat(ps[i][0]), feat(ps[i][1])]
                if sorted(map(str, ops)) != sorted(map(str, want)):
                    site = e
                    bad = 'the distance of items %s and %s is computed from '\
                        'the features %s' % (ps[i] + (ops,))
        if bad or und:
            break
    if bad:
        ck.violated('pair-features', site, bad)
    elif und:
        ck.undecided('pair-features', site, und)
    else:
        for e in calls:
            ck.holds('pair-features', e, 'operands are the features of the '
                     'two items in %d models' % n)


# ------------------------------------------------------------------ (1) load

def loading(ck):
    it = interp(ck.repo, opaque=['load_aux_dbs'])
    r = it.run('ABXpy.database.database:load', [sym('fn'), TRUE])
    ck.saw(it)
    site = 'ABXpy/database/database.py:load'
    res = r[1]
    if res is None or res.op not in ('tuple', 'ite'):
        ck.undecided('load-rows', site, 'result %s' % show(res, 3))
        return
    n, bad, und = 0, None, None
    for nulls in ((), (0,), (1, 3), (2,)):
        for gap in ((), (1,)):
            v = load_model(res, nulls, gap)
            if isinstance(v, str):
                und = v
                break
            if isinstance(v, Exception):
                bad = 'loading fails: %r' % v
                break
            db, fdb = v
            n += 1
            if db.labels != fdb.labels or db.ids != fdb.ids:
                bad = 'attribute rows %s, location rows %s when rows %s lack '\
                    'a value' % (db.ids, fdb.ids, nulls)
            elif set(nulls) & set(db.ids):
                bad = 'rows %s with missing values are kept' % (nulls,)
            elif set(db.ids) != set(range(5)) - set(nulls) - set(gap):
                bad = 'complete rows are lost: %s of 5 remain' % db.ids
        if und or bad:
            break
    if bad:
        ck.violated('load-rows', site, bad)
    elif und:
        ck.undecided('load-rows', site, und)
    else:
        ck.holds('load-rows', site, 'attributes and locations in step in %d '
                 'models' % n)


def load_model(res, nulls, gap):
    # rows of `gap` are blank: dropped when the table is read
    att = ['u', 'v', 'w', 'x', 'y']
    raw = Tab({'#file': list('ABCDE'), 'onset': [0, 1, 2, 3, 4],
               'offset': [1, 2, 3, 4, 5], '#item': att, 'talker': list(
                   'stuvw')})
    raw = raw.take([i for i in range(5) if i not in gap])

    def xcall(f, t):
        nm = str(t.args[0])
        if nm.endswith(('read_csv', 'read_table')):
            return raw
        if nm.endswith(('isnull', 'isna')):
            x = f(t.args[1])
            return Rows2([[(c == 'talker' and i in nulls) for c in x.cols]
                          for i in x.ids])
        if nm.endswith('Index'):
            return list(f(t.args[1]))
        raise Unknown(nm)

    def mcall(f, t):
        x = f(t.args[0])
        if t.args[1] == 'dropna' and isinstance(x, Tab):
            return x
        if t.args[1] in ('isnull', 'isna') and isinstance(x, Tab):
            return Rows2([[(c == 'talker' and i in nulls) for c in x.cols]
                          for i in x.ids])
        if t.args[1] == 'any' and isinstance(x, Rows2):
            return [any(r) for r in x.rows]
        if t.args[1] == 'copy':
            return x
        raise Unknown('method %s' % t.args[1])

    def ucall(f, t):
        if str(t.args[0]).endswith('load_aux_dbs'):
            for a in t.args[1:]:
                try:
                    x = f(a.args[-1] if a.op == 'arg' else a)
                except Unknown:
                    continue
                if isinstance(x, Tab):
                    return (x, 'forest')
        raise Unknown('call %s' % (t.args[0],))
    sub_ = {'fn': 'd/corpus.item'}
    funcs = dict(HOOKS, xcall=xcall, mcall=mcall, ucall=ucall, call=ucall,
                 opaque=ucall, rec=ucall, splitext0=lambda f, t: 'd/corpus')
    f = Finite({sym('fn').id: sub_['fn']}, funcs)
    try:
        while res.op == 'ite':
            res = res.args[1] if f(res.args[0]) else res.args[2]
        if res.op != 'tuple' or len(res.args) != 3:
            return 'result %s' % show(res, 3)
        a, b = f(res.args[0]), f(res.args[2])
    except Unknown as u:
        return str(u)[:300]
    except (KeyError, IndexError) as x:
        return x
    if not isinstance(a, Tab) or not isinstance(b, Tab):
        return 'not tables'
    return a, b


RULES = [task_rows, stored, job_rows, loading]
