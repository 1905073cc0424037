"""Column names with a suffix denote the column of the item of that suffix.

The filter and regressor managers are interpreted with concrete column names
(on, across and by columns, columns that depend on them, and a free column) and
abstract operations. For every column with every suffix, and for pairs of such
columns, the extracted value graph of the complete filter sequence is evaluated
on a table whose rows all differ and whose labels are not positions: every
operation has to see exactly the tuples of values of the items its suffixes
name, and a use without meaning has to be refused. Regressors decode to the
values of the item their name tells.
"""
import itertools
from rules.sidelib import *

ASSUMES = ['scripts and lookup tables of the user are abstract functions of '
           'the columns they are given',
           'item files hold no two columns of which one is the other followed '
           'by a suffix',
           'bounds: pairs of columns; three A, two B and two X items']
COLS7 = ['o', 'o2', 'a', 'a2', 'b', 'b2', 'z']
SUF = ['', '_A', '_B', '_X', '_AB', '_AX', '_1', '_2']
W = {FM: 'ABXpy/sideop/filter_manager.py:FilterManager',
     RM: 'ABXpy/sideop/regressor_manager.py:RegressorManager'}


def predicates(ins):
    ts = tuples(ins)
    yield {t: True for t in ts}
    yield {t: i % 2 == 0 for i, t in enumerate(ts)}
    if len(ts) <= 3:
        for t in ts:
            yield {u: u != t for u in ts}


def filter_case(ck, rule, ins, w):
    """None, or what is wrong with a filter over these columns"""
    what = ', '.join(ins)
    m = Manager(ck, FM, {'f': ins})
    no = meaningless(ins)
    if m.rejected:
        return None if no else 'a filter on %s is refused' % what
    if no:
        return 'a filter on %s is accepted although it has no meaning (%s)' \
            % (what, no)
    p = Pipeline(m)
    for pr in predicates(ins):
        P = {'f': pr}
        try:
            got = p(P)
        except Wrong as e:
            return 'a filter on %s: %s' % (what, e)
        except ShapeError as e:
            return 'a filter on %s fails: %s' % (what, e)
        want = p.expected(['f'], P)
        if got != want:
            return 'a filter on %s that accepts %s keeps the triplets %s ' \
                'instead of %s' % (what, sorted(t for t in pr if pr[t])[:4],
                                   got[:4], want[:4])
    return None


def pairs(thorough):
    cols = COLS7 if thorough else ['o', 'a2', 'b', 'z']
    vs = [c + s for c in cols for s in SUF]
    ok = [v for v in vs if not meaningless([v])]
    for u, v in itertools.combinations(ok, 2):
        yield [u, v]


def filters_rule(ck):
    rule = 'filter'
    n = {'1': 0, '2': 0}
    try:
        for c in COLS7:
            for s in SUF:
                bad = filter_case(ck, rule, [c + s], W[FM])
                n['1'] += 1
                if bad:
                    ck.violated(rule, W[FM], bad)
                    return
        for ins in pairs(ck.tier == 'thorough'):
            bad = filter_case(ck, rule, ins, W[FM])
            n['2'] += 1
            if bad:
                ck.violated(rule, W[FM], bad)
                return
    except Unknown as e:
        ck.undecided(rule, W[FM], str(e))
        return
    ck.holds(rule, W[FM], '%d single columns with suffix, %d pairs' % (
        n['1'], n['2']))


def column_filter_rule(ck):
    """a column name itself as a filter"""
    rule, w = 'column filter', W[FM]
    n = 0
    try:
        for c in COLS7:
            for s in SUF:
                v = c + s
                m = Manager(ck, FM, {}, [v])
                no = meaningless([v])
                if m.rejected or no:
                    if bool(no) != m.rejected:
                        ck.violated(rule, w, 'the filter %s is %s' % (
                            v, 'refused' if m.rejected else
                            'accepted although it has no meaning'))
                        return
                    continue
                p = Pipeline(m)
                for zero in columns(c):
                    got = p({}, zero)
                    want = p.expected([v], None, zero)
                    n += 1
                    if got != want:
                        ck.violated(rule, w, 'the column filter %s keeps the '
                                    'triplets %s instead of %s' % (
                                        v, got[:4], want[:4]))
                        return
    except (Wrong, ShapeError) as e:
        ck.violated(rule, w, 'the column filter %s: %s' % (v, e))
        return
    except Unknown as e:
        ck.undecided(rule, w, '%s: %s' % (v, e))
        return
    ck.holds(rule, w, '%d column filters' % n)


def columns(c):
    """values of column c that are replaced by 0"""
    vs = sorted(set(database().cols[c]))
    yield c, ()
    yield c, tuple(vs[::2])
    yield c, tuple(vs[1::2])
    yield c, tuple(vs)


STAGES = ['by', 'on_across_by', 'A', 'B', 'X']


def regressors_of(m, P):
    """[(name, index or None, stage, rows)] of a regressor manager"""
    db = database()
    by = {c: v[0] for c, v in db.cols.items()}
    k = db.labels.index(min(ITEMS['A']))
    vals = {c: v[k] for c, v in db.cols.items()}
    out = []
    g = {GARBAGE.id: ['garbage'] * 40, DB.id: db}
    st = m.st.copy()
    info = m.it.call_method(m.obj, 'get_regressor_info', [], {}, st, None)
    info = Side(m, g, P)(m.it.snap(info, st))
    idx = info[1]
    o = st.heap[m.obj.args[0]]
    flat = []
    for s in STAGES:
        e = dict(g)
        e[V.id] = by if s == 'by' else vals
        if len(s) == 1:
            e[IX.id] = arr(ITEMS[s])
        f = Side(m, e, P)
        res = f(m.after('set_%s_regressors' % s,
                        [V, DB, IX] if len(s) == 1 else [V],
                        s + '_regressors'))
        names = f(m.it.snap(o.data[s + '_names'], st))
        if len(res) != len(names):
            raise Wrong('%d results for %d names' % (len(res), len(names)))
        for r, ns in zip(res, names):
            if len(ns) != 1:
                raise Unknown('outputs')
            flat.append(ns[0])
            out.append((ns[0], idx.get(ns[0]), s, r))
    if list(info[0]) != flat:
        raise Wrong('the names of the regressors are %s instead of %s' % (
            list(info[0]), flat))
    return out


def one_stage(ins):
    """the items, other than through on, across and by values"""
    used = set()
    for r, s in map(split, ins):
        k = item_of(r, s)
        if r in ('b', 'b2') or r in ('o', 'o2') and k in 'AX' or \
                r in ('a', 'a2') and s in ('_1', '_AB'):
            continue
        used.add(k)
    return len(used) <= 1


def regressor_case(ck, ops, defs):
    db = database()
    by = {c: v[0] for c, v in db.cols.items()}
    what = ', '.join(','.join(ops.get(d, [d])) for d in defs)
    m = Manager(ck, RM, ops, defs)
    no = [x for x in (meaningless(ops.get(d, [d]), False) for d in defs) if x]
    if m.rejected or no:
        if bool(no) != m.rejected:
            return 'the regressor %s is %s' % (
                what, 'refused' if m.rejected else
                'accepted although it has no meaning (%s)' % no[0])
        return None
    if not all(one_stage(ops.get(d, [d])) for d in defs):
        return None
    P = {d: {t: t for t in tuples(v)} for d, v in ops.items()}
    try:
        regs = regressors_of(m, P)
    except (Wrong, ShapeError) as e:
        return 'the regressor %s: %s' % (what, e)
    want = list(defs) + ['o_1', 'o_2', 'a_1', 'a_2', 'a2_1', 'a2_2']
    names = [r[0] for r in regs]
    for d in want:
        if d not in ops and d not in names:
            return 'the regressor %s is missing' % d
    if len(names) != len(want) or len(set(names)) != len(set(want)):
        return 'the regressors %s are given for %s' % (names, want)
    comp = [r for r in regs if r[0] not in want]
    left = [d for d in defs if d in ops]
    for name, index, s, res in regs:
        cand = [name] if name in want else left
        ok = False
        for d in cand:
            ins = ops.get(d, [d])
            ts = triplets(ITEMS) if len(s) != 1 else None
            if d in ops:
                rows = plainlist(res) if len(s) == 1 else [res]
            else:
                rows = plainlist(res[0]) if len(s) == 1 else list(res)
                if index is None:
                    return 'the regressor %s has no index' % name
                ix = plainlist(index)
                rows = [(ix[x],) for x in rows]
            items = ITEMS[s] if len(s) == 1 else [None]
            if len(rows) != len(items):
                continue
            good = True
            for it_, row in zip(items, rows):
                for t in triplets(ITEMS):
                    if it_ is not None and t['ABX'.index(s)] != it_:
                        continue
                    if tuple(row_of(v, t, by, db) for v in ins) != \
                            tuple(row):
                        good = False
            if good:
                ok = True
                if d in left:
                    left.remove(d)
                break
        if not ok:
            return 'the regressor %s (evaluated for %s) does not hold the ' \
                'values of the items it names' % (
                    name if name in want else what, s)
    return None


def regressors_rule(ck):
    rule, w = 'regressor', W[RM]
    n = 0
    try:
        for c in COLS7:
            for s in SUF:
                v = c + s
                bad = regressor_case(ck, {}, [v]) if v not in (
                    'o_1', 'o_2', 'a_1', 'a_2', 'a2_1', 'a2_2') else None
                bad = bad or regressor_case(ck, {'f': [v]}, ['f'])
                n += 2
                if bad:
                    ck.violated(rule, w, bad)
                    return
        for ins in pairs(ck.tier == 'thorough'):
            bad = regressor_case(ck, {'f': ins}, ['f'])
            n += 1
            if bad:
                ck.violated(rule, w, bad)
                return
    except Unknown as e:
        ck.undecided(rule, w, str(e))
        return
    ck.holds(rule, w, '%d regressors' % n)


RULES = [filters_rule, column_filter_rule, regressors_rule]
