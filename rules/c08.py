"""The pair table, decided on the value graph of the task generator and of the
two readers (distance job, scoring).

Writer: every row of the temporary pair table is first + base * X with first
the A or the B column, both roles are written for every triplet, the base is
larger than every item label of the by level. The loops that count and drop
duplicates are evaluated as transfer functions on every sorted key sequence up
to length 5 over 3 values and every way of cutting it into chunks (they only
look at the first and last key of a chunk, so longer sequences add no case):
the rows kept are the distinct keys in order and the count is their number.
The by level's record is (base, first row, last row + 1) with the running sum of
these counts, and every chunk of the distinct pairs is copied. Readers: items
are recovered with remainder and quotient by the recorded base of the rows of
the same record.
"""
import itertools
from rules.tasklib import *
from sa.finite import *

ASSUMES = ['H5Handler.sort sorts its key dataset in place (C33); NP2H5/H52NP '
           'write and read rows in order (C15); integer types are wide enough '
           '(C14)']
CONFIGS = [(0, 0, (), None), (0, 1, (), None), (1, 1, (), None),
           (2, 2, (), None), (1, 1, ('A', 'B', 'X', 'ABX'), 1)]


def divide(p, atom):
    """p / atom when every monomial contains atom exactly once"""
    q = {}
    for m, c in tm._topoly(p).items():
        d = dict(m)
        if d.get(atom) != 1:
            return None
        q[tuple((a, e) for a, e in m if a is not atom)] = c
    return tm._frompoly(q)


def role(key):
    """key = chunk[:, 0|1] + base * chunk[:, 2]: (role, chunk, base)"""
    cols = {}
    for m in tm._topoly(key):
        for x, _e in m:
            if column(x):
                cols[column(x)[1] % 3, column(x)[0].id] = x
    for (k, cid), x in cols.items():
        if k != 2:
            continue
        ch = column(x)[0]
        for lo in (0, 1):
            y = cols.get((lo, cid))
            if y is None:
                continue
            b = divide(sub(key, y), x)
            if b is not None and not any(column(z) for z in subterms(b)):
                return ('AX', 'BX')[lo], ch, b, lo
    # other orientation: X + base * first
    for (k, cid), x in cols.items():
        if k == 2:
            continue
        y = cols.get((2, cid))
        if y is not None:
            b = divide(sub(key, y), x)
            if b is not None and not any(column(z) for z in subterms(b)):
                return 'X' + 'AB'[k], column(x)[0], b, k
    return None


def parts(v):
    """[(row numbers term or None, key)] of the table written per chunk"""
    out = []
    if v.op == 'upd':
        while v.op == 'upd':
            i = v.args[1]
            if i.op == 'tuple':
                if len(i.args) != 2 or i.args[1] is not ZERO:
                    return None
                i = i.args[0]
            out.append((i, v.args[2]))
            v = v.args[0]
        if v.op not in ('empty', 'zeros'):
            return None
        return out, v
    if v.op == 'concat_rows':
        return [(None, x) for x in v.args], None
    return None


def max_label(t):
    return t.op == 'np' and t.args[0] == 'max' and t.args[1].op == 'index'


def base_ok(ck, r, e, b, key):
    c, mx = None, None
    for x in subterms(b):
        if max_label(x):
            mx = x
    if mx is not None:
        c = sub(b, mx)
        frame = mx.args[1].args[0]
        if is_num(c):
            ck.decide(r, e, c.args[0] >= 1, 'base = largest item label %+d' %
                      c.args[0])
        elif opaque_in(b):
            return ck.undecided(r, e, show(b, 5))
        else:
            return ck.undecided(r, e, 'base %s' % show(b, 5))
        same_by(ck, r + '-by', e, frame, key)
        return
    if b.op in ('len',) and any(x.op == 'filtered' for x in subterms(b)):
        return ck.violated(r, e, 'base is the number of items, smaller than '
                           'the largest label once a filter drops items')
    if b.op == 'len' and not opaque_in(b):
        return ck.holds(r, e, 'labels are 0..n-1 and base is n')
    if is_num(b):
        return ck.violated(r, e, 'constant base %s' % show(b))
    ck.undecided(r, e, 'base %s' % show(b, 5))


def same_by(ck, r, e, t, key):
    ks = [x for x in subterms(t) if x.op == 'gkey']
    bad = [x for x in ks if x is not key]
    if not bad:
        ck.holds(r, e, 'same by level')
    else:
        ck.undecided(r, e, 'by level of %s' % show(t, 4))


def by_key(u, e):
    for l in e.loops:
        for v, d in l.doms:
            if v.op == 'gkey' or v.op == 'iv':
                return v
    return None


def tmp_writes(u):
    """writes whose value is made of triplet columns: pair keys"""
    out = []
    for e in u.it.events[u.n0:]:
        if e.kind == 'method' and e.name == 'write' and e.args:
            p = parts(e.args[0])
            if p and all(role(k) for _, k in p[0]):
                out.append((e, p))
    return out


def odd_writes(u):
    """writes of arithmetic on triplet columns that is no pair key"""
    out = []
    for e in u.it.events[u.n0:]:
        if e.kind == 'method' and e.name == 'write' and e.args:
            p = parts(e.args[0])
            if not p:
                continue
            ks = [k for _, k in p[0]]
            chs = set()
            for k in ks:
                for x in subterms(k):
                    if column(x) and column(x)[0].op == 'getitem':
                        s = source_event(u.it, column(x)[0].args[0])
                        if s is not None and s.bound and \
                                s.bound.get('group') is const('triplets'):
                            chs.add(column(x)[0].id)
            if len(chs) == 1 and not any(opaque_in(k) for k in ks) and all(
                    k.op in ('poly', 'getitem') for k in ks):
                out.append((e, [k for k in ks if not role(k)]))
    return out


def find_writer(u, e):
    for x in u.it.events:
        if x.result is e.recv:
            return x
    return None


def encode(ck):
    for c in CONFIGS:
        u = Unit(ck, *c)
        ws = tmp_writes(u)
        if not ws:
            odd = odd_writes(u)
            if len(odd) == 1:
                ck.violated('pair-keys', odd[0][0], '%s: rows %s of the pair '
                            'table are not first + base * X' % (
                                u.name, [show(k, 4) for k in odd[0][1]]))
                continue
        if len(ws) != 1:
            ck.undecided('pair-keys', 'ABXpy/task.py', '%s: %d writes of pair '
                         'keys recognised' % (u.name, len(ws)))
            continue
        e, (ps, table) = ws[0]
        roles = [role(k) for _, k in ps]
        got = sorted(r[0] for r in roles)
        ok = got == ['AX', 'BX'] or got == ['XA', 'XB'] and False
        ck.decide('pair-keys', e, ok, '%s: keys written for a triplet: %s' % (
            u.name, got))
        bases = {r[2].id: r[2] for r in roles}
        chunks = {r[1].id: r[1] for r in roles}
        if len(bases) != 1 or len(chunks) != 1:
            ck.violated('pair-base', e, 'the two keys of a triplet use '
                        'different bases or chunks: %s' % [
                            show(b, 4) for b in bases.values()])
            continue
        b = list(bases.values())[0]
        ch = list(chunks.values())[0]
        key = by_key(u, e)
        base_ok(ck, 'pair-base', e, b, key)
        n = mk('len', ch)
        if table is not None:
            bad = None
            try:
                for k in range(1, 6):
                    f = Finite({n.id: k, ch.id: list(range(k))})
                    rows = []
                    for i, _k in ps:
                        v = f(i)
                        if isinstance(v, tuple):
                            v = list(range(2 * k))[slice(*v[1:])]
                        if len(v) != k:
                            raise Unknown('rows')
                        rows += v
                    tot = f(table.args[0].args[0])
                    if sorted(rows) != list(range(tot)):
                        bad = (k, sorted(rows), tot)
                        break
                if bad:
                    ck.violated('pair-rows', e, 'for %d triplets the keys go '
                                'to rows %s of %d' % bad)
                else:
                    ck.holds('pair-rows', e, 'keys fill every row once')
            except Unknown as x:
                ck.undecided('pair-rows', e, 'row numbers: %s' % x)
        total_rule(ck, 'pair-all-chunks', e, inner_guard(e, ch), ch)
        src = chunk_source(u.it, ch)
        if src is None:
            ck.undecided('pair-source', e, show(ch, 4))
            continue
        s = src[0]
        g, d = s.bound.get('group'), s.bound.get('dataset')
        ck.decide('pair-source', s, (True if (
            g is const('triplets') and d is const('data')) else None),
            'pairs are made of the triplet table')
        idx = s.bound.get('indexes')
        want = [x for x in subterms(idx) if x.op == 'getitem' and
                is_ds(x.args[0], 'triplets/by_index')] if idx is not None \
            else []
        if len(want) != 1:
            ck.undecided('pair-source-by', s, 'row range %s' % (
                idx and show(idx, 4)))
        else:
            o = want[0].args[1]
            ok = o.op == 'ordinal' and o.args[0] is key
            ck.decide('pair-source-by', s, ok or None,
                      'rows of the by level: %s' % show(o, 3))
            if idx is not want[0]:
                ck.same('pair-source-range', s, tup(gi(idx, ZERO),
                                                    gi(idx, ONE)),
                        tup(gi(want[0], ZERO), gi(want[0], ONE)), 'row range')
        w = find_writer(u, e)
        ck.u8 = getattr(ck, 'u8', {})
        ck.u8[c] = (u, e, w, b, key)


def inner_guard(e, ch):
    """conditions of e that depend on the chunk"""
    g = e.guard()
    cs = g.args if g.op == 'and' else (g,)
    keep = []
    for x in cs:
        if any(y is ch for y in subterms(x)):
            keep.append(x)
    return and_(*keep) if keep else TRUE


def distinct(ck):
    """sorted, deduplicated, counted"""
    for c, (u, we, w, b, key) in sorted(getattr(ck, 'u8', {}).items()):
        if w is None or not w.bound:
            ck.undecided('pair-sort', we, 'temporary table not identified')
            continue
        g, d = w.bound['group'], w.bound['dataset']
        evs = u.it.events
        iw = evs.index(we)
        readers = [e for e in evs[iw:] if e.kind == 'method' and
                   e.name in ('add_dataset', 'add_subdataset') and e.bound and
                   same_path(e.bound.get('group'), g) and
                   e.bound.get('dataset') is d and e is not w and
                   str(e.recv.args[0]).endswith('H52NP')]
        sorts = [e for e in evs[iw:] if e.kind in ('mutate', 'method') and
                 e.name == 'sort' and e.recv is not None and
                 e.recv.op == 'inst' and
                 str(e.recv.args[0]).endswith('H5Handler')]
        if not readers:
            ck.undecided('pair-sort', we, 'readers of the temporary table')
            continue
        i0 = min(evs.index(e) for e in readers)
        before = [e for e in sorts if evs.index(e) < i0]
        ok = None
        for e in before:
            new = [x for x in evs if x.kind == 'new' and x.result is e.recv]
            bd = new[0].bound if new and new[0].bound else {}
            if same_path(bd.get('keygroup'), g) and bd.get('keyset') is d and \
                    same_file(bd.get('h5file'), w, evs):
                gd = e.guard(('branch',))
                ok = True if implied(gd, we) else None
                ck.decide('pair-sort', e, ok, 'the key dataset is sorted '
                          'before it is read')
        if ok is None and not before:
            inst = [x for x in evs if x.kind == 'new' and
                    str(x.name).endswith('H5Handler')]
            if not inst:
                ck.violated('pair-sort', we, 'the pair keys are never sorted')
            else:
                ck.undecided('pair-sort', we, 'sort of the pair keys')
        # the writes fed by those readers
        ws = []
        for e in evs[iw:]:
            if e.kind == 'method' and e.name == 'write' and e.args:
                rs = [r for r in readers if any(
                    x is r.result for x in subterms(e.args[0]))]
                if len(rs) == 1:
                    ws.append((e, rs[0]))
        if len(ws) != 1:
            ck.undecided('pair-distinct', we, '%d writes of distinct pairs '
                         'recognised' % len(ws))
            continue
        e, r = ws[0]
        chs = [x for x in subterms(e.args[0]) if x.op == 'getitem' and
               x.args[0] is r.result and x.args[1].op == 'iv']
        if len({x.id for x in chs}) != 1:
            ck.undecided('pair-distinct', e, 'chunks read')
            continue
        ch = chs[0]
        g_in = e.guard()
        base = we_guard_atoms(we)
        g_in = and_(*[x for x in (g_in.args if g_in.op == 'and' else (g_in,))
                      if x.id not in base])
        dedupe(ck, u, e, ch, g_in)
        count(ck, c, u, e, key, b, readers)


def we_guard_atoms(e):
    g = e.guard()
    # conditions of the by level itself
    return {x.id for x in (g.args if g.op == 'and' else (g,))}


def implied(g, e):
    have = we_guard_atoms(e)
    return all(x is TRUE or x.id in have
               for x in (g.args if g.op == 'and' else (g,)))


def norm_path(t):
    return t.args[0].strip('/') if t is not None and t.op == 'const' and \
        isinstance(t.args[0], str) else None


def same_path(a, b):
    if a is None or b is None:
        return False
    return a is b or norm_path(a) is not None and norm_path(a) == norm_path(b)


def file_of(w, evs):
    """file argument of the NP2H5/H52NP object w was called on"""
    for x in evs:
        if x.kind == 'new' and x.result is w.recv:
            if x.bound:
                return x.bound.get('h5file')
            return x.args[0] if x.args else None
    return None


def same_file(f, w, evs):
    g = file_of(w, evs)
    return f is not None and f is g


SEQ = [s for n in range(0, 6)
       for s in itertools.combinations_with_replacement(range(3), n)]


def dedupe(ck, u, e, ch, g):
    lid = {l.id for l in e.loops[-1:]}
    sim = Sim(u.it, [e.args[0], g], lid)
    n = 0
    try:
        for s in SEQ:
            for cut in compositions(len(s)):
                sim.start()
                out, i = [], 0
                for k in cut:
                    c = list(s[i:i + k])
                    i += k
                    f = sim.step({ch.id: c})
                    if f(g):
                        out += f(e.args[0])
                    sim.advance(f)
                n += 1
                if out != sorted(set(s)):
                    ck.violated('pair-distinct', e, 'sorted keys %s read in '
                                'chunks of %s: rows kept %s' % (
                                    list(s), list(cut), out))
                    return
    except Unknown as x:
        ck.undecided('pair-distinct', e, 'transfer function: %s' % x)
        return
    except (IndexError, TypeError) as x:
        ck.undecided('pair-distinct', e, 'model: %r' % x)
        return
    ck.holds('pair-distinct', e, '%d chunked sequences' % n)


def attr_store(u):
    return [e for e in u.it.events[u.n0:] if e.kind == 'store' and
            e.recv is not None and e.recv.op == 'attr' and
            e.recv.args[1] == 'attrs' and is_ds(e.recv.args[0],
                                                'unique_pairs')]


def eval_count(ck, u, e, N, readers):
    """N counts the distinct keys: evaluated on the same models"""
    if opaque_in(N) is None and not any(
            x is r.result for x in subterms(N) for r in readers):
        return (False, 'the number of pairs, %s, does not depend on the pairs'
                % show(N, 4))
    n = 0
    for s in SEQ:
        for cut in compositions(len(s)):
            chs, i = [], 0
            for k in cut:
                chs.append(list(s[i:i + k]))
                i += k
            v = Finite({r.result.id: chs for r in readers}, it=u.it)(N)
            n += 1
            if v != len(set(s)):
                return (False, 'sorted keys %s read in chunks of %s: %s pairs '
                        'recorded' % (list(s), list(cut), v))
    return (True, n)


def offsets(u, e, lo, N):
    """the first row of each by level, for levels with 2, 3, 1, 4 pairs"""
    if lo.op != 'phi' or lo.id not in u.it.phi_info:
        return None
    loop, init, nxt = u.it.phi_info[lo.id]
    env = {x.id: True for x in conj(e.guard())}
    for x in conj(e.guard()):
        if x.op == 'not':
            env[x.args[0].id] = False
    st = Finite(env)(init)
    tot = 0
    for n in (2, 3, 1, 4):
        if st != tot:
            return (False, 'levels with 2, 3, 1, 4 pairs: a level after %d '
                    'pairs is recorded at row %s' % (tot, st))
        v = dict(env)
        v.update({N.id: n, lo.id: st})
        st = Finite(v)(nxt)
        tot += n
    return (True, '')


def count(ck, c, u, de, key, b, readers):
    ss = attr_store(u)
    if len(ss) != 1:
        ck.undecided('pair-record', 'ABXpy/task.py', '%d stores of the pair '
                     'record' % len(ss))
        return
    e = ss[0]
    k, v = e.args[0], e.args[1]
    k2 = by_key(u, e)
    want = mk('str', k2)
    ck.same('pair-record-key', e, k, want, 'name of the record')
    if v.op not in ('tuple', 'list', 'vec') or len(v.args) != 3:
        ck.undecided('pair-record', e, show(v, 3))
        return
    base, lo, hi = v.args
    ck.same('pair-record-base', e, base, b, 'recorded base')
    N = sub(hi, lo)
    try:
        r = eval_count(ck, u, e, N, readers)
    except (Unknown, TypeError, IndexError) as x:
        r = None
    if r is None:
        ck.undecided('pair-count', e, 'number of pairs: %s' % show(N, 4))
    elif r[0]:
        ck.holds('pair-count', e, '%d chunked sequences' % r[1])
    else:
        ck.violated('pair-count', e, r[1])
    # running offset
    start, ps = running(lo)
    r = None
    try:
        r = offsets(u, e, lo, N)
    except (Unknown, TypeError, IndexError):
        pass
    if r is not None:
        ck.decide('pair-offset', e, r[0], r[1])
    elif len(ps) != 1 or ps[0][1] != 1 or start is not ZERO:
        if opaque_in(lo, allow=[x for x in subterms(N)]):
            ck.undecided('pair-offset', e, show(lo, 4))
        else:
            ck.violated('pair-offset', e, 'first row of the by level is %s, '
                        'not the number of pairs of the levels before it' %
                        show(lo, 5))
    else:
        doms, g, inc = ps[0][0].args
        # increment per by level: N where the record is written, else 0
        cond, val = TRUE, inc
        g0 = e.guard()
        same = None
        if inc is N:
            same = True
        elif inc.op == 'ite':
            x, y, z = inc.args
            if z is N and y is ZERO and holds_in(g0, not_(x)):
                same = True
            elif y is N and z is ZERO and holds_in(g0, x):
                same = True
        ck.decide('pair-offset', e, same, 'offset advances by the number of '
                  'pairs of the level' if same else 'advance %s' %
                  show(inc, 4))
    # skipped only for levels without triplets
    skip = [x for x in conj(e.guard()) if x.id not in
            we_guard_atoms(ck.u8[c][1])]
    bad, ok = None, True
    for x in skip:
        recs = {}
        for y in subterms(x):
            if y.op == 'getitem' and is_num(y.args[1]) and any(
                    z.op == 'const' and str(z.args[0]).endswith('by_index')
                    for z in subterms(y.args[0])) and any(
                    z.op == 'ordinal' and z.args[0] is k2
                    for z in subterms(y.args[0])):
                recs[y.id] = y
        try:
            for a_, b_ in ((0, 3), (2, 5), (7, 8)):
                env = {y.id: (a_, b_)[y.args[1].args[0] % 2]
                       for y in recs.values()}
                if not recs or not evalt(x, env):
                    bad, ok = x, False if recs else None
        except Unknown:
            bad, ok = x, None
        if bad is not None:
            break
    ck.decide('pair-record-always', e, ok,
              'every by level with triplets gets a record' if bad is None
              else 'recorded only if %s' % show(bad, 4))
    # copy of every chunk of the distinct pairs
    wd = find_writer(u, de)
    copies = []
    for x in u.it.events[u.it.events.index(de):]:
        if x.kind == 'method' and x.name == 'write' and x.args and \
                x is not de:
            t = x.args[0]
            if t.op == 'getitem' and t.args[1].op == 'iv':
                s = source_event(u.it, t.args[0])
                if s is not None and s.bound and wd is not None and \
                        same_path(s.bound.get('group'), wd.bound['group']) \
                        and s.bound.get('dataset') is wd.bound['dataset']:
                    copies.append((x, s, t))
    if len(copies) != 1:
        ck.undecided('pair-copy', e, '%d copies of the distinct pairs' %
                     len(copies))
        return
    x, s, t = copies[0]
    o = find_writer(u, x)
    if o is not None and o.bound:
        ck.decide('pair-copy', x, True if (
            same_path(o.bound['group'], const('unique_pairs')) and
            o.bound['dataset'] is const('data')) else None,
            'copied to the pair table')
        n_rows = o.bound.get('n_rows')
        fx = o.bound.get('fixed_size')
        if n_rows is ZERO and fx is FALSE:
            ck.holds('pair-table-size', o, 'grows as needed')
        elif n_rows is not None and n_rows.op == 'sum' and \
                n_rows.args[2] is N:
            ck.holds('pair-table-size', o, 'sum of the counts')
        else:
            ck.undecided('pair-table-size', o, 'rows %s' % (
                n_rows and show(n_rows, 4)))
    total_rule(ck, 'pair-copy-all', x, inner_guard(x, t), t)
    # same by level and condition as the record
    g1 = {z.id for z in conj(x.guard())}
    g2 = {z.id for z in conj(e.guard())}
    extra = [z for z in conj(x.guard()) if z.id not in g2 and
             not any(y is t for y in subterms(z))]
    miss = [z for z in conj(e.guard()) if z.id not in g1]
    ck.decide('pair-copy-level', x, True if not extra and not miss and
              by_key(u, x) is by_key(u, e) else None,
              'rows and record of a by level are written together')


def conj(g):
    return [x for x in (g.args if g.op == 'and' else (g,)) if x is not TRUE]


def holds_in(g, c):
    return all(any(x is y for y in conj(g)) for x in conj(c))


def reader(ck):
    """items of a pair in the distance job"""
    it = job_run(ck)
    calls = [e for e in it.events if e.kind == 'ucall' and e.recv is
             sym('dist')]
    if not calls:
        ck.undecided('pair-decode', D, 'distance calls not recognised')
    for e in calls:
        for k, want in ((0, 'mod'), (1, 'floordiv')):
            r = pair_item(e.args[k]) if len(e.args) > k else None
            if r is None:
                ck.undecided('pair-decode', e, 'argument %d: %s' % (
                    k + 1, show(e.args[k], 5) if len(e.args) > k else '-'))
                continue
            op, lst, base, i = r
            at = pair_attrs_in(base)
            if at is None:
                if base.op in ('len', 'const') and not opaque_in(base):
                    ck.violated('pair-decode-base', e, 'pairs are decoded '
                                'with %s, not with the base recorded with '
                                'them' % show(base, 6))
                else:
                    ck.undecided('pair-decode', e, 'base %s' % show(base, 4))
                continue
            ck.same('pair-decode-base', e, base, gi(at, ZERO),
                    'base used for decoding')
            ck.decide('pair-decode', e, op == want, 'argument %d of the '
                      'distance is the %s of the key by the base' % (
                          k + 1, op))
            at2 = pair_attrs_in(lst)
            ck.decide('pair-decode-by', e, True if at2 is at else None,
                      'rows and base of the same by level')


D = 'ABXpy/distances/distances.py'


def job_run(ck):
    it = interp(ck.repo)
    it.run('ABXpy.distances.distances:run_distance_job',
           [sym('job'), sym('dfile'), sym('dist'), sym('ffiles'),
            sym('fgroups'), FALSE, sym('jid'), sym('norm'), sym('lock')])
    ck.saw(it)
    return it


def pair_item(t):
    """features[(list op base)[i]]: (op, list, base, i)"""
    if t.op != 'getitem':
        return None
    k = t.args[1]
    if k.op == 'getitem':
        x, i = k.args
        if x.op in ('mod', 'floordiv'):
            return x.op, x.args[0], x.args[1], i
        return None
    if k.op in ('mod', 'floordiv') and k.args[0].op == 'getitem':
        return k.op, k.args[0].args[0], k.args[1], k.args[0].args[1]
    return None


RULES = [encode, distinct, reader]
