"""The distance jobs, decided on the value graph of their planner, of the job
body and of the driver.

Planner: the blocks appended for a by level are shown by induction on the
while loop (congruent loop variables, polynomial invariants) to tile
[0, number of pairs): the first starts at 0, each next one starts where the
last stopped, start + remaining is invariant and the loop runs until nothing
remains with blocks of at least one pair. The three columns of a job are the
same selection `cpu == i`, i ranges over every cpu and every stored cpu number
is one of them. When an induction fails the value graph is evaluated on small
models and a model in which the blocks do not tile is reported. Job body: every
block is visited; row k of the block is computed from key k of exactly the rows
it is stored to. Driver: every planned job is run.
"""
from rules.distlib import *
from rules.c08 import pair_item

ASSUMES = ['numpy argmin/where/argsort semantics; buffer size and number of '
           'cpus are at least 1; the distance function is deterministic']


def planner(ck):
    it = interp(ck.repo)
    st, v = it.run(MOD + 'create_distance_jobs',
                   [sym('pf'), sym('df'), sym('ncpu'), sym('buf')])
    ck.saw(it)
    v = it.snap(v, st)
    site = DPY + ':create_distance_jobs'
    size(ck, it, site)
    cols = job_columns(v)
    if cols is None:
        ck.undecided('job-shape', site, 'jobs: %s' % show(v, 4))
        return model(ck, it, v, site, True)
    doms, guard, d = cols
    proofs = []
    iv, dom = doms[0]
    ok = dom.op == 'range' and dom.args[0] is ZERO and dom.args[2] is ONE \
        and dom.args[1] is sym('ncpu') and guard is TRUE
    proofs.append(('jobs-all-cpus', ok, 'one job per cpu: %s' % show(dom, 4)))
    sels = {}
    srcs = {}
    for k in ('by', 'start', 'stop'):
        x = d.get(k)
        if x is None or x.op != 'getitem':
            proofs.append(('job-' + k, None, 'column %s' % k))
            continue
        srcs[k], sels[k] = x.args
    if len({s.id for s in sels.values()}) == 1 and len(sels) == 3:
        s = list(sels.values())[0]
        proofs.append(('job-selection',) + selection(it, s, iv, sym('ncpu')))
    else:
        proofs.append(('job-selection', None, 'the columns of a job are '
                       'selected by %s' % [show(s, 4) for s in
                                           sels.values()]))
    pf = d.get('pair_file')
    proofs.append(('job-file', True if pf is sym('pf') else None,
                   'pair file of the jobs'))
    if len(srcs) == 3:
        proofs += blocks(it, srcs)
    bad = [p for p in proofs if p[1] is not True]
    for r, okk, det in proofs:
        if okk is True:
            ck.holds(r, site, det)
    if bad:
        model(ck, it, v, site, False, '; '.join(
            '%s: %s' % (r, x) for r, _, x in bad))


def size(ck, it, site):
    es = [e for e in it.events if e.kind == 'method' and
          e.name == 'create_dataset']
    got = [e for e in es if (e.bound or {}).get('shape') is not None or
           e.kwargs.get('shape') is not None or len(e.args) > 1]
    if len(got) != 1:
        ck.undecided('distance-rows', site, '%d datasets created' % len(got))
        return
    e = got[0]
    s = e.kwargs.get('shape') if e.kwargs.get('shape') is not None else \
        e.args[1]
    n = s.args[0] if s.op in ('tuple', 'list') else s
    while n.op == 'lastof':
        n = n.args[2]
    if n.op == 'len' and is_ds(n.args[0], 'unique_pairs/data'):
        ck.holds('distance-rows', e, 'one distance per row of the pair table')
    elif opaque_in(n):
        ck.undecided('distance-rows', e, show(n, 4))
    else:
        if n.op in ('sum', 'np') and total_pairs(n):
            ck.holds('distance-rows', e, 'sum over the by levels')
        elif n.op in ('sum', 'np'):
            ck.undecided('distance-rows', e, show(n, 4))
        else:
            ck.violated('distance-rows', e, 'the distance table has %s rows, '
                        'not one per pair' % show(n, 4))


def job_columns(v):
    if v.op != 'lcomp' or v.args[2].op != 'dict':
        return None
    d = {}
    for e in v.args[2].args:
        if e.op != 'ent' or e.args[0].args or e.args[1] is not TRUE or \
                e.args[2].op != 'const':
            return None
        d[e.args[2].args[0]] = e.args[3]
    doms = [x.args for x in v.args[0].args]
    return (doms, v.args[1], d) if len(doms) == 1 else None


def selection(it, s, iv, n):
    """s = positions where cpu == iv, with every cpu number in range(n)"""
    if s.op == 'nonzero':
        s = s.args[0]
    if s.op != 'eq' or iv not in s.args:
        return None, 'selection %s' % show(s, 5)
    c = s.args[0] if s.args[1] is iv else s.args[1]
    ok = in_range(it, c, n)
    return ok, 'every cpu number is one of the jobs' if ok else \
        'cpu numbers %s' % show(c, 4)


def in_range(it, t, n, depth=0):
    """every element of t lies in range(n): True or None"""
    if t is ZERO:
        return True
    if t.op == 'np' and t.args[0] in ('argmin', 'argmax'):
        return True if arr_len(it, t.args[1]) is n else None
    if t.op in ('zeros',):
        return True
    if t.op == 'mod' and t.args[1] is n:
        return True
    if t.op == 'iv' and t.args[0].op == 'range' and \
            t.args[0].args[0] is ZERO and t.args[0].args[1] is n:
        return True
    if t.op == 'loopout':
        phi, init, nxt = t.args
        return True if in_range(it, init, n) and upd_ok(
            it, nxt, phi, n) else None
    if t.op == 'fill':
        return True if in_range(it, t.args[0], n) and in_range(
            it, t.args[4], n) else None
    if t.op == 'lcomp':
        return in_range(it, t.args[2], n)
    return None


def upd_ok(it, t, phi, n):
    if t is phi:
        return True
    if t.op == 'upd':
        return upd_ok(it, t.args[0], phi, n) and in_range(it, t.args[2], n)
    if t.op == 'ite':
        return upd_ok(it, t.args[1], phi, n) and upd_ok(it, t.args[2], phi, n)
    return None


def arr_len(it, t):
    """length of an array that is only updated in place"""
    if t.op == 'phi' and t.id in it.phi_info:
        _, init, nxt = it.phi_info[t.id]
        x = nxt
        while x.op == 'upd':
            x = x.args[0]
        return arr_len(it, init) if x is t else None
    if t.op in ('zeros', 'empty', 'ones'):
        s = t.args[0]
        return s.args[0] if s.op == 'tuple' else s
    if t.op == 'upd':
        return arr_len(it, t.args[0])
    return None


def blocks(it, srcs):
    """(rule, True/None, detail) for the block columns"""
    doms = {}
    for k, t in srcs.items():
        if t.op != 'lcomp':
            return [('block-' + k, None, show(t, 4))]
        doms[k] = (t.args[0], t.args[1])
    if len(set(doms.values())) != 1:
        return [('blocks', None, 'columns filled by different loops')]
    dt, guard = doms['by']
    ds = [d.args for d in dt.args]
    if guard is not TRUE or len(ds) != 2:
        return [('blocks', None, 'guard %s, %d loops' % (show(guard, 4),
                                                          len(ds)))]
    (biv, bdom), (wiv, wdom) = ds
    S, E = srcs['start'].args[2], srcs['stop'].args[2]
    by = srcs['by'].args[2]
    N = None
    out = []
    # by levels
    if by.op == 'getitem' and is_ds(by.args[0], 'bys') and by.args[1] is biv \
            and bdom.op == 'range' and bdom.args[0] is ZERO and \
            bdom.args[2] is ONE:
        n = bdom.args[1]
        ok = n.op == 'len' and is_ds(n.args[0], 'bys')
        out.append(('blocks-all-levels', True if ok else None,
                    'every by level: %s' % show(bdom, 4)))
    else:
        out.append(('blocks-all-levels', None, 'by of a block: %s' %
                    show(by, 4)))
    at = [x for x in subterms(mk('tuple', *[
        i for k, (l, i, n) in it.phi_info.items()])) if x.op == 'getitem' and
        x.args[0].op == 'attr' and x.args[0].args[1] == 'attrs' and
        x.args[1] is by]
    if not at:
        at = [x for x in subterms(wdom) if x.op == 'getitem' and
              x.args[0].op == 'attr' and x.args[0].args[1] == 'attrs' and
              x.args[1] is by]
    if not at:
        return out + [('blocks', None, 'record of the by level not found')]
    N = sub(gi(at[0], const(2)), gi(at[0], ONE))
    if wdom.op == 'range':
        a, b, step = wdom.args
        ok = a is ZERO and b is N and S is wiv and E in (
            tm.minmax('min', add(wiv, step), N),) and \
            ge1(step, N)
        return out + [('blocks', True if ok else None,
                       'blocks [%s, %s)' % (show(S, 3), show(E, 3)))]
    if wdom.op != 'while':
        return out + [('blocks', None, show(wdom, 3))]
    ph = {k: v for k, v in it.phi_info.items() if v[0].id == wdom.args[0]}
    loop = list(ph.values())[0][0]
    if any(b is not FALSE for b in loop.brk):
        return out + [('blocks', None, 'break')]
    cls = classes(it, loop)
    red = {k: v for k, v in cls.items()}
    init = {k: v[1] for k, v in ph.items()}
    nxt = {k: subst(v[2], red) for k, v in ph.items()}

    def R(t):
        return subst(t, red)

    def first(t):
        return subst(t, init)

    def nextof(t):
        return R(subst(t, nxt))
    S, E, cond = R(S), R(E), R(loop.cond)
    out.append(('block-first', True if first(S) is ZERO else None,
                'first block starts at %s' % show(first(S), 4)))
    out.append(('block-contiguous', True if nextof(S) is E else None,
                'the next block starts at %s, this one stops at %s' % (
                    show(nextof(S), 4), show(E, 4))))
    rem = remaining(cond)
    if rem is None:
        return out + [('block-end', None, 'loop condition %s' %
                       show(cond, 4))]
    tot = add(S, rem)
    amount = sub(E, S)
    inv = nextof(tot) is R(tot) and first(tot) is N
    le = amount is rem or (amount.op == 'min' and rem in amount.args)
    out.append(('block-end', True if inv and le else None,
                'start + remaining is the number of pairs, blocks of at most '
                'what remains' if inv and le else
                'start + remaining: %s -> %s; block size %s' % (
                    show(first(tot), 4), show(nextof(tot), 4),
                    show(amount, 4))))
    pos = ge1(amount, N, rem)
    out.append(('block-nonempty', True if pos else None,
                'block size %s' % show(amount, 4)))
    return out


def remaining(cond):
    """R such that cond is R > 0"""
    if cond.op == 'lt':
        return sub(cond.args[1], cond.args[0])
    if cond.op == 'not' and cond.args[0].op in ('eq',):
        a, b = cond.args[0].args
        return sub(b, a) if a is ZERO else sub(a, b)
    if cond.op == 'truth':
        return cond.args[0]
    return None


def ge1(t, N, rem=None):
    """t >= 1 when some pair remains"""
    if rem is not None and t is rem:
        return True
    if is_num(t):
        return t.args[0] >= 1
    if t.op == 'min':
        return all(ge1(x, N, rem) for x in t.args)
    if t.op == 'max':
        return any(ge1(x, N, rem) for x in t.args)
    if t.op == 'ceil' and t.args[0].op == 'div':
        a, b = t.args[0].args
        return total_pairs(a) and b is sym('ncpu')
    p = tm._topoly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return c >= 1 and all(x is sym('buf') for x, _ in m)
    return False


def total_pairs(t):
    if t.op == 'np' and t.args[0] == 'sum':
        t = t.args[1]
        if t.op == 'lcomp':
            t = t.args[2]
            return any(x.op == 'attr' and x.args[1] == 'attrs'
                       for x in subterms(t))
    if t.op == 'sum':
        return any(x.op == 'attr' and x.args[1] == 'attrs'
                   for x in subterms(t.args[2]))
    return t.op == 'len' and is_ds(t.args[0], 'unique_pairs/data')


MODELS = [(c, n) for c in ((3,), (1, 2), (5, 1), (0, 4), (7,), (2, 2, 2),
                           (4, 0, 9), (1, 1, 1, 1)) for n in (1, 2, 3)] + \
    [((1,), 2), ((2, 1), 8)]


def model(ck, it, v, site, always, why=''):
    """evaluate the planned jobs on small models of the pair table"""
    names = 'abcd'
    bad, und = None, None
    for counts, ncpu in MODELS:
        recs, off = {}, 3
        for k, c in zip(names, counts):
            recs[k] = (10, off, off + c)
            off += c
        env = {sym('ncpu').id: ncpu, sym('buf').id: 1, sym('pf').id: 'pf'}
        for x in subterms(v):
            bind(x, env, counts, names, recs, off)
        for k, (l, i, n) in it.phi_info.items():
            for x in list(subterms(i)) + list(subterms(n)):
                bind(x, env, counts, names, recs, off)
            if l.cond is not None:
                for x in subterms(l.cond):
                    bind(x, env, counts, names, recs, off)
            for _, d in l.doms:
                for x in subterms(d):
                    bind(x, env, counts, names, recs, off)
        try:
            jobs = Finite(env, it=it)(v)
            seen = {}
            for j in jobs:
                for b, s, e in zip(j['by'], j['start'], j['stop']):
                    for r in range(s, e):
                        seen[b, r] = seen.get((b, r), 0) + 1
            want = {(k, r): 1 for k, c in zip(names, counts)
                    for r in range(c)}
            if seen != want:
                miss = [k for k in want if k not in seen]
                dup = [k for k in seen if seen[k] > 1 or k not in want]
                bad = ('by levels with %s pairs, %d jobs: pairs %s are not '
                       'computed, %s computed twice or nonexistent' % (
                           list(counts), ncpu, miss[:3], dup[:3]))
                break
        except Diverges:
            bad = ('by levels with %s pairs, %d jobs: the planner never '
                   'terminates' % (list(counts), ncpu))
            break
        except (Unknown, TypeError, IndexError, KeyError,
                AttributeError, ZeroDivisionError, ValueError) as x:
            und = '%s: %s' % (type(x).__name__, str(x)[:80])
            break
    if bad:
        ck.violated('blocks-partition', site, '%s (%s)' % (bad, why))
    elif always or why:
        ck.undecided('blocks-partition', site, '%s %s' % (why, und or ''))


def bind(x, env, counts, names, recs, off):
    if is_ds(x, 'bys'):
        env[x.id] = list(names[:len(counts)])
    elif is_ds(x, 'unique_pairs/data'):
        env[x.id] = list(range(off))
    elif x.op == 'attr' and x.args[1] == 'attrs' and is_ds(
            x.args[0], 'unique_pairs'):
        env[x.id] = {k: list(r) for k, r in recs.items()}


# ------------------------------------------------------------------ job body

def body(ck):
    it = job_run(ck)
    ws = [e for e in it.events if e.kind == 'store' and e.recv is not None and
          is_ds(e.recv, 'distances/data')]
    if len(ws) != 1:
        ck.undecided('row-store', DPY + ':run_distance_job', '%d stores to '
                     'the distance table' % len(ws))
        return
    e = ws[0]
    idx, val = e.args[0], e.args[1]
    if idx.op == 'tuple':
        idx = idx.args[0]
    b = None
    for l in e.loops:
        for v, d in l.doms:
            if v.op == 'iv':
                b = v
                dom = d
                break
        if b is not None:
            break
    job = sym('job')

    def col(k):
        return gi(gi(job, const(k)), b)
    if b is None:
        ck.undecided('row-store', e, 'loop over blocks')
        return
    want = mk('len', gi(job, const('by')))
    alt = [mk('len', gi(job, const(k))) for k in ('start', 'stop')]
    n = dom.args[1] if dom.op == 'range' else NONE
    ok = dom.op == 'range' and dom.args[0] is ZERO and dom.args[2] is ONE and (
        n is want or n in alt or n.op in ('min', 'min') and all(
            a in [want] + alt for a in n.args))
    if not ok and not opaque_in(dom):
        ck.violated('all-blocks', e, 'blocks visited: %s' % show(dom, 5))
    else:
        ck.decide('all-blocks', e, ok or None, 'every block of the job')
    g = [x for x in conj_(e.guard()) if x is not mk('truth', sym('lock'))]
    ck.decide('all-blocks-stored', e, True if not g else None,
              'stored unconditionally' if not g else show(and_(*g), 4))
    at = pair_attrs_in(idx)
    if at is None:
        ck.decide('row-store', e, None if opaque_in(idx) else False,
                  'rows %s, not those of the by level' % show(idx, 5))
        return
    ck.same('row-level', e, at.args[1], col('by'), 'by level of the record')
    lo = gi(at, ONE)
    rows = mk('slice', add(lo, col('start')), add(lo, col('stop')), NONE)
    ck.same('row-store', e, idx, rows, 'rows written for a block')
    # element written in row k
    el = elements(it, val)
    if el is None:
        ck.undecided('row-values', e, show(val, 4))
        return
    n, (iv, d), cases = el
    lists = set()
    for x in cases:
        u = x
        if u.op != 'ucall' or u.args[0] is not sym('dist'):
            if opaque_in(u) or any(y.op == 'ucall' for y in subterms(u)):
                ck.undecided('row-values', e, show(u, 4))
            else:
                ck.violated('row-values', e, 'the value stored is %s, not the '
                            'distance of the pair' % show(u, 4))
            continue
        for k in (1, 2):
            r = pair_item(u.args[k]) if len(u.args) > k else None
            if r is None:
                ck.undecided('row-values', e, 'argument %s' % show(
                    u.args[k], 4))
                continue
            op, lst, base, i = r
            ck.same('row-order', e, i, iv, 'key used for row %s' % show(iv, 2))
            lists.add(lst)
    for lst in lists:
        src, ix = lst.args if lst.op == 'getitem' else (lst, NONE)
        if ix.op == 'tuple':
            ix = ix.args[0]
        if not is_ds(src, 'unique_pairs/data'):
            ck.undecided('row-keys', e, show(lst, 4))
            continue
        ck.same('row-keys', e, ix, rows, 'keys of the block')
        full = d.op == 'range' and d.args[0] is ZERO and d.args[2] is ONE and \
            lengths_equal(d.args[1], lst)
        ck.decide('row-all', e, full or None, 'every key of the block: %s' %
                  show(d, 4))


def conj_(g):
    return [x for x in (g.args if g.op == 'and' else (g,)) if x is not TRUE]


def lengths_equal(n, lst):
    if n.op != 'len':
        return False
    x = n.args[0]
    while x.op in ('mod', 'floordiv'):
        x = x.args[0]
    return x is lst


def elements(it, val):
    """array filled element by element: (rows, (iv, dom), leaf values)"""
    if val.op == 'loopout':
        phi, init, nxt = val.args
        loop = it.phi_info[phi.id][0]
        if loop.guard is not TRUE or len(loop.doms) != 1:
            return None
        iv, d = loop.doms[0]
        out = []

        def go(t):
            if t.op == 'ite':
                return go(t.args[1]) and go(t.args[2])
            if t.op == 'upd' and t.args[0] is phi:
                i = t.args[1]
                if i.op == 'tuple':
                    i = i.args[0]
                if i is not iv:
                    return False
                out.append(t.args[2])
                return True
            return False
        return (init, (iv, d), leaves(out)) if go(nxt) else None
    if val.op == 'fill':
        init, ds, g, idx, v = val.args
        if g is not TRUE or len(ds.args) != 1:
            return None
        iv, d = ds.args[0].args
        i = idx.args[0] if idx.op == 'tuple' else idx
        return (init, (iv, d), leaves([v])) if i is iv else None
    while val.op in ('colvec', 'array', 'np') and len(val.args) == 1:
        val = val.args[0]
    if val.op == 'lcomp' and val.args[1] is TRUE and \
            len(val.args[0].args) == 1:
        iv, d = val.args[0].args[0].args
        return val, (iv, d), leaves([val.args[2]])
    return None


def leaves(ts):
    out = []
    for t in ts:
        if t.op == 'ite':
            out += leaves(t.args[1:])
        else:
            out.append(t)
    return out


# -------------------------------------------------------------------- driver

def driver(ck):
    c = Compute(ck)
    site = DPY + ':compute_distances'
    if len(c.create) != 1 or not c.calls:
        ck.undecided('driver', site, '%d plans, %d job calls' % (
            len(c.create), len(c.calls)))
        return
    cr = c.create[0]
    jobs = cr.result
    b = cr.bound
    ck.same('driver-plan', cr, tup(b['pair_file'], b['distance_file']),
            tup(sym('pf'), sym('df')), 'files of the plan')
    ncpu = b['n_cpu']
    one = many = False
    for e, bd, loop, waits in c.calls:
        if bd is None:
            ck.undecided('driver-jobs', e, 'job call')
            continue
        j = bd['job_description']
        if loop is not None or (e.loops and j.op == 'getitem' and
                                j.args[1].op == 'iv'):
            if loop is not None:
                doms, guard = loop
            else:
                doms, guard = e.loops[-1].doms, TRUE
            iv, d = doms[0]
            ok = len(doms) == 1 and guard is TRUE and \
                j is gi(jobs, iv) and d.op == 'range' and \
                d.args[0] is ZERO and d.args[2] is ONE and (
                    d.args[1] is mk('len', jobs) or d.args[1] is ncpu)
            m = {jobs.id: sym('#jobs'), ncpu.id: sym('#ncpu')}
            j2, d2 = subst(j, m), subst(d, m)
            if not ok and not opaque_in(j2) and not opaque_in(d2) and \
                    sym('#jobs') in list(subterms(j2)) and guard is TRUE:
                ck.violated('driver-jobs', e, 'jobs run: %s for %s' % (
                    show(j, 4), show(d, 4)))
            else:
                ck.decide('driver-jobs', e, ok or None, 'every job is run')
            many = True
        else:
            # a single job: only when one cpu is used
            g = e.guard()
            worst = [n for n in (2, 3, 8) if possible(g, ncpu, n)]
            if j is gi(jobs, ZERO):
                ck.decide('driver-jobs', e, not worst, 'only the first job '
                          'is run %s' % ('with one cpu' if not worst else
                                         'although there are several'))
            else:
                ck.undecided('driver-jobs', e, show(j, 4))
            one = True
        for p, want in (('distance_file', sym('df')),
                        ('distance', sym('dist')),
                        ('normalize', sym('norm'))):
            ck.same('driver-args', e, bd[p], want, p)
    # a job call for every number of cpus
    for n in (1, 2, 8):
        if not any(possible(e.guard(), ncpu, n) for e, bd, l, w in c.calls):
            ck.violated('driver-jobs', cr, 'no job is run with %d cpus' % n)


def possible(g, ncpu, n):
    cand = {x.id: x for x in subterms(ncpu)}
    env = {ncpu.id: n}
    for x in cand.values():
        if x is sym('ncpu') or x.op == 'xcall':
            env[x.id] = n
    try:
        return bool(evalt(g, env))
    except Exception:
        return True


RULES = [planner, body, driver]
