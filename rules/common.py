"""Recognisers shared by the rules."""
from sa.lib import *
from sa.drive import *
from sa import terms as tm
from sa.models import gi, FULL


def interp(repo, opaque=(), classes=None, **kw):
    return Interp(repo, opaque=OPAQUE | set(opaque),
                  opaque_classes=OPAQUE_CLASSES if classes is None
                  else classes, **kw)


def pair_attrs_in(t):
    """the per-by attribute record of the pair table used in t"""
    for x in subterms(t):
        if x.op == 'getitem' and x.args[0].op == 'attr' and \
                x.args[0].args[1] == 'attrs' and \
                is_ds(x.args[0].args[0], 'unique_pairs'):
            return x
    return None


def column(t):
    """t = chunk[:, k]: (chunk, k)"""
    if t.op == 'getitem' and t.args[1].op == 'tuple' and \
            len(t.args[1].args) == 2 and t.args[1].args[0] is FULL and \
            is_num(t.args[1].args[1]):
        return t.args[0], t.args[1].args[1].args[0]
    if t.op == 'getitem' and t.args[0].op == 'T' and is_num(t.args[1]):
        return t.args[0].args[0], t.args[1].args[0]
    return None


def key_role(key, base):
    """key = chunk[:, 0 or 1] + base * chunk[:, 2]: ('AX'|'BX', chunk)"""
    p = tm._topoly(key)
    if len(p) != 2:
        return None
    lo = hi = None
    for m, c in p.items():
        if c != 1:
            return None
        if len(m) == 1 and m[0][1] == 1:
            lo = column(m[0][0])
        elif len(m) == 2 and all(e == 1 for _, e in m):
            fs = [a for a, _ in m]
            if base in fs:
                fs.remove(base)
                hi = column(fs[0])
    if lo is None or hi is None or lo[0] is not hi[0] or hi[1] % 3 != 2 or \
            lo[1] not in (0, 1, -3, -2):
        return None
    return ('AX' if lo[1] % 3 == 0 else 'BX'), lo[0]


def source_event(it, t):
    """the add_dataset/add_subdataset event that produced reader t"""
    for e in it.events:
        if e.result is t:
            return e
    return None


def chunk_source(it, chunk):
    """(event of the reader, loop variable) of a chunk of a buffered read"""
    if chunk.op != 'getitem':
        return None
    e = source_event(it, chunk.args[0])
    return None if e is None else (e, chunk.args[1])


def by_agreement(ck, rule, e, at, chunk, it):
    """the triplets and the pairs read belong to the same by level"""
    src = chunk_source(it, chunk)
    if src is None:
        ck.undecided(rule, e, 'source of the triplets: %s' % show(chunk, 4))
        return
    ev, _ = src
    idx = (ev.bound or {}).get('indexes')
    key = at.args[1]
    if idx is None:
        ck.undecided(rule, e, 'row range of the triplets read')
        return
    bys = [x for x in subterms(key) if x.op == 'getitem' and
           is_ds(x.args[0], 'bys')]
    trips = [x for x in subterms(idx) if x.op == 'getitem' and
             is_ds(x.args[0], 'triplets/by_index')]
    if len(bys) != 1 or len(trips) != 1:
        ck.undecided(rule, e, 'by level of %s / %s' % (show(key, 4),
                                                       show(idx, 4)))
        return
    if bys[0].args[1] is trips[0].args[1]:
        if bys[0].args[1].op == 'iv':
            ck.holds(rule, e, 'same by ordinal for names and triplet ranges')
        else:
            ck.same(rule, e, bys[0].args[1], bys[0].args[1], 'by ordinal')
    elif opaque_in(bys[0]) or opaque_in(trips[0]):
        ck.undecided(rule, e, 'by ordinals %s / %s' % (
            show(bys[0].args[1], 4), show(trips[0].args[1], 4)))
    else:
        ck.violated(rule, e, 'triplet rows of by level %s are paired with the '
                    'name of by level %s' % (show(trips[0].args[1], 4),
                                             show(bys[0].args[1], 4)))
    if idx is not trips[0]:
        a, b = gi(idx, ZERO), gi(idx, ONE)
        ck.same(rule, e, tup(a, b), tup(gi(trips[0], ZERO),
                                        gi(trips[0], ONE)),
                'row range of the triplets of the by level')


def running(t):
    """split a polynomial into (constant part, prefix-sum atoms)"""
    base, ps = ZERO, []
    for m, c in tm._topoly(t).items():
        if len(m) == 1 and m[0][0].op == 'psum' and m[0][1] == 1:
            ps.append((m[0][0], c))
        else:
            base = add(base, tm._frompoly({m: c}))
    return base, ps


def rows_rule(ck, rule, it, e, idx, chunk):
    """rows lo:hi written are the rows of the chunk, chunk after chunk"""
    if idx.op == 'tuple':
        idx = idx.args[0]
    if idx.op != 'slice':
        ck.undecided(rule, e, 'rows written: %s' % show(idx, 5))
        return
    lo, hi = idx.args[0], idx.args[1]
    src = chunk_source(it, chunk)
    if src is None or lo is NONE or hi is NONE:
        ck.undecided(rule, e, 'rows written: %s' % show(idx, 5))
        return
    ev, iv = src
    n = mk('len', chunk)
    ind = (ev.bound or {}).get('indexes')
    base, ps = running(lo)
    if len(ps) != 1 or ps[0][1] != 1:
        if opaque_in(lo):
            ck.undecided(rule, e, show(lo, 6))
        else:
            ck.violated(rule, e, 'the first row written, %s, does not advance '
                        'by the number of rows read' % show(lo, 6))
        return
    p = ps[0][0]
    doms, g, inc = p.args
    if not (len(doms.args) == 1 and doms.args[0].args[0] is iv):
        ck.undecided(rule, e, 'prefix sum %s' % show(p, 5))
        return
    if g is not TRUE:
        ck.undecided(rule, e, 'guarded advance %s' % show(g, 5))
        return
    ck.same(rule + '-advance', e, inc, n, 'advance after a chunk')
    ck.same(rule + '-count', e, sub(hi, lo), n, 'rows written for a chunk')
    if ind is not None:
        ck.same(rule + '-origin', e, base, gi(ind, ZERO),
                'first row of the by level')


def total_rule(ck, rule, e, g, chunk, extra=None):
    """the site is reached for every non-empty chunk"""
    if g is TRUE:
        ck.holds(rule, e, 'unconditional')
        return
    n = mk('len', chunk)
    bad = None
    for k in (1, 2, 1000, 100000000):
        env = {n.id: k}
        env.update(extra(k) if extra else {})
        for a in atoms_of(g):
            if a.id in env:
                continue
            if a.op == 'getitem' and any(is_ds(x, 'triplets/by_index')
                                         for x in subterms(a)):
                env[a.id] = 0 if a.args[1] is ZERO else k
            elif a.op == 'attr' and a.args[1] == 'size' and \
                    a.args[0] is chunk:
                env[a.id] = 3 * k
        try:
            if not evalt(g, env):
                bad = k
        except Exception:
            ck.undecided(rule, e, 'reached only if %s' % show(g, 5))
            return
    if bad:
        ck.violated(rule, e, 'skipped for a non-empty chunk: guard %s' %
                    show(g, 6))
    else:
        ck.holds(rule, e, 'reached for every non-empty chunk')
