"""Scoring, decided on the value graph of the score entry point.

Every store into the score dataset is traced back to its operands. Obligations:
the two looked-up distances are those of the (A,X) and (B,X) pair keys of the
same triplet chunk, taken from the slice of the distance table of the same by
level; the stored value, interpreted over the orderings of two distances
(finite and infinite, less / equal / greater), is +1 / 0 / -1; the rows written
are exactly the rows of the chunk read, chunk after chunk, for every by level.
"""
import math

from sa.lib import *
from sa.drive import *
from sa.models import FULL
from rules.common import *

ASSUMES = ['h5py, numpy and H52NP iteration order as documented; the pair '
           'table of each by level is sorted and duplicate free (C08)']

INF = float('inf')


def run_score(ck):
    it = interp(ck.repo)
    it.run('ABXpy.score:score', [sym('task'), sym('dist'), sym('out')])
    ck.saw(it)
    return it


def dist_points(v):
    """subterms of v that read one distance per triplet"""
    out = []
    for x in subterms(v):
        if x.op == 'getitem' and x.args[1].op != 'slice':
            d = x.args[0]
            base = d.args[0] if d.op == 'getitem' and d.args[1].op == 'slice' \
                else d
            if is_ds(base, 'distances/data'):
                lo = d.args[1].args[0] if d is not base else ZERO
                hi = d.args[1].args[1] if d is not base else NONE
                out.append((x, ZERO if lo is NONE else lo, hi, x.args[1]))
    return out


def sorted_lookup(idx):
    """idx = offset + searchsorted(table, key): (offset, table, key, side)"""
    p = tm._topoly(idx)
    found = None
    off = ZERO
    for m, c in p.items():
        if len(m) == 1 and m[0][0].op == 'np' and \
                m[0][0].args[0] == 'searchsorted' and c == 1 and m[0][1] == 1:
            if found is not None:
                return None
            found = m[0][0]
        else:
            off = add(off, tm._frompoly({m: c}))
    if found is None:
        return None
    table, key = found.args[1], found.args[2]
    side = 'left'
    for x in found.args[3:]:
        if x.op == 'kw':
            for k in x.args:
                if k.args[0] == 'side' and k.args[1].op == 'const':
                    side = k.args[1].args[0]
                else:
                    side = None
        elif x.op == 'const':
            side = x.args[0]
        else:
            side = None
    return off, table, key, side


def distances():
    """pairs of distances: every ordering, far apart and adjacent, at the
    scales of the double precision numbers"""
    yield from [(0, 0), (0, 1), (1, 0), (INF, INF), (0, INF), (INF, 0),
                (2, 2), (1, 2), (2, 1), (0.25, 0.5), (0.5, 0.25)]
    for s in (5e-324, 1e-300, 1e-100, 1e-30, 1e-12, 1e-6, 1e-3, 1., 1e3, 1e6,
              1e30, 1e300):
        for u, v in [(0., s), (s, s), (s, 2 * s), (s, math.nextafter(s, INF)),
                     (s, INF)]:
            yield u, v
            yield v, u


def score_rule(ck):
    it = run_score(ck)
    stores = sel(it, 'store', pred=lambda e: is_ds(e.recv, 'scores'))
    if not stores:
        ck.undecided('score-store', 'ABXpy/score.py', 'no store into the '
                     'score dataset was recognised')
        return
    for e in stores:
        check_store(ck, it, e)


def check_store(ck, it, e):
    idx, val = e.args
    pts = dist_points(val)
    if not pts:
        ck.undecided('score-operands', e, 'distance look-ups not recognised '
                     'in %s' % show(val, 5))
        return
    roles = {}
    chunk = None
    for x, lo, hi, i in pts:
        s = sorted_lookup(i)
        if s is None:
            ck.undecided('score-operands', e, 'look-up of a pair not '
                         'recognised: %s' % show(i, 6))
            return
        off, table, key, side = s
        at = pair_attrs_in(table) or pair_attrs_in(key)
        if at is None:
            ck.undecided('score-operands', e, 'pair table of the by level '
                         'not recognised: %s' % show(table, 6))
            return
        if side is None:
            ck.undecided('score-operands', e, 'searchsorted side')
        elif side != 'left':
            ck.violated('score-lookup', e, 'searchsorted(side=%r) returns the '
                        'position after the pair, not its position' % side)
        else:
            ck.holds('score-lookup', e, 'leftmost position of the pair key')
        # the slice of the pair table and of the distance table
        tb = table.args[0] if table.op == 'getitem' else table
        tsl = table.args[1] if table.op == 'getitem' else None
        if not is_ds(tb, 'unique_pairs/data') or tsl is None or \
                tsl.op != 'slice':
            ck.undecided('score-table', e, 'pair table %s' % show(table, 5))
        else:
            ck.same('score-table', e, tsl, mk('slice', gi(at, ONE),
                                              gi(at, const(2)), NONE),
                    'slice of the pair table of the by level')
        ck.same('score-distance-slice', e, add(lo, off), gi(at, ONE),
                'first distance row of the by level')
        if hi is not NONE and is_num(sub(hi, gi(at, const(2)))) is False and \
                hi is not gi(at, const(2)):
            ck.same('score-distance-slice', e, hi, gi(at, const(2)),
                    'end of the distance rows of the by level')
        r = key_role(key, gi(at, ZERO))
        if r is None:
            if opaque_in(key):
                ck.undecided('score-key', e, show(key, 7))
            else:
                ck.violated('score-key', e, 'pair key %s is neither A + base*X'
                            ' nor B + base*X of the triplet' % show(key, 7))
            return
        role, ch = r
        chunk = chunk or ch
        if ch is not chunk:
            ck.violated('score-key', e, 'the two pairs come from different '
                        'triplet chunks')
        roles[x.id] = role
        ck.holds('score-key', e, 'key of the %s pair' % role)
        # by level agreement between pairs and triplets
        by_agreement(ck, 'score-by', e, at, ch, it)
    # sign over the orderings of the two distances
    bad = []
    n = 0
    for a, b in distances():
        env = {i: (a if r == 'AX' else b) for i, r in roles.items()}
        want = (a < b) - (a > b)
        try:
            got = evalt(val, env)
        except Unknown as u:
            ck.undecided('score-sign', e, 'cannot interpret %s'
                         % show(u.args[0], 4))
            bad = None
            break
        except (TypeError, OverflowError, ValueError):
            bad = None
            ck.undecided('score-sign', e, 'cannot interpret the score')
            break
        n += 1
        if not (got == want):
            bad.append('d(A,X)%sd(B,X)%s -> %s, expected %s' % (
                '<' if a < b else '=' if a == b else '>',
                ' (%r and %r)' % (a, b), got, want))
    if bad is not None:
        ck.decide('score-sign', e, not bad, '; '.join(bad[:3]) or
                  '+1 / 0 / -1 on all %d orderings' % n)
    # rows written = rows read
    if chunk is None:
        return
    rows_rule(ck, 'score-rows', it, e, idx, chunk)
    g = e.guard()
    total_rule(ck, 'score-total', e, g, chunk)


def result_rule(ck):
    """one score row per triplet"""
    it = run_score(ck)
    ds = [e for e in sel(it, 'method', 'create_dataset')
          if e.args and e.args[0].op == 'const' and
          e.args[0].args[0].strip('/') == 'scores']
    for e in ds:
        shp = e.args[1] if len(e.args) > 1 else e.kwargs.get('shape')
        if shp is None:
            ck.undecided('score-size', e, 'shape not recognised')
            continue
        n = shp.args[0] if shp.op == 'tuple' else shp
        if n.op == 'len' and is_ds(n.args[0], 'triplets/data'):
            ck.holds('score-size', e, 'one row per triplet')
        else:
            ck.undecided('score-size', e, 'rows: %s' % show(n, 5))
    if not ds:
        ck.undecided('score-size', 'ABXpy/score.py', 'no score dataset')


RULES = [score_rule, result_rule]
