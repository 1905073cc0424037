"""Features of an item: the frames of its own file inside [onset, offset].

The operands handed to the distance function are evaluated on the value graph
of the job. The window is a conjunction of order comparisons, so a set of
models with one file of irregularly spaced frames and every position of onset
and offset relative to the frames covers every weak ordering of the three
quantities; a second file with other times shows a lookup in the wrong file.
"""
from rules.featlib import *

ASSUMES = ['h5features.read returns the times and the features of each file '
           'under the name of the file, times in increasing order']
TIMES = [1, 2, 4, 7, 8]
OTHER = [0, 3, 5, 6, 9]


def frames(tag, n):
    return [(tag, i) for i in range(n)]


def window(ck):
    it = job_run(ck)
    site = DPY + ':get_features_from_raw'
    pts = sorted(set(TIMES) | {x + Fraction(1, 2) for x in TIMES} |
                 {Fraction(1, 2), 0, 9})
    near = [t + s * Fraction(1, 10 ** k) for t in (2, 7)
            for s in (1, -1) for k in (2, 4, 7, 10, 13)]
    grid = [(False, on, off, 0) for on in pts for off in pts] + \
        [(False, on, 8, 0) for on in near] + \
        [(False, 1, off, 0) for off in near] + [(True, 2, 7, 0)] + \
        [(False, 2, 7, s * Fraction(1, 10 ** k) / 3) for s in (1, -1)
         for k in (2, 4, 7, 10, 13)]
    n, bad, und, calls = 0, None, None, set()
    grid = [g + (('h', 3, 6),) for g in grid]
    # the second item shares the interval, the file, or a bound of the first
    grid += [(False, 2, 7, 0, o) for o in (
        ('h', 2, 7), ('h', 2, 6), ('h', 3, 7), ('f', 2, 7), ('f', 4, 7),
        ('f', 2, 4), ('f', 9, 10), ('h', 7, 2))] + \
        [(False, 1, 4, 0, ('h', 1, 4)), (False, 4, 8, 0, ('h', 4, 8)),
         (False, 7, 2, 0, ('h', 2, 7)), (False, 9, 10, 0, ('f', 2, 7))]
    for decode, on, off, eps, (f2, on2, off2) in grid:
        times = [t + eps for t in TIMES]
        tab = Tab({'file': ['f', f2], 'onset': [on, on2],
                   'offset': [off, off2]})
        m = JobModel(it, tab, [2 * 1 + 0], 2,
                     {'f': times, 'h': OTHER},
                     {'f': frames('f', 5), 'h': frames('h', 5)},
                     decode=decode)
        want = [[('f', i) for i, x in enumerate(times)
                 if on <= x <= off],
                [(f2, i) for i, x in enumerate(
                    times if f2 == 'f' else OTHER) if on2 <= x <= off2]]
        try:
            got = m.calls()
        except Unknown as u:
            und = str(u)[:200]
            break
        except Undecodable:
            continue
        except (KeyError, IndexError, TypeError) as x:
            bad = 'the lookup fails: %r' % x
            break
        n += 1
        for e, i, ops in got:
            calls.add(e)
            if sorted(map(str, ops)) != sorted(map(str, want)):
                bad = describe(ops, want, on, off, times)
                site = e
        if not got and not und:
            bad = 'no distance is computed for the pair'
        if und or bad:
            break
    if bad:
        ck.violated('window', site, bad)
    elif und:
        ck.undecided('window', site, und)
    else:
        for e in calls:
            ck.holds('window', e, 'the operands are the frames with onset <= '
                     't <= offset in %d models' % n)


def describe(ops, want, on, off, times):
    def one(x):
        return '[%s]' % ', '.join('%s' % (t,) for t in x) if isinstance(
            x, list) else str(x)
    return 'an item from %s to %s of a file with frames at %s gets %s ' \
        'instead of %s' % (
            on, off, [str(t) for t in times], ' / '.join(
            one(o) for o in ops), ' / '.join(one(w) for w in want))


RULES = [window]
