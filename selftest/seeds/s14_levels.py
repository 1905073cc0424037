from seedlib import H
property = 'C14'
needs = 'a regressor with exactly 256 (or 65536) levels'
breaks = ('the level numbers are stored in a type whose largest value is the '
          'last level, and the number of levels wraps to 0 in the analysis')
edits = [('ABXpy/h5tools/h5io.py',
          "max(indexed_levels), is_signed=False)",
          "max(max(indexed_levels) - 1, 1), is_signed=False)")]
demo = H + '''
import h5py
import numpy as np
import ABXpy.analyze as analyze


def main():
    # 256 talkers who say p, two of whom say q: one block for each of them
    n = 256
    attrs = [('p', 's%03d' % i) for i in range(n)] + [
        ('q', 's%03d' % i) for i in (0, 255)]
    f = simple('d.item', 'phone talker', attrs)
    t = task(f, 'phone', across='talker')
    t.generate_triplets(output=path('d.abx'))
    ts = [x for tr in triplets(path('d.abx')).values() for x in tr]
    with h5py.File(path('d.score'), 'w') as fh:
        fh.create_dataset('scores', data=np.ones((len(ts), 1), dtype='i1'))
    analyze.analyze(path('d.abx'), path('d.score'), path('d.csv'))
    with open(path('d.csv')) as fh:
        lines = fh.read().splitlines()
    got = sum(int(l.split('\\t')[-1]) for l in lines[1:])
    want = {(attrs[A][0], attrs[A][1], attrs[X][1], attrs[B][0])
            for A, B, X in ts}
    return got == len(ts) and len(lines) - 1 == len(want)


run(main)
'''
