from seedlib import H
property = 'C13'
needs = 'a by level in which some level of a regressor does not occur'
breaks = 'two different groups of triplets share a key and are averaged'
edits = [('ABXpy/analyze.py', '''n_indices = np.max(indices, 0) + 1''',
'''n_indices = np.array([len(np.unique(col)) for col in indices.T])''')]
demo = H + '''
def main():
    import ABXpy.analyze
    f = path('t.abx')
    rows = [(0, 2), (2, 0), (0, 2), (2, 2), (0, 4), (2, 0), (0, 0)]
    st = h5py.special_dtype(vlen=str)
    with h5py.File(f, 'w') as fh:
        fh.create_dataset('bys', data=np.array(['u'], object), dtype=st)
        fh['triplets/by_index'] = np.array([[0, len(rows)]])
        g = fh.create_group('regressors/u')
        g['indexed_data'] = np.array(rows, np.uint8)
        g.create_dataset('indexed_datasets', data=np.array(['p', 'q'], object), dtype=st)
        for n in 'pq':
            g.create_dataset('indexes/' + n, data=np.array(list('abcde'), object), dtype=st)
    sc = [1, 1, -1, 0, 1, -1, -1]
    with h5py.File(path('t.score'), 'w') as fh:
        fh['scores'] = np.array(sc, np.int8)[:, None]
    ABXpy.analyze.analyze(f, path('t.score'), path('t.csv'))
    got = sorted(l.rstrip().split('\\t')
                 for l in open(path('t.csv')).read().splitlines()[1:])
    want = {}
    for r, s in zip(rows, sc):
        want.setdefault(('abcde'[r[0]], 'abcde'[r[1]], 'u'), []).append(s)
    want = sorted(list(k) + [str((np.mean(v) + 1) / 2), str(len(v))]
                  for k, v in want.items())
    return got == want


run(main)
'''
