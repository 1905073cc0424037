from seedlib import H
property = 'C13'
needs = 'a by level without triplets followed by one that has some'
breaks = 'the by levels after an empty one are missing from the results'
edits = [('ABXpy/analyze.py', '''        if indices.size == 0:
            continue
        tmp = scorefid''', '''        if indices.size == 0:
            break
        tmp = scorefid''')]
demo = H + '''
def main():
    import ABXpy.analyze
    f = path('t.abx')
    st = h5py.special_dtype(vlen=str)
    with h5py.File(f, 'w') as fh:
        fh.create_dataset('bys', data=np.array(['u', 'v', 'w'], object), dtype=st)
        fh['triplets/by_index'] = np.array([[0, 2], [2, 2], [2, 3]])
        for by, rows in (('u', [(0,), (1,)]), ('v', []), ('w', [(1,)])):
            g = fh.create_group('regressors/' + by)
            g['indexed_data'] = np.array(rows, np.uint8).reshape((-1, 1))
            g.create_dataset('indexed_datasets', data=np.array(['p'], object), dtype=st)
            g.create_dataset('indexes/p', data=np.array(list('ab'), object), dtype=st)
    with h5py.File(path('t.score'), 'w') as fh:
        fh['scores'] = np.array([[1], [-1], [1]], np.int8)
    ABXpy.analyze.analyze(f, path('t.score'), path('t.csv'))
    return len(open(path('t.csv')).read().splitlines()) == 4


run(main)
'''
