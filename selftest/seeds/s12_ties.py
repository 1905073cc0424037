from seedlib import H
property = 'C12'
needs = 'two different distances closer than the tolerance'
breaks = 'a triplet with different distances is scored as a tie'
edits = [('ABXpy/score.py', '''scores = (np.int8(dis_AX < dis_BX) -
                              np.int8(dis_AX > dis_BX))''',
'''scores = (np.int8(dis_AX < dis_BX) -
                              np.int8(dis_AX - dis_BX > 1e-9))''')]
demo = H + '''
def main():
    import ABXpy.score
    attrs = [(o, a) for o in 'xy' for a in 'pq']
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a')
    abx, dis = path('d.abx'), path('d.dis')
    t.generate_triplets(output=abx)
    with h5py.File(abx, 'r') as fh:
        p = fh['unique_pairs/data'][:, 0]
    d = (np.arange(len(p)) * 7 % 5) * 1e-12
    with h5py.File(dis, 'w') as fh:
        fh['distances/data'] = d[:, None]
    ABXpy.score.score(abx, dis, path('d.score'))
    with h5py.File(path('d.score'), 'r') as fh:
        s = fh['scores'][:, 0]
    v = dict(zip(p.tolist(), d))
    n = len(attrs)
    tr = np.concatenate(list(triplets(abx).values())).tolist()
    return all(k == int(v[a + n * x] < v[b + n * x]) - int(v[a + n * x] > v[b + n * x])
               for k, (a, b, x) in zip(s.tolist(), tr))


run(main)
'''
