from seedlib import H
property = 'C20'
needs = 'a generic filter that drops an item which is not the last one'
breaks = 'triplets are compared on the features of other items'
edits = [('ABXpy/task.py', 'self.feat_dbs[by_key] = by_feat_db',
          'self.feat_dbs[by_key] = by_feat_db.loc[by_frame.index]')]
demo = H + '''
def main():
    import ABXpy.distances.distances as D
    attrs = [(o, a) for o in 'xyz' for a in 'pq']
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a', filters=["[attr != 'x' for attr in o]"])
    abx, dis = path('d.abx'), path('d.dis')
    t.generate_triplets(output=abx)
    feat = features('d.h5f', {'f%d' % i: ([0.5], [[i, 1.]])
                              for i in range(len(attrs))})
    D.compute_distances(feat, 'features', abx, dis,
                        lambda x, y: x[0, 0] + 100 * y[0, 0], None, n_cpu=1)
    with h5py.File(abx, 'r') as fh:
        p = fh['unique_pairs/data'][:, 0]
        base = fh['unique_pairs'].attrs['0'][0]
    with h5py.File(dis, 'r') as fh:
        d = fh['distances/data'][:, 0]
    return len(p) > 0 and all(
        v == k % base + 100 * (k // base) for k, v in zip(p.tolist(), d))


run(main)
'''
