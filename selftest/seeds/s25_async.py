from seedlib import H
property = 'C25'
needs = 'a distance that fails in one of several processes'
breaks = 'the failure of the processes is never collected by the parent'
edits = [('ABXpy/distances/distances.py', '            pool.map(worker, args)\n',
          '            pool.map_async(worker, args)\n')]
demo = H + '''
def failing(x, y, normalized=None):
    if x[0, 0] == 3 or y[0, 0] == 3:
        raise ValueError('no distance')
    return 1.


def main():
    import ABXpy.distances.distances as D
    attrs = [(o, a) for o in 'xy' for a in 'pq']
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a')
    abx, dis = path('d.abx'), path('d.dis')
    t.generate_triplets(output=abx)
    feat = features('d.h5f', {'f%d' % i: ([0.5], [[i, 1.]])
                              for i in range(len(attrs))})
    try:
        D.compute_distances(feat, 'features', abx, dis, failing, None, n_cpu=2)
    except ValueError:
        return True
    return False


run(main)
'''
