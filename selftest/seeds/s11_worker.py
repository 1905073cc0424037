from seedlib import H
property = 'C11'
needs = 'a distance that fails in one of several processes'
breaks = 'the distance file is marked as done although distances are missing'
edits = [('ABXpy/distances/distances.py', '    return run_distance_job(*args)',
 '''    try:
        return run_distance_job(*args)
    except Exception as err:
        sys.stderr.write('job failed: {}\\n'.format(err))''')]
demo = H + '''
def failing(x, y, normalized=None):
    raise ValueError('no distance')


def main():
    import ABXpy.distances.distances as D
    attrs = [(o, a) for o in 'xy' for a in 'pq']
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a')
    abx, dis = path('d.abx'), path('d.dis')
    t.generate_triplets(output=abx)
    feat = features('d.h5f', {'f%d' % i: ([0.5], [[i, 1.]])
                              for i in range(len(attrs))})
    try:
        D.compute_distances(feat, 'features', abx, dis, failing, None, n_cpu=2)
    except ValueError:
        pass
    with h5py.File(dis, 'r') as fh:
        return not fh.attrs['done']


run(main)
'''
