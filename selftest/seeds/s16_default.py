from seedlib import H
property = 'C16'
needs = 'distances requested without normalization, a distance that normalizes by default and more than one pair'
breaks = 'only the first pair of a job is computed without normalization'
edits = [('ABXpy/distances/distances.py',
          '''                    elif normalize == 0:
                        normalize = False
''',
          '''                    elif normalize == 0:
                        normalize = None
''')]
demo = H + '''
def main():
    from ABXpy.distances import distances
    from ABXpy.distances.example_distances import dtw_cosine
    attrs = [('x', 'p'), ('x', 'q'), ('y', 'p'), ('y', 'q')]
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a')
    t.generate_triplets(output=path('d.abx'))
    rng = np.random.RandomState(1)
    feats = features('d.feat', {
        'f%d' % i: (np.arange(5) / 5., rng.rand(5, 3)) for i in range(4)})
    seen = []

    def dist(x, y, normalized=True):
        seen.append(normalized)
        return 1.
    distances.compute_distances(feats, '/features/', path('d.abx'),
                                path('d.dist'), dist, normalized=0, n_cpu=1)
    return len(seen) > 1 and not any(seen)


run(main)
'''
