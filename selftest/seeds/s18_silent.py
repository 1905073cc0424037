from seedlib import H
property = 'C18'
needs = 'an item with a frame that sums to zero'
breaks = 'the features of the caller are changed by the distance'
edits = [('ABXpy/distances/metrics/kullback_leibler.py',
'''    assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))

    if normalize:''', '''    # silent frames are uniform
    for z in (x, y):
        z[z.sum(1) == 0.] = 1. / z.shape[1]

    if normalize:''')]
demo = H + '''
def main():
    from ABXpy.distances.metrics import kullback_leibler as kl, cosine
    x = np.array([[1., 2., 3.], [0., 0., 0.], [4., 1., 1.]])
    y = np.array([[0., 0., 0.], [3., 2., 3.]])
    for f in (kl.js_divergence, kl.hellinger_distance, kl.kl_divergence,
              cosine.cosine_distance, cosine.normalize_cosine_distance):
        a, b = x.copy(), y.copy()
        try:
            with np.errstate(all='ignore'):
                f(a, b)
        except AssertionError:
            pass
        if not (np.array_equal(a, x) and np.array_equal(b, y)):
            return False
    return True


run(main)
'''
