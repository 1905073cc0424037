from seedlib import H
property = 'C29'
needs = 'double precision features with components that are zero'
breaks = 'the divergence is computed with another threshold'
edits = [('ABXpy/distances/metrics/kullback_leibler.py',
'''eps = np.finfo(x.dtype).eps''', '''eps = np.finfo(np.float32).eps''')]
demo = H + '''
def main():
    from ABXpy.distances.metrics import kullback_leibler as kl
    x = np.array([[1., 2., 0.], [4., 1., 1.]])
    y = np.array([[1., 1., 5.], [3., 0., 3.], [1., 0., 0.]])
    got = kl.kl_divergence(x.copy(), y.copy())

    def norm(a):
        e = np.finfo(np.float64).eps
        a = a / a.sum() + e
        return a / a.sum()
    for i in range(2):
        for j in range(3):
            p, q = norm(x[i]), norm(y[j])
            d = .5 * np.sum(p * np.log(p / q)) + .5 * np.sum(q * np.log(q / p))
            if abs(got[i, j] - d) > 1e-9:
                return False
    return True


run(main)
'''
