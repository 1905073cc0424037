from seedlib import H
property = 'C16'
needs = 'an alignment cell whose diagonal cost lies between the two others'
breaks = 'the normalization divides by the length of another alignment'
edits = [('ABXpy/distances/metrics/dtw/dtw.pyx',
          '''if c_diag <= c_left and c_diag <= c_up:''',
          '''if c_diag <= c_left or c_diag <= c_up:''')]
demo = H + '''
def best(d):
    n, m = d.shape
    t = {}
    for i in range(n):
        for j in range(m):
            p = [t[q] for q in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if q in t]
            if not p:
                t[i, j] = (d[i, j], {1})
                continue
            c = min(q[0] for q in p)
            t[i, j] = (c + d[i, j], {l + 1 for q in p if q[0] == c for l in q[1]})
    return t[n - 1, m - 1]


def main():
    import ABXpy.distances.metrics.dtw as dtw
    g = np.random.RandomState(0)
    for k in range(300):
        n, m = g.randint(1, 7, 2)
        d = g.randint(0, 8, (n, m)).astype(float)
        c, ls = best(d)
        if dtw._dtw(n, m, d, normalized=False) != c:
            return False
        if not any(abs(dtw._dtw(n, m, d, normalized=True) - c / l) < 1e-9 for l in ls):
            return False
    return True


run(main)
'''
