from seedlib import H
property = 'C30'
needs = 'a null frame in both sequences'
breaks = 'two null frames are at distance one'
edits = [('ABXpy/distances/metrics/cosine.py', '''    d[ix, :] = 1.
    d[:, iy] = 1.
    for i in np.where(ix)[0]:
        d[i, iy] = 0.
''', '''    d[ix, :] = 1.
    for i in np.where(ix)[0]:
        d[i, iy] = 0.
    d[:, iy] = 1.
''')]
demo = H + '''
def main():
    from ABXpy.distances.metrics import cosine
    x = np.array([[0., 0.], [1., 2.], [3., 3.]])
    y = np.array([[1., 1.], [0., 0.]])
    with np.errstate(all='ignore'):
        d = cosine.cosine_distance(x, y)
    return d[0, 1] == 0 and d[0, 0] == 1 and d[1, 1] == 1 and \\
        d[2, 1] == 1 and abs(d[2, 0]) < 1e-6


run(main)
'''
