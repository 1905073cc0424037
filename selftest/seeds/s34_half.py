from seedlib import H
property = 'C34'
needs = 'a frame of the longer sequence exactly between two of the shorter'
breaks = 'the frame is aligned with the later one only'
edits = [('ABXpy/distances/metrics/utw.py',
'''i_half = np.concatenate([l3i-1, l3i])''',
'''i_half = np.concatenate([l3i, l3i])''')]
demo = H + '''
def main():
    from ABXpy.distances.metrics.utw import utw
    m = lambda x, y: np.sum(np.abs(x - y), axis=1)
    g = np.random.RandomState(0)
    for a in range(1, 9):
        for b in range(1, 9):
            x, y = g.rand(a, 2), g.rand(b, 2)
            # the alignment does not depend on the direction of time
            if abs(utw(x, y, m) - utw(x[::-1], y[::-1], m)) > 1e-9:
                return False
            if abs(utw(x, y, m) - utw(y, x, m)) > 1e-9:
                return False
    return True


run(main)
'''
