from seedlib import H
property = 'C17'
needs = 'an item without frames compared with one that has some'
breaks = 'the edit distance of an empty and a non-empty item is finite'
edits = [('ABXpy/distance.py', '''    if x.shape[0] > 0 and y.shape[0] > 0:
        # x and y are not empty
        d = editdistance''', '''    if x.shape[0] > 0 or y.shape[0] > 0:
        # x and y are not empty
        d = editdistance''')]
demo = H + '''
def main():
    from ABXpy import distance
    e, x = np.zeros((0, 2)), np.arange(6.).reshape(3, 2)
    for f, a in ((distance.edit_distance, ()),
                 (distance.default_distance, (True,)),
                 (distance.dtw_kl_distance, (False,))):
        if f(e, e, *a) != 0 or f(e, x, *a) != np.inf or f(x, e, *a) != np.inf:
            return False
        if not np.isfinite(f(x + 1, x + 2, *a)):
            return False
    return True


run(main)
'''
