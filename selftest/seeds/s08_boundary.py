from seedlib import H
property = 'C08'
needs = 'more pairs than the read buffer holds and a pair repeated across two reads'
breaks = 'the list of pairs to compute holds duplicates'
edits = [('ABXpy/task.py', '''                            last = -1
                            for pairs in inp:
                                pairs = np.unique(pairs)
                                # unique alters the shape''',
'''                            for pairs in inp:
                                last = -1
                                pairs = np.unique(pairs)
                                # unique alters the shape''')]
demo = H + '''
def main():
    attrs = [(o, a) for o in 'xy' for a in 'pq' for i in range(27)]
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a')
    t.generate_triplets(output=path('d.abx'))
    want = set()
    for tr in triplets(path('d.abx')).values():
        for A, B, X in tr.tolist():
            want |= {A + 108 * X, B + 108 * X}
    with h5py.File(path('d.abx'), 'r') as fh:
        got = fh['unique_pairs/data'][:, 0].tolist()
    return got == sorted(want)


run(main)
'''
