from seedlib import H
property = 'C23'
needs = 'the seed 0 and a threshold'
breaks = 'the generator is not seeded when the seed is 0'
edits = [('ABXpy/task.py', "        np.random.seed(seed)\n",
          "        if seed:\n            np.random.seed(seed)\n")]
demo = H + '''
from ABXpy import task


def main():
    f = simple('d.item', 'p c', [('ab'[i % 2], 'xy'[i % 3 // 2])
                                 for i in range(24)])
    out = []
    for seed in (3, 0):
        r = []
        for k in range(2):
            np.random.rand(7 + k)
            t = task.Task(f, 'p', by='c')
            t.generate_triplets(path('o%d%d.abx' % (seed, k)), threshold=5,
                                seed=seed)
            with h5py.File(path('o%d%d.abx' % (seed, k)), 'r') as h:
                r.append(h['triplets/data'][:])
        out.append(np.array_equal(*r))
    print(out)
    return all(out)


run(main)
'''
