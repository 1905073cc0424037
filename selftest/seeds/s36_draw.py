from seedlib import H
property = 'C36'
needs = 'verbose, a threshold which is exceeded and a seed'
breaks = 'the triplets kept by the threshold depend on the verbosity'
edits = [('ABXpy/task.py',
          '                    print("Writing ABX triplets to task file...")\n',
          '                    print("Writing ABX triplets to task file, "\n'
          '                          "{} items such as {}".format(\n'
          '                              len(db), dict(db.iloc[\n'
          '                                  np.random.randint(len(db))])))\n')]
demo = H + '''
import h5py
import numpy as np
import ABXpy.task as task


def rows(verbose):
    with open(path('d.item'), 'w') as f:
        f.write('#file onset offset #phone spk ctx\\n')
        for i in range(60):
            f.write('f%d %d %d p%d s%d c%d\\n' % (
                i, i, i + 1, i % 2, i // 2 % 3, i // 6 % 2))
    out = path('v%d.abx' % verbose)
    t = task.Task(path('d.item'), 'phone', 'spk', 'ctx', verbose=verbose)
    t.generate_triplets(out, threshold=3, seed=5)
    with h5py.File(out, 'r') as h:
        return h['triplets/data'][...]


def main():
    a, b = rows(False), rows(True)
    return a.shape == b.shape and bool(np.all(a == b))


run(main)
'''
