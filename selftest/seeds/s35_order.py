from seedlib import H
property = 'C35'
needs = 'level lists declared in another order than the names'
breaks = ('the columns of level numbers follow the names, their labels follow '
          'the level lists')
edits = [('ABXpy/h5tools/h5io.py',
          "indexed_values = [data[dset] for dset in self.non_fused_datasets]",
          "indexed_values = [data[dset] for dset in self.managed_datasets\n"
          "                              if dset in self.non_fused_datasets]")]
demo = H + '''
import h5py
import numpy as np
from ABXpy.h5tools.h5io import H5IO


def main():
    levels = {'age': ['old', 'young', 'mid'], 'sex': ['f', 'm']}
    data = {'sex': np.array([0, 1, 1]), 'age': np.array([2, 0, 1])}
    with H5IO(path('r.h5'), ['sex', 'age'], levels, group='/r/') as fh:
        fh.write((data['sex'], data['age']), indexed=True)
    with h5py.File(path('r.h5'), 'r') as fh:
        g = fh['r']
        names = list(g['indexed_datasets'][...])
        table = g['indexed_data'][...]
        got = {n: [g['indexes'][n][...][k] for k in table[:, j]]
               for j, n in enumerate(names)}
    return all([str(x) for x in got[n]] == [levels[n][k] for k in data[n]]
               for n in levels)


run(main)
'''
