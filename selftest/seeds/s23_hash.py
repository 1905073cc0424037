from seedlib import H
property = 'C23'
needs = 'a threshold, a categorical regressor and another hash seed'
breaks = 'the sample follows the order in which the labels hash'
edits = [('ABXpy/dbfun/dbfun_column.py', "            index.sort()\n", "")]
demo = H + '''
import subprocess
CODE = """
import sys
import h5py
from ABXpy import task
t = task.Task(sys.argv[1], 'p')
t.generate_triplets(sys.argv[2], threshold=2, seed=4)
with h5py.File(sys.argv[2], 'r') as h:
    print(h['triplets/data'][:].tolist())
"""


def main():
    f = simple('d.item', 'p', [('pqrstuvw'[i % 8],) for i in range(40)])
    out = set()
    for s in range(4):
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE, f,
                            path('o%d.abx' % s)], check=True,
                           stdout=subprocess.PIPE,
                           env=dict(os.environ, PYTHONHASHSEED=str(s)))
        out.add(r.stdout)
    print(len(out))
    return len(out) == 1


run(main)
'''
