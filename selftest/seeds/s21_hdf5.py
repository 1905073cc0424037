from seedlib import H
property = 'C21'
needs = 'an existing file under the name of the scores which is not hdf5'
breaks = 'an existing file is overwritten by the scores'
edits = [('ABXpy/score.py',
          "    assert not os.path.exists(score_file), (",
          "    assert not h5py.is_hdf5(score_file), (")]
demo = H + '''
import warnings
import numpy as np
import ABXpy.task as task
import ABXpy.score as score
import ABXpy.distances.distances as distances
import ABXpy.misc.items as items


def main():
    items.generate_db_and_feat(3, 3, 1, path('d.item'), 2, 3, path('d.fea'))
    t = task.Task(path('d.item'), 'c0', 'c1', 'c2')
    t.generate_triplets(path('d.abx'))
    distances.compute_distances(
        path('d.fea'), '/features/', path('d.abx'), path('d.dis'),
        lambda x, y, normalized: float(np.abs(x.mean() - y.mean())), True,
        n_cpu=1)
    with open(path('notes'), 'w') as f:
        f.write('my notes')
    try:
        score.score(path('d.abx'), path('d.dis'), path('notes'))
    except Exception as e:
        print('refused', e)
    with open(path('notes'), 'rb') as f:
        return f.read() == b'my notes'


run(main)
'''
