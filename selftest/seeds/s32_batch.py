from seedlib import H
property = 'C32'
needs = 'more files than the size of a batch'
breaks = 'the names of a batch are written again with the next one'
edits = [('ABXpy/misc/any2h5features.py',
          "        if i == batch_size:\n"
          "            h5features.write(h5_filename, h5_groupname, internal_files, times,\n"
          "                             features)\n",
          "        if i > batch_size:\n"
          "            h5features.write(h5_filename, h5_groupname,\n"
          "                             internal_files[:batch_size],\n"
          "                             times[:batch_size],\n"
          "                             features[:batch_size])\n")]
demo = H + '''
from ABXpy.misc import any2h5features


def main():
    os.mkdir(path('in'))
    names = ['a', 'b', 'c', 'd', 'e']
    for n in names:
        with open(os.path.join(path('in'), n + '.npz'), 'wb') as f:
            np.savez(f, time=np.array([0.1, 0.2]),
                     features=np.array([[1., 2.], [3., 4.]]))
    any2h5features.any_to_h5features(path('in'), [n + '.npz' for n in names],
                                     path('o.h5f'), '/features/', batch_size=2)
    import h5features
    t, f = h5features.read(path('o.h5f'), 'features')
    print(sorted(t))
    return sorted(t) == names


run(main)
'''
