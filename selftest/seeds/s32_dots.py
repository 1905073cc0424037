from seedlib import H
property = 'C32'
needs = 'a file whose name holds several dots'
breaks = 'the features are stored under a shortened name'
edits = [('ABXpy/misc/any2h5features.py',
          "        internal_files.append(os.path.splitext(f)[0])\n",
          "        internal_files.append(f.split(os.extsep)[0])\n")]
demo = H + '''
from ABXpy.misc import any2h5features


def main():
    os.mkdir(path('in'))
    for n in ('a.v1', 'b'):
        with open(os.path.join(path('in'), n + '.npz'), 'wb') as f:
            np.savez(f, time=np.array([0.1, 0.2]),
                     features=np.array([[1., 2.], [3., 4.]]))
    any2h5features.convert(path('in'), path('o.h5f'))
    import h5features
    t, f = h5features.read(path('o.h5f'), 'features')
    print(sorted(t))
    return sorted(t) == ['a.v1', 'b']


run(main)
'''
