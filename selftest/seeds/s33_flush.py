from seedlib import H
property = 'C33'
needs = 'a dataset sorted along with the keys, in another order than theirs'
breaks = 'the last rows of the other datasets are not permuted like the keys'
edits = [('ABXpy/h5tools/h5_handler.py', '''if data:  # False iff list is empty
                                    data = np.concatenate(data)
                                    o_buf[d].write(data[order, :])''',
          '''if data:  # False iff list is empty
                                    data = np.concatenate(data)
                                    order = np.argsort(data[:, 0])
                                    o_buf[d].write(data[order, :])''')]
demo = H + '''
def main():
    import ABXpy.h5tools.h5_handler as hh
    f = path('s.h5')
    keys = np.array([5, 3, 9, 1, 7, 2, 8, 0, 6, 4]).reshape(10, 1)
    with h5py.File(f, 'w') as fh:
        fh['k/a'] = keys
        fh['k/b'] = 100 - keys
    hh.H5Handler(f, 'k', 'a', ['k'], ['b']).sort(1, 1, DIR)
    with h5py.File(f, 'r') as fh:
        a, b = fh['k/a'][:, 0], fh['k/b'][:, 0]
    return list(a) == list(range(10)) and all(a + b == 100)


run(main)
'''
