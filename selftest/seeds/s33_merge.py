from seedlib import H
property = 'C33'
needs = 'more rows than fit in one chunk of the external sort'
breaks = 'the rows do not come out in order of their keys'
edits = [('ABXpy/h5tools/h5_handler.py',
          '[buf.current_tail() for buf in i_buf[0] if not(buf.isempty())])',
          '[i_buf[0][c].current_tail() for c in range(n_chunks - 1) '
          'if not(i_buf[0][c].isempty())] or '
          '[i_buf[0][-1].current_tail()])')]
demo = H + '''
def main():
    import ABXpy.h5tools.h5_handler as hh
    f = path('s.h5')
    keys = np.random.RandomState(3).permutation(1000).reshape(1000, 1)
    with h5py.File(f, 'w') as fh:
        fh['k/a'] = keys
    hh.H5Handler(f, 'k', 'a').sort(.8, .8, DIR)
    with h5py.File(f, 'r') as fh:
        a = fh['k/a'][:, 0]
    return list(a) == list(range(1000))


run(main)
'''
