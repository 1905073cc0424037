from seedlib import H
property = 'C22'
needs = 'a failure while the pairs are being sorted'
breaks = 'the temporary sort file stays behind'
edits = [('ABXpy/h5tools/h5_handler.py', '''try:
            self.tmp.close()
            os.remove(self.tmpfile)
            os.rmdir(self.tmpdir)
        except:
            print('problem')
            # here could log a warning...
            pass''', '''self.tmp.close()
        if eType is None:
            os.remove(self.tmpfile)
            os.rmdir(self.tmpdir)''')]
demo = H + '''
def main():
    import ABXpy.h5tools.h5_handler as hh
    f = path('s.h5')
    with h5py.File(f, 'w') as fh:
        fh['k/a'] = np.arange(10).reshape(10, 1)
        fh['k/b'] = np.arange(9).reshape(9, 1)
    os.mkdir(path('tmp'))
    try:
        hh.H5Handler(f, 'k', 'a', ['k'], ['b']).sort(1, 1, path('tmp'))
    except IOError:
        return os.listdir(path('tmp')) == []
    return False


run(main)
'''
