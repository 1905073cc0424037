from seedlib import H
property = 'C15'
needs = 'fewer rows written to a dataset than announced'
breaks = 'the incomplete dataset goes unnoticed'
edits = [('ABXpy/h5tools/np2h5.py', '''raise Warning(
                    'File %s, the amount of data actually written is not consistent with the size of the datasets' % self.filename)''',
'''print(
                    'File %s, the amount of data actually written is not consistent with the size of the datasets' % self.filename)''')]
demo = H + '''
def main():
    from ABXpy.h5tools.np2h5 import NP2H5
    for n, ok in ((5, True), (4, False)):
        try:
            with NP2H5(path('t%d.h5' % n)) as o:
                d = o.add_dataset('g', 'd', n_rows=5, n_columns=1)
                d.write(np.zeros((n, 1), int))
            done = True
        except Warning:
            done = False
        if done != ok:
            return False
    return True


run(main)
'''
