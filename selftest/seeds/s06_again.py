from seedlib import H
property = 'C06'
needs = 'regressors on A and two by levels, numbered separately, a block of the second using the A items of the last block of the first'
breaks = 'the regressors of A of a block are those of a block of an earlier by level'
edits = [('ABXpy/sideop/regressor_manager.py',
          '''    def set_A_regressors(self, on_across_by_values, db, indices):
''',
          '''    def set_A_regressors(self, on_across_by_values, db, indices):
        # the A items are the same for all the B and X of a block
        key = tuple(indices)
        if getattr(self, '_A_key', None) == key:
            return
        self._A_key = key
''')]
demo = H + '''
def main():
    attrs = [('x', 'p', 'u', 'k'), ('x', 'q', 'v', 'k'),
             ('y', 'p', 'w', 'k'), ('y', 'q', 'r', 'k'),
             ('y', 'q', 'c', 'l'), ('y', 'p', 'd', 'l'),
             ('x', 'q', 'e', 'l'), ('x', 'p', 'f', 'l')]
    f = simple('d.item', 'o a r b', attrs)
    t = task(f, 'o', across='a', by=['b'], regressors=['r_A', 'r_X'])
    t.generate_triplets(output=path('d.abx'))
    got = triplets(path('d.abx'))
    regs = regressors(path('d.abx'))
    n = 0
    for k, by in enumerate(got):
        own = [x for x in attrs if x[3] in str(by)]
        cols = regs[sorted(regs)[k]]
        for i, r in enumerate(got[by]):
            n += 1
            if cols['r_A'][i] != own[r[0]][2] or \
                    cols['r_X'][i] != own[r[2]][2]:
                return False
    return n > 1


run(main)
'''
