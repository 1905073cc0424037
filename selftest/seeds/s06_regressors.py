from seedlib import H
property = 'C06'
needs = 'a regressor on B and a threshold or several regressor groups'
breaks = 'the regressors of B describe other triplets once the rows are reordered'
edits = [('ABXpy/task.py', '''for names, regs in zip(self.regressors.B_names,
                                   self.regressors.B_regressors):
            for name, reg in zip(names, regs):
                regressors[name] = reg[iB]
                if self.filters.ABX:
                    regressors[name] = regressors[name][ABX_filter_ind]
                regressors[name] = regressors[name][thr_sort_permut]''',
 '''for names, regs in zip(self.regressors.B_names,
                                   self.regressors.B_regressors):
            for name, reg in zip(names, regs):
                regressors[name] = reg[iB]
                if self.filters.ABX:
                    regressors[name] = regressors[name][ABX_filter_ind]
                if self.threshold:
                    regressors[name] = regressors[name][thr_sort_permut]''')]
demo = H + '''
def main():
    attrs = [('x', 'p', 'u'), ('x', 'q', 'v'), ('y', 'p', 'v'), ('y', 'p', 'u'),
             ('z', 'p', 'w'), ('x', 'q', 'w'), ('z', 'p', 'u'), ('x', 'p', 'w')]
    f = simple('d.item', 'o a r', attrs)
    t = task(f, 'o', across='a', regressors=['r_B', 'r_X'])
    t.generate_triplets(output=path('d.abx'))
    tr = np.concatenate(list(triplets(path('d.abx')).values()))
    cols = regressors(path('d.abx'))['0']
    return len(tr) > 5 and all(
        cols['r_B'][i] == attrs[r[1]][2] and cols['r_X'][i] == attrs[r[2]][2]
        for i, r in enumerate(tr))


run(main)
'''
