from seedlib import H
property = 'C01'
needs = 'a filter on A that keeps only some of the members of a block'
breaks = 'X can share the across value of A'
edits = [('ABXpy/task.py', '''            X = np.array(list(on_set.difference(A)), dtype=self.types[by])

        # apply singleton filters
        db = self.by_dbs[by]
        if self.filters.A:
            iA = self.filters.A_filter(on_across_by_values, db, A)
            A = A[iA]
''', '''            X = None

        # apply singleton filters
        db = self.by_dbs[by]
        if self.filters.A:
            iA = self.filters.A_filter(on_across_by_values, db, A)
            A = A[iA]
        if X is None:
            X = np.array(list(on_set.difference(A)), dtype=self.types[by])
''')]
demo = H + '''
def main():
    attrs = [('x', 'p', 1), ('x', 'p', 2), ('x', 'q', 1), ('y', 'p', 1),
             ('y', 'p', 2), ('y', 'q', 2)]
    f = simple('d.item', 'o a r', attrs)
    t = task(f, 'o', across='a', filters=["[attr == 1 for attr in r_A]"])
    t.generate_triplets(output=path('d.abx'))
    n = 0
    for tr in triplets(path('d.abx')).values():
        for A, B, X in tr:
            n += 1
            if attrs[A][1] == attrs[X][1]:
                return False
    return n > 0


run(main)
'''
