from seedlib import H
property = 'C05'
needs = 'a filter on a column determined by across, of the X item'
breaks = 'the value of the across column of A is used in place of that of X'
edits = [('ABXpy/sideop/side_operations_manager.py',
          "and not(s in ['A', 'B'] and r in self.across_cols))",
          "and not(s in ['_A', '_B', '_X'] and r in self.across_cols))")]
demo = H + '''
def main():
    attrs = [('x', 'p'), ('x', 'q'), ('x', 'r'), ('y', 'p'), ('y', 'q'),
             ('y', 'r')]
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a', filters=["[attr == 'q' for attr in a_X]"])
    t.generate_triplets(output=path('d.abx'))
    ts = [x for tr in triplets(path('d.abx')).values() for x in tr]
    return len(ts) == 4 and all(attrs[X][1] == 'q' for A, B, X in ts)


run(main)
'''
