from seedlib import H
property = 'C28'
needs = 'an auxiliary file with a column name that has an underscore'
breaks = 'the column is accepted, its name can mean a column of another item'
edits = [('ABXpy/task.py',
          "        for col in cols:\n            assert '_' not in col, \\\n",
          "        for col in {tree.name for tree in self.db_hierarchy}:\n"
          "            assert '_' not in col, \\\n")]
demo = H + '''
def main():
    f = simple('d.item', 'o a', [('x', 'p'), ('x', 'q'), ('y', 'p'),
                                 ('y', 'q')])
    task(f, 'o', across='a')
    with open(path('d.a'), 'w') as fh:
        fh.write('a kind\\np 1\\nq 2\\n')
    task(f, 'o', across='a', by=['kind'])
    with open(path('d.a'), 'w') as fh:
        fh.write('a kind o_A\\np 1 k\\nq 2 l\\n')
    try:
        task(f, 'o', across='a', filters=['o_A'])
    except (AssertionError, ValueError):
        return True
    return False


run(main)
'''
