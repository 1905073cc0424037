from seedlib import H
property = 'C28'
needs = 'a task that has blocks but no triplet'
breaks = 'no warning is given and a task file without triplets is started'
edits = [('ABXpy/task.py', "        if self.stats['nb_triplets'] == 0:\n",
          "        if self.stats['nb_blocks'] == 0:\n")]
demo = H + '''
def main():
    import warnings
    f = simple('d.item', 'o a', [('x', 'p'), ('x', 'q')])
    t = task(f, 'o', across='a')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        t.generate_triplets(output=path('d.abx'))
    return any('triplets' in str(x.message) for x in w) and \\
        not os.path.exists(path('d.abx'))


run(main)
'''
