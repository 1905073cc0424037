from seedlib import H
property = 'C04'
needs = ('three filters on the same item, of which the first ones leave only '
         'the first item of a block')
breaks = 'the remaining filters are not applied'
edits = [('ABXpy/sideop/filter_manager.py', '''        if not(kept.size):
            break
''', '''        if not kept.any():
            break
''')]
demo = H + '''
def main():
    attrs = [('x', 'p', 1, 1), ('x', 'p', 2, 2), ('x', 'q', 1, 2),
             ('y', 'p', 1, 1), ('y', 'p', 1, 2), ('y', 'q', 2, 2)]
    f = simple('d.item', 'o a r s', attrs)
    t = task(f, 'o', across='a', filters=["[attr == 1 for attr in r_A]",
                                          "[attr == 2 for attr in s_A]"])
    t.generate_triplets(output=path('d.abx'))
    ts = [x for tr in triplets(path('d.abx')).values() for x in tr]
    return len(ts) > 0 and all(attrs[A][2:] == (1, 2) for A, B, X in ts)


run(main)
'''
