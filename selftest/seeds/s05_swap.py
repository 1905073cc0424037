from seedlib import H
property = 'C05'
needs = ('a filter that mixes columns of two items, of which one is a by '
         'column or another item')
breaks = 'the B columns of a triplet filter are those of another item'
edits = [('ABXpy/sideop/side_operations_manager.py', '''        context = self.set_A_B_X_context(
            'B_context', context, 'ABX', db, triplets[:, 1])
        context = self.set_A_B_X_context(
            'X_context', context, 'ABX', db, triplets[:, 2])
''', '''        for name, column in (('X_context', 1), ('B_context', 2)):
            context = self.set_A_B_X_context(
                name, context, 'ABX', db, triplets[:, column])
''')]
demo = H + '''
def main():
    attrs = [('x', 'p', 1), ('x', 'q', 1), ('y', 'p', 2), ('x', 'q', 2),
             ('y', 'p', 1), ('x', 'p', 2)]
    f = simple('d.item', 'o a r', attrs)
    t = task(f, 'o', across='a', filters=[
        "[u == 1 and v == 2 for u, v in zip(r_B, r_X)]"])
    t.generate_triplets(output=path('d.abx'))
    ts = [x for tr in triplets(path('d.abx')).values() for x in tr]
    return len(ts) > 0 and all(
        attrs[B][2] == 1 and attrs[X][2] == 2 for A, B, X in ts)


run(main)
'''
