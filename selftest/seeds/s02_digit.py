from seedlib import H
property = 'C02'
needs = 'a block whose numbers of B and X candidates differ'
breaks = 'some triplets are generated twice and others not at all'
edits = [('ABXpy/task.py', 'iB = np.mod(np.floor_divide(indices, len(X)), len(B))',
          'iB = np.floor_divide(np.mod(indices, len(B) * len(X)), max(len(A), len(X)))')]
demo = H + '''
def main():
    # unbalanced cells: 3 A/X candidates with the same on, few X
    attrs = [('x', 'p')] * 3 + [('y', 'p')] * 4 + [('x', 'q')] * 2 + [('y', 'r')]
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a')
    t.generate_triplets(output=path('d.abx'))
    want = sorted((a, b, x) for a, b, x in itertools.permutations(
        range(len(attrs)), 3)
        if attrs[a][0] == attrs[x][0] != attrs[b][0] and
        attrs[a][1] == attrs[b][1] != attrs[x][1])
    got = sorted(tuple(int(i) for i in r) for v in
                 triplets(path('d.abx')).values() for r in v)
    return got == want


run(main)
'''
