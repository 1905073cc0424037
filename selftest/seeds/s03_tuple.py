from seedlib import H
property = 'C03'
needs = 'two across columns and a block with the same label in both'
breaks = 'the announced number of triplets is wrong'
edits = [('ABXpy/task.py',
          '                    if need_approx and not isinstance(across, tuple):\n',
          '                    if need_approx and not (\n'
          '                            isinstance(across, tuple) and\n'
          '                            len(set(across)) > 1):\n')]
demo = H + '''
def main():
    attrs = list(itertools.product('xy', 'pq', 'pq')) + [('x', 'p', 'q')]
    f = simple('d.item', 'o a b', attrs)
    t = task(f, 'o', across=['a', 'b'])
    n = 0
    for A, B, X in itertools.permutations(range(len(attrs)), 3):
        a, b, x = attrs[A], attrs[B], attrs[X]
        n += a[0] == x[0] != b[0] and a[1:] == b[1:] and \\
            a[1] != x[1] and a[2] != x[2]
    return t.stats['nb_triplets'] == n


run(main)
'''
