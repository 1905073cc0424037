from seedlib import H
property = 'C14'
needs = ('a by level with fewer items than a type limit and a block of '
         'triplets larger than it, in a task with several by levels')
breaks = ('row numbers of a block wrap around, its triplets are repeated and '
          'others are lost')
edits = [('ABXpy/task.py',
          "ind_type = fit_integer_type(size, is_signed=False)\n"
          "            indices",
          "ind_type = fit_integer_type(\n"
          "                max(size // len(self.by_stats), len(A)), "
          "is_signed=False)\n"
          "            indices")]
demo = H + '''
def main():
    attrs = []
    for b in 'uvwxyz':
        n = 10 if b == 'u' else 1
        attrs += [('o', 'a', b)] * n + [('p', 'a', b)] * (n if n > 1 else 1)
    f = simple('d.item', 'o a b', attrs)
    t = task(f, 'o', by=['b'])
    t.generate_triplets(output=path('d.abx'))
    ts = triplets(path('d.abx'))
    # without across, blocks are single items: use one common talker
    got = [tuple(x) for tr in ts.values() for x in tr]
    ok = len(got) == len(set(got)) == 2 * 10 * 9 * 10
    attrs = [(o, 't%d' % (i % 2), 'u') for o in 'pq' for i in range(14)]
    attrs += [(o, 't%d' % i, b) for b in 'vwxyz' for o in 'pq'
              for i in range(2)]
    f = simple('e.item', 'o a b', attrs)
    t = task(f, 'o', across='a', by=['b'])
    t.generate_triplets(output=path('e.abx'))
    ts = triplets(path('e.abx'))
    big = [tuple(x) for x in max(ts.values(), key=len)]
    return ok and len(big) == len(set(big)) == 4 * 7 ** 3


run(main)
'''
