from seedlib import H
property = 'C07'
needs = 'a group of triplets with exactly one more triplet than the threshold'
breaks = 'a group keeps more triplets than the threshold'
edits = [('ABXpy/task.py', 'if threshold and c > threshold:',
          'if threshold and c - 1 > threshold:')]
demo = H + '''
def main():
    attrs = [('x', 'p')] * 2 + [('y', 'p')] + [('x', 'q')] * 2 + [('y', 'q')]
    f = simple('d.item', 'o a', attrs)
    for thr in (1, 2, 3):
        t = task(f, 'o', across='a')
        t.generate_triplets(output=path('d%d.abx' % thr), threshold=thr)
        n = {}
        for tr in triplets(path('d%d.abx' % thr)).values():
            for A, B, X in tr:
                k = tuple(attrs[i] for i in (A, B, X))
                n[k] = n.get(k, 0) + 1
        if not n or max(n.values()) > thr:
            return False
    return True


run(main)
'''
