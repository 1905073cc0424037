from seedlib import H
property = 'C07'
needs = 'two generations from the same task object, the first with a threshold and the second without'
breaks = 'the second generation is sampled with the threshold of the first'
edits = [('ABXpy/task.py',
          'self.threshold = threshold if threshold is not None else False',
          "self.threshold = (threshold if threshold is not None\n"
          "                          else getattr(self, 'threshold', False))")]
demo = H + '''
def main():
    attrs = [('x', 'p')] * 2 + [('y', 'p')] + [('x', 'q')] * 2 + [('y', 'q')]
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a')
    t.generate_triplets(output=path('a.abx'))
    t.generate_triplets(output=path('b.abx'), threshold=1)
    t.generate_triplets(output=path('c.abx'))
    n = [sum(len(x) for x in triplets(path(k + '.abx')).values())
         for k in 'abc']
    return n[0] == n[2] > n[1]


run(main)
'''
