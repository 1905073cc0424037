from seedlib import H
property = 'C27'
needs = 'absolute positions and a last chunk that is shorter than the others'
breaks = 'the start of the last chunk is computed from the size of the others'
edits = [('ABXpy/sampling/sampler.py',
          "            sample = sample + position",
          "            sample = sample + (self.initial_N - self.N - size)"),
         ('ABXpy/sampling/sampler.py',
          "        position = self.initial_N - self.N\n",
          "        size = n\n")]
demo = H + '''
import numpy as np
from ABXpy.sampling.sampler import IncrementalSampler


def main():
    np.random.seed(0)
    for step in (100, 70):
        s = IncrementalSampler(200, 200, step=step, relative_indexing=False)
        if list(np.concatenate(list(s))) != list(range(200)):
            return False
    return True


run(main)
'''
