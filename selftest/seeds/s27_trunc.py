from seedlib import H
property = 'C27'
needs = 'a small sample of a large population, many times'
breaks = ('more positions than needed are drawn at once and the largest are '
          'dropped: small positions are sampled too often')
edits = [('ABXpy/sampling/sampler.py',
          "np.random.randint(0, int(N), int(remaining)).astype(dtype)",
          "np.random.randint(\n            0, int(N), int(remaining) + int(n) // 8).astype(dtype)"),
         ('ABXpy/sampling/sampler.py',
          "        remaining = n - sample.shape[0]\n    return sample",
          "        remaining = n - sample.shape[0]\n    return sample[:n]")]
demo = H + '''
import numpy as np
from ABXpy.sampling.sampler import sample_without_replacement


def main():
    np.random.seed(0)
    tot, k = 0., 400
    for i in range(k):
        s = sample_without_replacement(100, 1001)
        if len(set(s)) != 100 or min(s) < 0 or max(s) > 1000:
            return False
        tot += np.mean(s)
    # standard deviation of the mean: 289 / sqrt(400 * 100) < 1.5
    return abs(tot / k - 500) < 10


run(main)
'''
