from seedlib import H
property = 'C27'
needs = 'samples of a good part of the population, many times'
breaks = 'positions at the start of the population are sampled too often'
edits = [('ABXpy/sampling/sampler.py',
          "if (N - t) * u < n - m:",
          "if (N - t - 1) * u < n - m:")]
demo = H + '''
import numpy as np
from ABXpy.sampling.sampler import sample_without_replacement


def main():
    np.random.seed(0)
    k = np.zeros(10)
    for i in range(4000):
        s = sample_without_replacement(5, 10)
        if len(set(s)) != 5 or min(s) < 0 or max(s) > 9:
            return False
        k[s] += 1
    # standard deviation of a frequency: 0.008
    return np.all(np.abs(k / 4000 - .5) < .05)


run(main)
'''
