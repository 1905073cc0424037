from seedlib import H
property = 'C24'
needs = 'a features file with another group than the default one, -g and -d'
breaks = 'the group is only passed on for the default distance'
edits = [('ABXpy/distance.py',
          "        distancefun = default_distance\n\n    distances.compute_distances(\n        features, group, task, output,",
          "        distancefun = default_distance\n    if distancefun is not default_distance:\n        group = 'features'\n\n    distances.compute_distances(\n        features, group, task, output,")]
demo = H + '''
import sys
import ABXpy.distance
from ABXpy.distances import distances


def main():
    seen = []
    distances.compute_distances = lambda *a, **k: seen.append((a, k))
    for opts in ([], ['-d', 'levenshtein']):
        sys.argv = ['abx-distance', 'f.h5', path('t'), path('o'), '-n', '1',
                    '-g', 'mfcc'] + opts
        ABXpy.distance.main()
    return all(a[1] == 'mfcc' for a, k in seen)


run(main)
'''
