from seedlib import H
property = 'C19'
needs = 'items of different files with the same interval, the files having frames at different times'
breaks = 'the frames of the second item are those at the positions found in the file of the first'
edits = [('ABXpy/distances/distances.py',
          "    def get_features_from_raw(self, items):\n",
          "    def get_features_from_raw(self, items):\n"
          "        known = {}\n"),
         ('ABXpy/distances/distances.py',
          '''            t = np.where(np.logical_and(
                self.times[f] >= on,
                self.times[f] <= off))[0]
''',
          '''            if (on, off) not in known:
                known[on, off] = np.where(np.logical_and(
                    self.times[f] >= on,
                    self.times[f] <= off))[0]
            t = known[on, off]
''')]
demo = H + '''
def main():
    import pandas
    from ABXpy.distances.distances import Features_Accessor
    times = {'f': np.array([0., 0.25, 0.5, 0.75]),
             'g': np.array([0.1, 0.2, 0.3, 0.4, 0.8])}
    feats = {'f': np.arange(8.).reshape(4, 2),
             'g': np.arange(10.).reshape(5, 2)}
    items = pandas.DataFrame({'file': ['f', 'g', 'f'],
                              'onset': [0.2, 0.2, 0.4],
                              'offset': [0.6, 0.6, 0.6]}, index=[0, 3, 4])
    got = Features_Accessor(times, feats).get_features_from_raw(items)
    want = {0: feats['f'][1:3], 3: feats['g'][1:4], 4: feats['f'][2:3]}
    return all(np.array_equal(got[k], want[k]) for k in want)


run(main)
'''
