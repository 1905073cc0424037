from seedlib import H
property = 'C19'
needs = 'a frame within half a millisecond of the border of an item'
breaks = 'frames on the border of an item are dropped or added'
edits = [('ABXpy/distances/distances.py', '''self.times[f] <= off))[0]''',
'''np.round(self.times[f], 3) <= off))[0]''')]
demo = H + '''
def main():
    import pandas
    from ABXpy.distances.distances import Features_Accessor
    times = {'f': np.array([0., 0.25, 0.5, 0.7502, 1.1])}
    feats = {'f': np.arange(10.).reshape(5, 2)}
    items = pandas.DataFrame({'file': ['f'] * 3, 'onset': [0.25, 0.3, 0.],
                              'offset': [0.75, 0.6, 1.1]}, index=[0, 3, 4])
    got = Features_Accessor(times, feats).get_features_from_raw(items)
    want = {0: slice(1, 3), 3: slice(2, 3), 4: slice(0, 5)}
    return all(np.array_equal(got[k], feats['f'][s]) for k, s in want.items())


run(main)
'''
