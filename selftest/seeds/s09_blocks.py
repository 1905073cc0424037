from seedlib import H
property = 'C09'
needs = 'several jobs'
breaks = 'some pairs belong to no job, their distance is never computed'
edits = [('ABXpy/distances/distances.py', '''            n_dist.append(amount)
            sta = sta + amount''', '''            n_dist.append(amount)
            sta = sto + 1''')]
demo = H + '''
def main():
    from ABXpy.distances.distances import create_distance_jobs
    ok = True
    for n_cpu in (1, 2, 3, 5):
        attrs = [(o, a) for o in 'xyz' for a in 'pqr']
        f = simple('d%d.item' % n_cpu, 'o a', attrs)
        t = task(f, 'o', across='a')
        abx = path('d%d.abx' % n_cpu)
        t.generate_triplets(output=abx)
        with h5py.File(abx, 'r') as fh:
            n = fh['unique_pairs/data'].shape[0]
        seen = set()
        for j in create_distance_jobs(abx, abx + '.dis', n_cpu):
            for a, b in zip(j['start'], j['stop']):
                seen |= set(range(a, b))
        ok = ok and seen == set(range(n))
    return ok


run(main)
'''
