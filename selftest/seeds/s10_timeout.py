from seedlib import H
property = 'C10'
needs = 'a job that holds the lock for more than a minute'
breaks = 'the other jobs open the shared file without the lock'
edits = [('ABXpy/distances/distances.py',
          '''        # load pandas dataframe containing info for loading the features
        if synchronize:
            distance_file_lock.acquire()
''', '''        # load pandas dataframe containing info for loading the features
        if synchronize:
            distance_file_lock.acquire(True, 60)
''')]
demo = H + '''
class Busy(object):
    """a lock that somebody holds for ten minutes"""
    held = False

    def acquire(self, blocking=True, timeout=None):
        self.held = blocking and (timeout is None or timeout < 0 or
                                  timeout > 600)
        return self.held

    def release(self):
        self.held = False

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


def dist(x, y, normalized=None):
    return 1.


def main():
    import ABXpy.distances.distances as D
    attrs = [(o, a) for o in 'xy' for a in 'pq']
    f = simple('d.item', 'o a', attrs)
    t = task(f, 'o', across='a')
    abx, dis = path('d.abx'), path('d.dis')
    t.generate_triplets(output=abx)
    feat = features('d.h5f', {'f%d' % i: ([0.5], [[i, 1.]])
                              for i in range(len(attrs))})
    jobs = D.create_distance_jobs(abx, dis, 1)
    lock, opened = Busy(), []
    real = D.h5py.File, D.pandas.HDFStore

    def file(name, *a, **k):
        if name in (abx, dis):
            opened.append(lock.held)
        return real[0](name, *a, **k)

    def store(name, *a, **k):
        opened.append(lock.held)
        return real[1](name, *a, **k)
    D.h5py.File, D.pandas.HDFStore = file, store
    try:
        D.run_distance_job(jobs[0], dis, dist, [feat], ['features'], False, 0,
                           None, lock)
    except RuntimeError:
        return False
    finally:
        D.h5py.File, D.pandas.HDFStore = real
    return bool(opened) and all(opened)


run(main)
'''
