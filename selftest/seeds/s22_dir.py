from seedlib import H
property = 'C22'
needs = 'a temporary directory given by the caller'
breaks = 'the temporary sort files go to the default directory'
edits = [('ABXpy/task.py', 'sort_pairs(output_tmp, by, tmpdir=tmpdir)',
          'sort_pairs(output_tmp, by)')]
demo = H + '''
def main():
    f = simple('d.item', 'o a', [(o, a) for o in 'xyz' for a in 'pq'])
    os.mkdir(path('want'))
    os.mkdir(path('other'))
    tempfile.tempdir = path('other')
    dirs = []
    mk = tempfile.mkdtemp

    def rec(*a, **k):
        dirs.append(mk(*a, **k))
        return dirs[-1]
    tempfile.mkdtemp = rec
    task(f, 'o', across='a').generate_triplets(output=path('d.abx'),
                                               tmpdir=path('want'))
    return all(d.startswith(path('want')) for d in dirs)


run(main)
'''
