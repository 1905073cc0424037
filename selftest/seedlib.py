"""Header of the demonstrations."""
H = '''import itertools
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np

DIR = tempfile.mkdtemp()


def path(n):
    return os.path.join(DIR, n)


def items(name, header, rows):
    """item file; header of the attribute columns, rows of values"""
    with open(path(name), 'w') as fh:
        fh.write('#file onset offset #' + header + '\\n')
        for r in rows:
            fh.write(' '.join(str(x) for x in r) + '\\n')
    return path(name)


def simple(name, header, attrs):
    return items(name, header, [('f%d' % i, 0, 1) + tuple(a)
                                for i, a in enumerate(attrs)])


def features(name, d):
    import h5features
    ks = sorted(d)
    h5features.write(path(name), 'features', ks,
                     [np.asarray(d[k][0], float) for k in ks],
                     [np.asarray(d[k][1], float) for k in ks])
    return path(name)


def task(*a, **k):
    import ABXpy.task
    return ABXpy.task.Task(*a, **k)


def triplets(f):
    """{by: triplets} of a task file"""
    with h5py.File(f, 'r') as fh:
        out = {}
        for by, (a, b) in zip(fh['bys'][...], fh['triplets/by_index'][...]):
            out[by if isinstance(by, str) else by.decode()] = \\
                fh['triplets/data'][a:b]
        return out


def regressors(f):
    """{by index: {name: decoded column}} of a task file"""
    res = {}
    with h5py.File(f, 'r') as fh:
        for by, g in fh['regressors'].items():
            d = g['indexed_data'][...]
            for i, n in enumerate(g['indexed_datasets'][...]):
                n = n if isinstance(n, str) else n.decode()
                lev = [v if isinstance(v, str) else v.decode()
                       for v in g['indexes'][n][...]]
                res.setdefault(by, {})[n] = [lev[int(k)] for k in d[:, i]]
    return res


def run(main):
    try:
        sys.stdout = open(os.devnull, 'w')
        ok = main()
    finally:
        sys.stdout = sys.__stdout__
        shutil.rmtree(DIR, ignore_errors=True)
    print('ok' if ok else 'BROKEN')
    sys.exit(0 if ok else 1)


'''
