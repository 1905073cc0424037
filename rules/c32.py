"""Conversion to the features format: every file once, under its own name.

The converter is interpreted on model folders, a loaded file being a pair of
tokens that name it; every call that writes is recorded with the lists it is
given at that moment. The lists written, one after the other, are compared with
the folder for every number of files and size of batches up to the bound: the
behaviour depends on these only through the position in the batch and whether
a batch is complete or the last.
"""
from rules.common import *
from rules.c31 import Verify
from sa.interp import LibError
from sa.pdlib import *

CONVERT = 'ABXpy.misc.any2h5features:convert'
MANY = 'ABXpy.misc.any2h5features:any_to_h5features'
ASSUMES = ['h5features.write appends the items it is given to the group',
           'a loader returns the arrays of the file it is given']
NAMES = ['b.npz', 'a.npz', 'c.d.npz', 's01_a.npz', 'x.npy', 'a1.npz',
         'e.npz']


class Loaded(object):
    def __init__(self, name, how):
        self.name, self.how = name, how


class Part(object):
    """an array of a loaded file"""

    def __init__(self, name, key):
        self.name, self.key = name, key


class Folder(Verify):
    def __init__(self, names):
        Verify.__init__(self, {})
        self.names, self.writes, self.loads = names, [], []

    def external(self, it, name, args, kw, st, node):
        try:
            if name == 'os.listdir':
                if self.py(it, args[0], st) != 'dir':
                    raise Unknown('listdir')
                return self.term(it, list(self.names), st)
            if name in ('numpy.load', 'np.load', 'loader'):
                n = self.py(it, args[0], st)
                if not isinstance(n, str):
                    raise Unknown('load')
                self.loads.append(name)
                if not n.startswith('dir/') or n[4:] not in self.names:
                    raise LibError(NOFILE, st, n)
                return self.term(it, Loaded(n[4:], name), st)
            if name == 'h5features.write':
                ks = ['filename', 'groupname', 'items', 'times', 'features']
                d = dict(zip(ks, args))
                d.update(kw)
                if set(d) != set(ks):
                    raise Unknown('arguments of h5features.write')
                self.writes.append([self.py(it, d[k], st) for k in ks])
                return NONE
        except LibError as e:
            e.st = e.st or st
            raise
        return Verify.external(self, it, name, args, kw, st, node)

    def item(self, x, i):
        if isinstance(x, Loaded):
            if i not in ('features', 'time', 'times'):
                raise LibError(KEY, why=str(i))
            return Part(x.name, i)
        return Verify.item(self, x, i)

    def meth(self, it, x, name, a, k, st):
        if isinstance(x, Loaded) and name == 'close':
            return None
        return Verify.meth(self, it, x, name, a, k, st)


def describe(lib, names, group, prefix=''):
    """None, or what is wrong with what was written"""
    got = []
    for f, g, items, times, feats in lib.writes:
        if f != 'out' or g.strip('/') != group.strip('/'):
            return 'the features are written to %s of %s' % (g, f)
        for x in (items, times, feats):
            if not isinstance(x, list):
                raise Unknown('lists written')
        if not len(items) == len(times) == len(feats):
            return 'a batch has %d names, %d times and %d features' % (
                len(items), len(times), len(feats))
        for n, t, v in zip(items, times, feats):
            if not isinstance(t, Part) or not isinstance(v, Part):
                raise Unknown('arrays written')
            got.append((n, t.name, t.key[:4], v.name, v.key))
    want = [(n.rsplit('.', 1)[0], n, 'time', n, 'features') for n in names]
    if sorted(got) == sorted(want):
        return None
    for g in got:
        if g not in want:
            return 'the item %s gets the %s of %s and the %s of %s' % (
                g[0], g[2], g[1], g[4], g[3])
    for w in want:
        if got.count(w) != want.count(w):
            return '%s is written %d times' % (w[1], got.count(w))


def run(ck, fn, args, kw, names):
    it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                exact=True)
    it.lib = lib = Folder(names)
    ck.saw(it)
    it.run(fn, [const(a) if not isinstance(a, (T, list)) else
                mk('tuple', *map(const, a)) if isinstance(a, list) else a
                for a in args],
           {k: v if isinstance(v, T) else const(v) for k, v in kw.items()})
    return lib


def batches(ck):
    ck.repo.lookup(MANY)
    top, n = 7 if ck.tier == 'quick' else 7, 0
    for k in range(top + 1):
        names = NAMES[:k]
        for b in range(1, k + 2):
            try:
                lib = run(ck, MANY, ['dir', names, 'out', '/features/'],
                          {'batch_size': b}, names)
                bad = describe(lib, names, 'features')
                if bad is None and any(len(w[2]) > b for w in lib.writes):
                    bad = 'a batch of more than %d files' % b
            except LibError as e:
                bad = 'the conversion fails: %s' % e
            except Unknown as e:
                ck.undecided('batches', MANY, '%d files by %d: %s' % (
                    k, b, e))
                return
            if bad:
                ck.violated('batches', MANY, '%d files by %d: %s' % (
                    k, b, bad))
                return
            n += 1
    ck.holds('batches', MANY, 'every file is written once with its own '
             'arrays in %d runs' % n)


def folder(ck):
    ck.repo.lookup(CONVERT)
    for what, kw, how in (('a folder', {}, 'numpy.load'),
                          ('a folder and a loader', {
                              'load': sym('loader')}, 'loader')):
        for k in (0, 1, 3):
            names = NAMES[:k]
            try:
                lib = run(ck, CONVERT, ['dir', 'out'], kw, names)
                bad = describe(lib, names, 'features')
                if not bad and any(x != how for x in lib.loads):
                    bad = 'the files are loaded by another function'
            except LibError as e:
                bad = 'the conversion fails: %s' % e
            except Unknown as e:
                ck.undecided('folder', CONVERT, '%s of %d files: %s' % (
                    what, k, e))
                return
            if bad:
                ck.violated('folder', CONVERT, '%s of %d files: %s' % (
                    what, k, bad))
                return
    ck.holds('folder', CONVERT, 'the files of the folder, loaded by the '
             'given function')


RULES = [batches, folder]
