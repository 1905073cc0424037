"""Files: what a step is given is only read.

An effect analysis of the paths. Every function of the pipeline is interpreted
with symbols for the files; all the accesses to files it makes, in the code it
calls too, are collected with the path, as a term over the symbols, and the
mode. The rules compare them with what the step owns.
"""
from rules.common import *
from rules.c23 import last
from sa import drive

ASSUMES = ['the libraries open files in the mode which they are asked for',
           'the paths which a step is given are different files']
# name: (position of the path, of the mode, mode when it is not given)
OPEN = {'h5py.File': (0, 1, 'a', 'name'), 'open': (0, 1, 'r', 'file'),
        'io.open': (0, 1, 'r', 'file'), 'codecs.open': (0, 1, 'r', 'filename'),
        'pandas.HDFStore': (0, 1, 'a', 'path'),
        'tables.open_file': (0, 1, 'r', 'filename'),
        'tables.openFile': (0, 1, 'r', 'filename'),
        'pandas.read_hdf': (0, 2, 'r', 'path_or_buf'),
        'zipfile.ZipFile': (0, 1, 'r', 'file'),
        'numpy.memmap': (0, 2, 'r+', 'filename'),
        'numpy.lib.format.open_memmap': (0, 1, 'r+', 'filename')}
WRITE = {'numpy.save': [0], 'numpy.savez': [0], 'numpy.savetxt': [0],
         'numpy.savez_compressed': [0], 'os.remove': [0], 'os.unlink': [0],
         'os.rename': [0, 1], 'os.replace': [0, 1], 'os.truncate': [0],
         'os.rmdir': [0], 'shutil.rmtree': [0], 'shutil.move': [0, 1],
         'shutil.copy': [1], 'shutil.copyfile': [1], 'shutil.copy2': [1],
         'shutil.copytree': [1], 'h5features.write': [0],
         'os.link': [1], 'os.symlink': [1]}
METHODS = {'to_csv': 'path_or_buf', 'to_hdf': 'path_or_buf',
           'to_pickle': 'path', 'to_json': 'path_or_buf', 'tofile': 'fid',
           'to_excel': 'excel_writer'}
SAME = {'abspath', 'realpath', 'normpath', 'expanduser', 'expandvars', 'str',
        'fspath', 'relpath'}
TEMP = ('tempfile.', 'mkstemp', 'mkdtemp', 'NamedTemporaryFile')


def plain(t):
    """the paths a term may be: branches of the conditionals"""
    if t.op == 'ite':
        return plain(t.args[1]) + plain(t.args[2])
    if t.op in SAME and t.args:
        return plain(t.args[0])
    if t.op in ('xcall', 'call') and t.args and \
            str(t.args[0]).split('.')[-1] in SAME and len(t.args) > 1:
        return plain(t.args[1])
    if t.op == 'getitem' and t.args[0].op in ('list', 'tuple') and \
            is_num(t.args[1]):
        return plain(t.args[0].args[int(t.args[1].args[0])])
    return [t]


def accesses(events):
    """[(event, path, mode)]: 'r' is reading, anything else changes files"""
    out = []
    for e in events:
        if e.kind == 'call':
            if e.name in OPEN:
                i, j, mode, key = OPEN[e.name]
                path = e.args[i] if len(e.args) > i else e.kwargs.get(key)
                m = e.args[j] if len(e.args) > j else e.kwargs.get('mode')
                if path is None:
                    continue
                if m is None:
                    m = const(mode)
                out.append((e, path, m))
            elif e.name in WRITE:
                for i in WRITE[e.name]:
                    if len(e.args) > i:
                        out.append((e, e.args[i], const(last(e.name))))
        elif e.kind == 'method' and last(e.name) in METHODS:
            p = e.args[0] if e.args else e.kwargs.get(METHODS[last(e.name)])
            if p is not None and p is not NONE:
                out.append((e, p, const('w')))
    return out


def reads(m):
    return m.op == 'const' and isinstance(m.args[0], str) and \
        m.args[0].replace('b', '').replace('t', '').replace('U', '') in (
            'r', '')


def temporary(t):
    return any(x.op in ('xcall', 'ext', 'call', 'tempdir', 'tempfile') and any(
        k in str(a) for a in x.args[:1] for k in TEMP)
        or x.op in ('tempdir', 'tempfile', 'mkstemp', 'mkdtemp')
        for x in subterms(t))


def fresh(repo):
    return Interp(repo, opaque=set(), opaque_classes=set())


S = 'ABXpy.score:score'
A = 'ABXpy.analyze:analyze'
D = 'ABXpy.distances.distances:compute_distances'
J = 'ABXpy.distances.distances:run_distance_job'
V = 'ABXpy.verify:check'
L = 'ABXpy.database.database:load'
G = 'ABXpy.task:Task.generate_triplets'
F = 'ABXpy.misc.any2h5features:convert'


def simple(dotted, args, kw=None):
    def run(repo):
        it = fresh(repo)
        it.run(dotted, args, kw)
        return it, it.events
    return run


def make(repo):
    it, st, t = drive.task(repo, 1, 1, (), classes=set())
    n = len(it.events)
    it.decide = lambda c, i: decide_task(c)
    it.call_method(t, 'generate_triplets', [], {
        'output': sym('out'), 'threshold': NONE, 'tmpdir': sym('tmp'),
        'seed': sym('seed')}, st, None)
    it.decide = None
    return it, it.events[n:]


def decide_task(c):
    if c.op == 'exists':
        return None
    return drive.decide_run(c, None)


# step: what it is given, what it makes
STEPS = [
    ('scores', S, ['task', 'dist'], 'out',
     simple(S, [sym('task'), sym('dist'), sym('out')])),
    ('analysis', A, ['task', 'score'], 'out',
     simple(A, [sym('task'), sym('score'), sym('out')])),
    ('distances', D, ['feat', 'pairs'], 'out',
     simple(D, [sym('feat'), sym('group'), sym('pairs'), sym('out'),
                sym('distance'), sym('normalized'), ONE])),
    ('distances, several processes', D, ['feat', 'pairs'], 'out',
     simple(D, [sym('feat'), sym('group'), sym('pairs'), sym('out'),
                sym('distance'), sym('normalized'), const(4)])),
    ('distances, one process of several', J, ['job', 'feats'], 'out',
     simple(J, [sym('job'), sym('out'), sym('distance'), sym('feats'),
                sym('groups'), FALSE, ONE, sym('normalized'), sym('lock')])),
    ('verification', V, ['item', 'feat'], None,
     simple(V, [sym('item'), sym('feat')])),
    ('item table', L, ['item'], None, simple(L, [sym('item')])),
    ('task', G, ['item'], 'out', make),
]


def runs(ck):
    for what, dotted, given, out, run in STEPS:
        ck.repo.lookup(dotted)
        it, events = run(ck.repo)
        ck.saw(it)
        yield what, dotted, [sym(g) for g in given], out, events


def inputs(ck):
    """what a step is given is only opened for reading"""
    n = 0
    for what, dotted, given, out, events in runs(ck):
        for e, path, mode in accesses(events):
            n += 1
            if reads(mode):
                continue
            for p in plain(path):
                if any(p is g for g in given) or p.op in (
                        'getitem', 'iterof', 'iv') and any(
                            p.args[0] is g for g in given):
                    m = mode.args[0] if mode.op == 'const' else show(mode)
                    ck.violated('inputs', e.where, 'the %s of the step '
                                '"%s" is an input and is accessed with %s, '
                                'mode %r' % (show(p), what, e.name, m))
                    return
        ck.holds('inputs', dotted, '%s: no input is changed' % what)
    if n < 10:
        ck.undecided('inputs', S, 'only %d accesses to files' % n)


def own(ck):
    """what is written derives from the names which the step is given"""
    for what, dotted, given, out, events in runs(ck):
        n = 0
        for e, path, mode in accesses(events):
            if reads(mode):
                continue
            for p in plain(path):
                n += 1
                if temporary(p) or any(x.op == 'sym' for x in subterms(p)):
                    continue
                if p.op == 'const':
                    ck.violated('own', e.where, 'the step "%s" writes the '
                                'fixed file %s' % (what, show(p)))
                else:
                    ck.undecided('own', e.where, 'what is the file %s'
                                 % show(p, 4)[:80])
                return
        ck.holds('own', dotted, '%s: %d writes are in its own files' % (
            what, n))


def refuse(ck):
    """an existing task or score file is refused"""
    for what, dotted, given, out, events in runs(ck):
        if dotted not in (S, G):
            continue
        seen, asked, refused = 0, False, []
        files = {id(e): (p, m) for e, p, m in accesses(events)}
        for e in events:
            if e.kind == 'raise' or e.kind == 'assert':
                c = conj(e.guard())
                if e.kind == 'assert':
                    c = c + conj(not_(e.args[0]))
                asked = asked or any(about(x, out) for x in c)
                if any(tests(x, out) for x in c):
                    refused.append([x for x in c if not tests(x, out)])
            if id(e) not in files:
                continue
            path, mode = files[id(e)]
            if reads(mode) or not any(x is sym(out) for x in subterms(path)):
                continue
            seen += 1
            if mode.op == 'const' and mode.args[0] in ('x', 'w-'):
                break
            g = conj(e.guard())
            more = [[x for x in c if not any(x is y for y in g)]
                    for c in refused]
            if any(not x for x in more):
                break
            if refused:
                ck.violated('refuse', e.where, 'the step "%s" writes an '
                            'existing output unless %s' % (
                                what, show(more[0][0], 4)[:80]))
            elif asked:
                ck.undecided('refuse', e.where, 'what is done when the '
                             'output of the step "%s" exists' % what)
            else:
                ck.violated('refuse', e.where, 'the step "%s" writes its '
                            'output whether the file exists or not' % what)
            return
        if seen:
            ck.holds('refuse', dotted, '%s: an existing output is refused '
                     'before anything is written' % what)
        else:
            ck.undecided('refuse', dotted, 'where the output is written')


def conj(t):
    return list(t.args) if t.op == 'and' else [t]


def about(c, out):
    return any(x.op in ('exists', 'isfile') or x.op == 'xcall' and str(
        x.args[0]).startswith('os.') for x in subterms(c)) and any(
            x is sym(out) for x in subterms(c))


def tests(c, out):
    """the condition that the output exists"""
    return c.op in ('exists', 'isfile', 'lexists') and any(
        x is sym(out) for p in plain(c.args[0]) for x in [p])


RULES = [inputs, own, refuse]
