"""Command lines: arguments and options reach the library.

The options are read from the add_argument calls of the value graph of each
entry point and given to the parser of the standard library, as a model of
argparse; the rest of the graph is evaluated for the namespaces this parser
makes of a family of command lines, and the calls of the library it makes are
compared with those documented.
"""
import argparse
import ast
import contextlib
import io
import itertools
from rules.common import *
from sa.nd import *
from sa.finite import replay

ASSUMES = ['argparse parses command lines as in the installed version']


class Exits(Exception):
    pass


class Custom(object):
    """attribute of a module imported by name"""

    def __init__(self, path, mod, fn):
        self.path, self.mod, self.fn = list(path), mod, fn

    def __eq__(self, o):
        return isinstance(o, Custom) and (self.path, self.mod, self.fn) == (
            o.path, o.mod, o.fn)

    def __hash__(self):
        return hash(self.mod)

    def __repr__(self):
        return '%s of module %s in %s' % (self.fn, self.mod, self.path)


TYPES = {'int': int, 'str': str, 'float': float, 'bool': bool, 'list': list}


class Quiet(argparse.ArgumentParser):
    def error(self, message):
        raise Exits(message)

    def exit(self, status=0, message=None):
        raise Exits(message)


class Program(object):
    """an entry point, with the library calls it makes"""

    def __init__(self, ck, mod, opaque, classes=()):
        self.mod = mod
        it = self.it = Interp(ck.repo, opaque=set(opaque),
                              opaque_classes=set(classes), exact=True)
        m = ck.repo.module(mod)
        entry = 'main'
        if entry not in m.defs:
            body = [n for n in m.tree.body if isinstance(n, ast.If) and
                    '__main__' in ast.dump(n.test)]
            if not body:
                raise Unknown('no entry point in %s' % mod)
            fn = ast.parse('def main_():\n    pass').body[0]
            fn.body = body[-1].body
            ast.copy_location(fn, body[-1])
            m.tree.body.append(fn)
            m._scan([fn])
            entry = 'main_'
        self.st, self.res = it.run('%s:%s' % (mod, entry), [])
        self.file = m.path if isinstance(m.path, str) else mod
        ck.saw(it)

    def parser(self, f):
        """the parser built by the events before parse_args"""
        made = {}
        for e in self.it.events:
            if e.kind == 'call' and e.name == 'argparse.ArgumentParser':
                p = Quiet(prog='prog')
                for k in ('prefix_chars', 'allow_abbrev', 'add_help',
                          'argument_default'):
                    if k in e.kwargs:
                        setattr(p, k, f(e.kwargs[k]))
                made[e.result.id] = p
            elif e.kind == 'method' and e.recv is not None and \
                    e.recv.id in made:
                p = made[e.recv.id]
                if e.name in ('add_argument_group',
                              'add_mutually_exclusive_group'):
                    made[e.result.id] = p
                elif e.name == 'add_argument':
                    self.add(p, e, f)
                elif e.name == 'set_defaults':
                    p.set_defaults(**{k: f(v) for k, v in e.kwargs.items()})
                elif e.name in ('parse_args', 'parse_known_args'):
                    if e.args or e.name != 'parse_args':
                        raise Unknown('parse_args')
                    return p, e.result
        raise Unknown('no parser')

    def add(self, p, e, f):
        kw = {}
        for k, v in e.kwargs.items():
            if k in ('help', 'metavar'):
                continue
            if k == 'type':
                n = str(v.args[0]) if v.op == 'ext' else None
                if n not in TYPES:
                    raise Unknown('type %s' % show(v, 3))
                kw[k] = TYPES[n]
            else:
                kw[k] = self.plain(f(v))
                if kw[k].__class__.__name__ == 'Arr':
                    raise Unknown('option %s' % k)
        if kw.get('action') == 'version':
            return
        p.add_argument(*[f(x) for x in e.args], **kw)

    def plain(self, v):
        return list(v.data) if isinstance(v, Arr) else v

    def run(self, argv, files):
        """(calls, files removed, how it ends)"""
        r = Run(self, argv, files)
        return r


class Run(object):
    def __init__(self, prog, argv, files):
        self.it = prog.it
        self.files, self.removed, self.calls = set(files), [], []
        self.made, self.path, self.error = [], [], None
        self.status = None
        f = ND({}, self.funcs(), self.it)
        p, ns = prog.parser(f)
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                v = p.parse_args(list(argv))
        except Exits as x:
            self.error = 'usage: %s' % x
            return
        f = ND({ns.id: v}, self.funcs(), self.it)
        try:
            replay(self.it, self.it.events, f, self.visit)
        except Exits as x:
            self.error = x.args[0]

    def funcs(self):
        def attr(f, t):
            v = f(t.args[0])
            if isinstance(v, argparse.Namespace):
                if not hasattr(v, t.args[1]):
                    raise ShapeError('no option %r' % t.args[1])
                return getattr(v, t.args[1])
            return NotImplemented

        def getitem(f, t):
            v = f(t.args[0])
            if isinstance(v, dict):
                k = f(t.args[1])
                if k not in v:
                    raise ShapeError('no option %r' % (k,))
                return v[k]
            if isinstance(v, (tuple, list)) and not isinstance(v, Arr):
                return v[f(t.args[1])]
            return NotImplemented

        def exists(f, t):
            return f(t.args[0]) in self.files

        def xcall(f, t):
            n = t.args[0]
            if n == 'vars':
                return dict(vars(f(t.args[1])))
            if n in ('__import__', 'importlib.import_module'):
                return ('module', f(t.args[1]))
            if n == 'getattr':
                m, a = f(t.args[1]), f(t.args[2])
                if isinstance(m, tuple) and m[0] == 'module':
                    return Custom(self.path, m[1], a)
                if isinstance(m, argparse.Namespace):
                    return getattr(m, a)
            if n in ('os.path.split', 'os.path.splitext', 'os.path.basename',
                     'os.path.dirname'):
                import os
                v = f(t.args[1])
                return getattr(os.path, n.split('.')[-1])(v)
            if n in ('os.path.isfile', 'os.path.exists', 'os.access'):
                return f(t.args[1]) in self.files
            return NotImplemented

        def mcall(f, t):
            x, n = t.args[:2]
            v = f(x)
            if isinstance(v, str) and n in (
                    'split', 'rsplit', 'partition', 'rpartition', 'strip',
                    'lower', 'startswith', 'endswith', 'format', 'replace'):
                pos, kw = f.kw(t.args[2:])
                r = getattr(v, n)(*pos, **kw)
                return tuple(r) if isinstance(r, list) else r
            if isinstance(v, dict) and n == 'get':
                return v.get(*[f(y) for y in t.args[2:]])
            return NotImplemented

        def attrdyn(f, t):
            m, a = f(t.args[0]), f(t.args[1])
            if isinstance(m, tuple) and m[0] == 'module':
                return Custom(self.path, m[1], a)
            if isinstance(m, argparse.Namespace):
                return getattr(m, a)
            return NotImplemented

        def func(f, t):
            return ('function', self.it.funcs[t.args[0]].qual)

        return {'attr': attr, 'getitem': getitem, 'exists': exists,
                'xcall': xcall, 'mcall': mcall, 'attrdyn': attrdyn,
                'func': func}

    def visit(self, e, f):
        if any(k[0] == 'handler' for k in e.ctx):
            return
        if e.kind in ('raise', 'assert', 'opaque', 'new', 'method',
                      'effect') or e.kind == 'call' and e.name in (
                          'os.remove', 'os.unlink', 'sys.path.insert',
                          'sys.path.append', 'shutil.rmtree', 'os.rename',
                          'shutil.move', 'os.replace'):
            if not f(e.guard()):
                return
        else:
            return
        if e.kind == 'raise' or e.kind == 'assert' and not f(e.args[0]):
            if 'exit' in e.name and e.args and f(e.args[0]) in (0, None) or \
                    'exit' in e.name and not e.args:
                self.status = 0
            raise Exits(str([show(x, 3) for x in e.args]))
        if e.kind == 'call':
            if e.name in ('os.remove', 'os.unlink'):
                x = f(e.args[0])
                if x not in self.files:
                    raise Exits('no file %r' % x)
                self.files.discard(x)
                self.removed.append(x)
            elif e.name.startswith('sys.path'):
                self.path.append(f(e.args[-1]))
            else:
                raise Unknown(e.name)
        if e.kind in ('opaque', 'new') or e.kind == 'method' and e.bound:
            if e.bound is None:
                raise ShapeError('call of %s' % e.name)
            b = {}
            for k, t in e.bound.items():
                if k == 'self' or not isinstance(t, T):
                    continue
                b[k] = self.value(t, f)
            self.calls.append((e.name.split(':')[-1].split('.')[-1], b))

    def value(self, t, f):
        v = f(t)
        return list(v.data) if isinstance(v, Arr) else v


def same(a, b):
    """equal values of a parameter; no list and an empty list are the same"""
    if a in (None, [], ()) and b in (None, [], ()):
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return list(a) == list(b)
    return type(a) is type(b) and a == b or a == b and not isinstance(
        a, bool) and not isinstance(b, bool) or (
            isinstance(a, bool) or isinstance(b, bool)) and \
        bool(a) == bool(b) and None not in (a, b)


def differ(run, want, removed, left):
    """what is wrong with a run"""
    calls = run.calls
    if want is None:
        if run.error is None:
            return 'is not rejected'
        if run.status == 0:
            return 'ends with success'
        if calls or run.removed:
            return 'is rejected after %s' % (
                'removing %s' % run.removed if run.removed else
                'calling %s' % calls[0][0])
        return None
    if run.error is not None:
        return 'is rejected: %s' % run.error
    names = [n for n, _ in calls]
    if names != [n for n, _ in want]:
        return 'calls %s' % (', '.join(names) or 'nothing')
    for (n, got), (_, w) in zip(calls, want):
        for k, v in w.items():
            if k not in got:
                raise Unknown('parameter %s of %s' % (k, n))
            if not same(got[k], v):
                return 'calls %s with %s = %r, not %r' % (n, k, got[k], v)
    if sorted(run.removed) != sorted(removed):
        return 'removes %s' % (run.removed or 'nothing')
    return None


def decide(ck, name, mod, opaque, classes, cases):
    rule = 'C24.' + name
    try:
        p = Program(ck, mod, opaque, classes)
    except Unknown as x:
        ck.undecided(rule, mod, str(x))
        return
    where = mod.replace('.', '/') + '.py'
    n = 0
    for argv, files, want, removed in cases:
        n += 1
        what = '%s %s' % (name, ' '.join(argv))
        try:
            bad = differ(p.run(argv, files), want, removed, files)
        except ShapeError as x:
            bad = 'fails: %s' % x
        except (Unknown, argparse.ArgumentError, TypeError) as x:
            ck.undecided(rule, where, '%s: %s' % (what, x))
            return
        if bad:
            ck.violated(rule, where, '%s (with %s) %s' % (
                what, ', '.join(sorted(files)) or 'no files', bad))
            return
    ck.holds(rule, where, 'calls made for %d command lines' % n)


# (flags, values on the command line, parameter, value of the parameter)
TASK = [
    (('-a', '--across'), ['c1', 'c2'], 'across', ['c1', 'c2']),
    (('-b', '--by'), ['b1', 'b2', 'b3'], 'by', ['b1', 'b2', 'b3']),
    (('-f', '--filters'), ['f1', '[x == 1 for x in y_A]'], 'filters',
     ['f1', '[x == 1 for x in y_A]']),
    (('-r', '--regressors'), ['r1'], 'regressors', ['r1']),
    (('-v', '--verbose'), [], 'verbose', True)]
MAKE = [
    (('-t', '--threshold'), ['12'], 'threshold', 12),
    (('--tempdir',), ['tmp'], 'tmpdir', 'tmp'),
    (('--seed',), ['0'], 'seed', 0)]


def subsets(table):
    """each option alone under each flag, all together in both orders"""
    yield []
    for o in table:
        for fl in o[0]:
            yield [(fl, o)]
    for i in (0, -1):
        yield [(o[0][i], o) for o in table]
        yield [(o[0][i], o) for o in table[::-1]]


def task_rule(ck):
    cases = []
    for opts in subsets(TASK + MAKE):
        for out in ('out.abx', None):
            for stats in (False, True):
                for on in ('-o', '--on'):
                    task = {'db_name': 'd.item', 'on': 'c0', 'across': None,
                            'by': None, 'filters': None, 'regressors': None,
                            'verbose': False}
                    make = {'output': out, 'threshold': None, 'tmpdir': None,
                            'seed': None}
                    argv = ['d.item'] + ([out] if out else []) + [on, 'c0']
                    for fl, (_, vals, k, v) in opts:
                        argv += [fl] + vals
                        (task if k in task else make)[k] = v
                    if stats:
                        argv.append('--stats-only')
                    for old in (False, True):
                        files = ['d.item', 'tmp'] + \
                            (['out.abx', 'd.abx'] if old else [])
                        want = [('Task', task),
                                ('print_stats', {}) if stats else
                                ('generate_triplets', make)]
                        cases.append((argv, files, want, [out] if out and
                                      old and not stats else []))
    cases += [(['d.item'], ['d.item'], None, []),
              (['-o', 'c0'], ['d.item'], None, []),
              (['d.item', 'out.abx', '-o', 'c0', '--seed', 'x'],
               ['d.item', 'out.abx'], None, []),
              (['d.item', 'out.abx', '-o', 'c0', '-t', 'x'],
               ['d.item', 'out.abx'], None, [])]
    decide(ck, 'task', 'ABXpy.task', {'generate_triplets', 'print_stats'},
           {'Task'}, cases)


D = 'ABXpy.distance:'
CHOICE = [
    ([], ('function', D + 'default_distance')),
    (['-d', 'levenshtein'], ('function', D + 'edit_distance')),
    (['--distance', 'dtw_kl'], ('function', D + 'dtw_kl_distance')),
    (['-d', 'mod.fn'], Custom([''], 'mod', 'fn')),
    (['-d', 'dir/mod.fn'], Custom(['dir'], 'mod', 'fn')),
    (['--distance', '/a/b.c/mod.fn'], Custom(['/a/b.c'], 'mod', 'fn')),
    (['-d', '../mod.fn'], Custom(['..'], 'mod', 'fn'))]


def distance_rule(ck):
    cases = []
    for opts, fn in CHOICE:
        for g in ([], ['-g', 'grp'], ['--group', 'grp']):
            for j in ([], ['-j', '3'], ['--njobs', '5']):
                for n in ([], ['-n', '1'], ['--normalization', '0']):
                    for first in (True, False):
                        pos = ['f.h5', 't.abx', 'o.dist']
                        rest = opts + g + j + n
                        argv = pos + rest if first else rest + pos
                        want = [('compute_distances', {
                            'feature_file': 'f.h5', 'pair_file': 't.abx',
                            'distance_file': 'o.dist',
                            'feature_group': 'grp' if g else 'features',
                            'distance': fn,
                            'n_cpu': int(j[1]) if j else 1,
                            'normalized': int(n[1]) if n else None})]
                        if not opts and not n:
                            want = None
                        for old in (False, True):
                            files = ['f.h5', 't.abx'] + \
                                (['o.dist'] if old else [])
                            cases.append((argv, files, want, ['o.dist'] if
                                          old and want else []))
    cases += [(['f.h5', 't.abx'], ['f.h5', 't.abx'], None, []),
              (['f.h5', 't.abx', 'o.dist', '-n', 'x'],
               ['f.h5', 't.abx', 'o.dist'], None, []),
              (['f.h5', 't.abx', 'o.dist', '-n', '1', '-j', 'x'],
               ['f.h5', 't.abx', 'o.dist'], None, [])]
    decide(ck, 'distance', 'ABXpy.distance', {'compute_distances'}, (), cases)


def score_rule(ck):
    cases = []
    for out in ('o.score', None):
        for old in (False, True):
            cases.append((['t.abx', 'd.dist'] + ([out] if out else []),
                          ['t.abx', 'd.dist'] + (['o.score'] if old else []),
                          [('score', {'task_file': 't.abx',
                                      'distance_file': 'd.dist',
                                      'score_file': out})],
                          ['o.score'] if old and out else []))
    cases.append((['t.abx'], ['t.abx'], None, []))
    decide(ck, 'score', 'ABXpy.score', {'score'}, (), cases)


def analyze_rule(ck):
    cases = []
    argv = ['s.score', 't.abx', 'o.csv']
    for k in range(4):
        for files in itertools.combinations(argv, k):
            ok = 's.score' in files and 't.abx' in files
            cases.append((argv, list(files), [('analyze', {
                'task_file': 't.abx', 'score_file': 's.score',
                'result_file': 'o.csv'})] if ok else None,
                ['o.csv'] if ok and 'o.csv' in files else []))
    decide(ck, 'analyze', 'ABXpy.analyze', {'analyze'}, (), cases)


def verify_rule(ck):
    decide(ck, 'verify', 'ABXpy.verify', {'check'}, (), [
        (['i.item', 'f.h5'], ['i.item', 'f.h5'],
         [('check', {'item_file': 'i.item', 'features_file': 'f.h5'})], []),
        (['i.item'], ['i.item'], None, [])])


def convert_rule(ck):
    decide(ck, 'any2h5features', 'ABXpy.misc.any2h5features', {'convert'},
           (), [
        (['dir', 'o.h5'], ['dir'],
         [('convert', {'folder': 'dir', 'h5_filename': 'o.h5'})], []),
        (['dir'], ['dir'], None, [])])


RULES = [task_rule, distance_rule, score_rule, analyze_rule, verify_rule,
         convert_rule]
