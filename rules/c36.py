"""Showing the progress changes nothing: an information flow analysis.

The task is analysed with a symbol for the verbosity. What is written, drawn,
tested or left in the task must not contain the symbol, that is, be the same
terms under the same conditions whether the progress is shown or not. What is
done only when it is shown must not fail: its names are defined, its calls
match the progress display, whose code is interpreted for every kind of
standard input it can meet.
"""
import re

from rules.common import *
from rules.c23 import effects, last
from sa.interp import LibError
from sa.pdlib import *

GEN = 'ABXpy.task:Task.generate_triplets'
TASK = 'ABXpy.task:Task'
PD = 'ABXpy.misc.progress_display:ProgressDisplay'
ASSUMES = ['a print only prints']
V = sym('verbose')


def has(t):
    return any(x is V for x in subterms(t))


def runs(ck):
    for across, by, thr in ((1, 1, 'thr'), (0, 1, None), (2, 2, 'thr'),
                            (1, 0, None)):
        it, st, t = task(ck.repo, across, by, (), verbose=V)
        n = len(it.events)
        it.decide = lambda c, i: decide_run(c, thr)
        it.call_method(t, 'generate_triplets', [], {
            'output': sym('out'), 'threshold': NONE if thr is None
            else sym('thr'), 'tmpdir': sym('tmp'), 'seed': sym('seed')},
            st, None)
        it.decide = None
        ck.saw(it)
        yield (across, by, thr), it, st, t, n


def ofdisplay(e):
    r = e.recv
    return r is not None and any(
        x.op == 'inst' and x.args[0] == PD for x in subterms(r))


def silent(ck):
    """nothing written or kept depends on the verbosity"""
    ck.repo.lookup(GEN)
    total = 0
    for cfg, it, st, t, n in runs(ck):
        for e in effects(it.events):
            if ofdisplay(e):
                continue
            total += 1
            if has(e.guard()):
                ck.violated('silent', e.where, 'the %s is done only when the '
                            'progress is %sshown' % (
                                e.name, '' if under(e.guard(), TRUE) else
                                'not '))
                return
            for a in list(e.args) + list(e.kwargs.values()):
                if has(a):
                    ck.violated('silent', e.where, 'the %s depends on the '
                                'verbosity: %s' % (e.name, show(a, 4)[:90]))
                    return
        o = it.obj(st, t)
        for k, v in sorted(o.data.items()):
            if k == 'verbose':
                continue
            total += 1
            x = it.snap(v, st)
            if has(x) and not any(y.op == 'inst' and y.args[0] == PD
                                  for y in subterms(x)):
                ck.violated('silent', TASK, 'the attribute %s of the task '
                            'depends on the verbosity: %s' % (
                                k, show(x, 4)[:90]))
                return
    ck.holds('silent', GEN, '%d effects and attributes do not contain the '
             'verbosity' % total)


def under(g, v):
    """whether a condition may hold for a verbosity"""
    for x in (g.args if g.op == 'and' else [g]):
        if x.op == 'not' and has(x):
            return False
    return True


def sound(ck):
    """what is done to show the progress is defined"""
    n = 0
    for cfg, it, st, t, k in runs(ck):
        adds = {}
        for e in it.events:
            if e.kind in ('undefined', 'badcall', 'raise') and has(e.guard()):
                ck.violated('sound', e.where, '%s when the progress is shown'
                            % ({'undefined': 'the name %s is not defined',
                                'badcall': 'the call of %s does not match',
                                'raise': 'an error %s is raised'}[e.kind]
                               % e.name))
                return
            if e.kind != 'method' or not ofdisplay(e):
                continue
            n += 1
            f = it.find_method(PD, last(e.name))
            if f is None or isinstance(f, tuple):
                ck.violated('sound', e.where, 'the display of the progress '
                            'has no method %s' % e.name)
                return
            if it.bind_terms(f, [e.recv] + list(e.args), dict(e.kwargs),
                             st) is None:
                ck.violated('sound', e.where, 'the call of %s does not match '
                            'its definition' % e.name)
                return
            if e.recv.op != 'inst' or not e.args:
                continue
            if last(e.name) == 'add':
                adds.setdefault(e.recv.id, []).append(e.args[0])
            if last(e.name) == 'update' and e.args[0].op == 'const' and all(
                    a.op == 'const' and a is not e.args[0]
                    for a in adds.get(e.recv.id, ())):
                ck.violated('sound', e.where, 'the counter %s of the display '
                            'was not added to it' % show(e.args[0]))
                return
    ck.holds('sound', GEN, '%d calls of the display of the progress match it'
             % n)


class Console(Lib):
    """standard streams; stdin: None, 'closed', 'file' or 'tty'"""

    def __init__(self, stdin):
        Lib.__init__(self, {})
        self.stdin, self.out = stdin, []

    def external(self, it, name, args, kw, st, node):
        if name == 'sys.stdin.fileno':
            if self.stdin == 'none':
                raise LibError(['AttributeError', 'Exception',
                                'BaseException'], st, 'no standard input')
            if self.stdin == 'pseudo':
                raise LibError(['UnsupportedOperation', 'OSError', 'IOError',
                                'EnvironmentError', 'ValueError', 'Exception',
                                'BaseException'], st, 'fileno')
            if self.stdin == 'closed':
                raise LibError(VALUE, st, 'closed file')
            return const(0)
        if name == 'sys.stdin.isatty':
            if self.stdin == 'none':
                raise LibError(['AttributeError', 'Exception',
                                'BaseException'], st, 'no standard input')
            if self.stdin == 'closed':
                raise LibError(VALUE, st, 'closed file')
            return const(self.stdin == 'tty')
        if name in ('os.isatty', 'sys.stdout.isatty'):
            return const(self.stdin == 'tty')
        if name in ('sys.stdout.write', 'print', 'sys.stderr.write'):
            self.out.append([self.py(it, a, st) for a in args])
            return NONE
        if name in ('sys.stdout.flush', 'sys.stderr.flush'):
            return NONE
        return Lib.external(self, it, name, args, kw, st, node)


KINDS = [('a terminal', 'tty'), ('a file', 'file'),
         ('a stream without a descriptor', 'pseudo'), ('closed', 'closed'),
         ('missing', 'none')]


def shown(text, label, count, total):
    """whether the line of a counter has what was done and the total"""
    for line in text.splitlines():
        if label in line:
            numbers = [int(x) for x in re.findall(r'\d+', line)]
            return count in numbers and total in numbers
    return False


def display(ck):
    """the display counts and does not fail"""
    ck.repo.lookup(PD)
    n = 0
    for what, kind in KINDS:
        for total in (0, 3):
            it = Interp(ck.repo, opaque=set(), opaque_classes=set(),
                        exact=True)
            it.lib = Console(kind)
            ck.saw(it)
            st = State()
            try:
                d = it.instantiate(PD, [], {}, st, None)
                it.call_method(d, 'add', [const('b'), const('Blocks'),
                                          const(total)], {}, st, None)
                it.call_method(d, 'add', [const('t'), const('Triplets'),
                                          const(7)], {}, st, None)
                for k in range(2):
                    it.call_method(d, 'update', [const('b'), ONE], {}, st,
                                   None)
                    it.call_method(d, 'update', [const('t'), const(2)], {},
                                   st, None)
                    it.call_method(d, 'display', [], {}, st, None)
                text = [''.join(x) for x in it.lib.out if all(
                    isinstance(y, str) for y in x)]
                if len(text) != len(it.lib.out):
                    raise Unknown('text shown')
                if text and not shown(text[-1], 'Blocks', 2, total) or \
                        text and not shown(text[-1], 'Triplets', 4, 7):
                    ck.violated('display', PD, 'after two updates the '
                                'display is %r' % text[-1])
                    return
            except LibError as e:
                ck.violated('display', PD, 'showing the progress fails (%s) '
                            'when the standard input is %s' % (e, what))
                return
            except Unknown as e:
                ck.undecided('display', PD, 'standard input %s: %s' % (
                    what, e))
                return
            n += 1
    ck.holds('display', PD, 'the progress is shown in %d settings' % n)


RULES = [silent, sound, display]
