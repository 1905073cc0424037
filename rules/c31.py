"""The verification script accepts exactly the consistent inputs.

`check` is interpreted on model files: a text file is a sequence of lines with
a reading position, a features file a group whose list of names is called
items or files and holds text or bytes. The family of models contains every
kind of header and every position of a line whose source is not in the
features; the script has to raise exactly on those.
"""
from rules.common import *
from sa.interp import LibError
from sa.pdlib import *

CHECK = 'ABXpy.verify:check'
ASSUMES = ['an item file is read as text, line by line',
           'a features file lists its sources in features/items or '
           'features/files']


class Text(object):
    """an open text file"""

    def __init__(self, text):
        self.lines, self.pos = text.splitlines(True), 0

    def rest(self):
        r = self.lines[self.pos:]
        self.pos = len(self.lines)
        return r


class Group(object):
    """an hdf5 file or group"""

    def __init__(self, d):
        self.d = d

    def get(self, p):
        x = self
        for k in p.strip('/').split('/'):
            if not isinstance(x, Group) or k not in x.d:
                raise LibError(KEY, why='no %s in the features file' % p)
            x = x.d[k]
        return x

    def has(self, p):
        try:
            self.get(p)
            return True
        except LibError:
            return False


class Verify(Lib):
    """library values of the script"""

    def external(self, it, name, args, kw, st, node):
        try:
            if name in ('open', 'builtins.open', 'io.open', 'codecs.open'):
                n = self.py(it, args[0], st)
                if n not in self.files:
                    raise LibError(NOFILE, why=n)
                return self.term(it, Text(self.files[n]), st)
            if name == 'h5py.File':
                n = self.py(it, args[0], st)
                if n not in self.files:
                    raise LibError(NOFILE, why=n)
                return self.term(it, Group(self.files[n]), st)
            if name in ('isinstance', 'builtins.isinstance'):
                v = self.py(it, args[0], st)
                ts = args[1].args if args[1].op == 'tuple' else [args[1]]
                ns = {t.args[0].split('.')[-1] for t in ts if t.op == 'ext'}
                if not isinstance(v, (str, bytes)) or not ns:
                    return None
                return const(type(v).__name__ in ns)
            if name.rpartition('.')[0] in ('str', 'builtins.str', 'bytes') \
                    and args:
                return self.method(it, it.simp(args[0], st),
                                   name.rpartition('.')[2], args[1:], kw, st,
                                   node)
            if name in ('set', 'list', 'tuple', 'sorted', 'enumerate') and \
                    args and self.isav(it, args[0], st):
                xs = self.seq(self.py(it, args[0], st))
                if name == 'enumerate':
                    b = self.py(it, args[1], st) if len(args) > 1 else 0
                    return it.new_list(st, [
                        mk('tuple', const(b + i), self.term(it, x, st))
                        for i, x in enumerate(xs)])
                return it.new_list(st, [self.term(it, x, st) for x in xs])
            if name == 'next' and self.isav(it, args[0], st):
                v = self.py(it, args[0], st)
                if isinstance(v, Text):
                    return self.term(it, self.line(v, it, st), st)
        except LibError as e:
            e.st = e.st or st
            raise
        return Lib.external(self, it, name, args, kw, st, node)

    def line(self, v, it, st):
        if v.pos >= len(v.lines):
            raise LibError(['StopIteration', 'Exception'], st)
        v.pos += 1
        return v.lines[v.pos - 1]

    def term(self, it, v, st):
        if isinstance(v, bytes):
            return mk('const', v)
        return Lib.term(self, it, v, st)

    def receives(self, v):
        return Lib.receives(self, v) or v.op == 'const' and isinstance(
            v.args[0], bytes)

    def seq(self, v):
        if isinstance(v, Text):
            return v.rest()
        if isinstance(v, Group):
            return sorted(v.d)
        if isinstance(v, tuple):
            return list(v)
        return Lib.seq(self, v)

    def attr(self, x, name):
        return Lib.attr(self, x, name)

    def method(self, it, v, name, args, kw, st, node):
        if v.op == 'const' and isinstance(v.args[0], bytes):
            if name == 'decode':
                return const(v.args[0].decode('utf8'))
            raise Unknown('bytes.%s' % name)
        if v.op == 'const' and name in ('format', 'join'):
            try:
                return Lib.method(self, it, v, name, args, kw, st, node)
            except Unknown:
                return it.fresh('message')
        return Lib.method(self, it, v, name, args, kw, st, node)

    def meth(self, it, x, name, a, k, st):
        if isinstance(x, Text):
            if name == 'readline':
                r = x.lines[x.pos:x.pos + 1]
                x.pos += len(r)
                return r[0] if r else ''
            if name == 'readlines':
                return x.rest()
            if name == 'read' and not a:
                return ''.join(x.rest())
            if name == 'seek':
                if a[:1] != [0]:
                    raise Unknown('seek')
                x.pos = 0
                return 0
            if name == 'close':
                return None
        if isinstance(x, Group):
            if name == 'close':
                return None
            if name == 'keys':
                return sorted(x.d)
            if name == 'get':
                return x.get(a[0]) if x.has(a[0]) else (a + [None])[1]
        return Lib.meth(self, it, x, name, a, k, st)

    def item(self, x, i):
        if isinstance(x, Group):
            if not isinstance(i, str):
                raise Unknown('group item')
            return x.get(i)
        if isinstance(x, Vec) and (i is Ellipsis or i == ()):
            return x
        return Lib.item(self, x, i)

    def py(self, it, t, st):
        if t is ELLIPSIS or t.op == 'ellipsis':
            return Ellipsis
        return Lib.py(self, it, t, st)

    def compare(self, it, op, a, b, st):
        y = self.py(it, b, st)
        if op in ('In', 'NotIn') and isinstance(y, Group):
            return const(y.has(self.py(it, a, st)) == (op == 'In'))
        return Lib.compare(self, it, op, a, b, st)


HEAD = '#file onset offset #p s\n'
LINES = ['f1 0 1 a x\n', 'f2 0 1 b y\n', 'f1 1 2 c x\n']


def feats(names, key='items', enc=str):
    return {'features': Group({
        key: Vec([n.encode() if enc is bytes else n for n in names]),
        'features': Vec([1]), 'times': Vec([1]), 'index': Vec([1])})}


def family():
    """(what, item text, features, accepted)"""
    good = HEAD + ''.join(LINES)
    for key in ('items', 'files'):
        for enc in (str, bytes):
            f = feats(['f2', 'f1'], key, enc)
            yield 'consistent files (%s, %s)' % (key, enc.__name__), good, \
                f, True
            f = feats(['f2', 'f1', 'f9'], key, enc)
            yield 'features that are not used', good, f, True
    f = feats(['f1', 'f2'])
    yield 'an item file without items', HEAD, f, True
    yield 'one attribute', '#file onset offset #p\nf1 0 1 a\n', f, True
    yield 'tabs and spaces', good.replace(' ', ' \t ').replace(
        '\n', ' \n'), f, True
    yield 'blank lines', good.replace('\n', '\n\n  \n') + '\n', f, True
    yield 'no newline at the end', good.rstrip('\n'), f, True
    for k in range(4):
        ls = LINES[:k] + ['f3 0 1 a x\n'] + LINES[k:]
        yield 'line %d of an unknown file' % (k + 2), HEAD + ''.join(ls), \
            f, False
    yield 'no newline after an item of an unknown file', \
        good + 'f3 0 1 a x', f, False
    yield 'an item of an unknown file after a blank line', \
        good + '\n \nf3 0 1 a x\n', f, False
    for x in ('f', 'f11', 'F1', '1', 'f1.wav', 'f1/f2'):
        yield 'an item of the file %s, not in f1, f2' % x, \
            good + x + ' 0 1 a x\n', f, False
    yield 'features of no file', good, feats([]), False
    yield 'a header without #file', good.replace('#file', 'file'), f, False
    yield 'a header with another first column', good.replace(
        '#file', '#source'), f, False
    yield 'a header with another second column', good.replace(
        'onset', 'start'), f, False
    yield 'a header with another third column', good.replace(
        'offset', 'end'), f, False
    yield 'onset and offset swapped', good.replace(
        'onset offset', 'offset onset'), f, False
    yield 'a header whose fourth column has no #', good.replace(
        '#p', 'p'), f, False
    yield 'a header with offset among the attributes', \
        '#file onset end #p offset\nf1 0 1 a x\n', f, False
    yield 'a header whose # comes one column late', good.replace(
        '#p s', 'p #s'), f, False
    yield 'a header of three columns', \
        '#file onset offset\nf1 0 1\n', f, False
    yield 'no header', ''.join(LINES), f, False
    yield 'an empty item file', '', f, False


def check(ck):
    ck.repo.lookup(CHECK)
    n, und = {}, None
    for what, text, f, good in family():
        for verbose in (0, 1):
            it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                        exact=True)
            it.lib = Verify({'d.item': text, 'd.h5f': f})
            ck.saw(it)
            try:
                it.run(CHECK, [const('d.item'), const('d.h5f')],
                       {'verbose': const(verbose)})
                ok, why = True, ''
            except LibError as e:
                ok, why = False, str(e)
            except Unknown as e:
                und = '%s: %s' % (what, e)
                break
            if ok != good:
                rule = 'accepted' if good else 'refused'
                ck.violated(rule, CHECK, '%s: %s' % (
                    what, 'the verification %s' % (
                        'fails: %s' % why if good else 'passes')))
                return
            n[good] = n.get(good, 0) + 1
        if und:
            break
    if und:
        ck.undecided('accepted', CHECK, und)
        return
    ck.holds('accepted', CHECK, '%d consistent sets of files' % n[True])
    ck.holds('refused', CHECK, '%d inconsistent sets of files' % n[False])
    for what, files in (('no item file', {'d.h5f': feats(['f1'])}),
                        ('no features file', {'d.item': HEAD}),
                        ('a features file without the group',
                         {'d.item': HEAD, 'd.h5f': {}})):
        it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                    exact=True)
        it.lib = Verify(files)
        try:
            it.run(CHECK, [const('d.item'), const('d.h5f')])
        except LibError:
            continue
        except Unknown as e:
            ck.undecided('missing', CHECK, '%s: %s' % (what, e))
            return
        ck.violated('missing', CHECK, '%s: the verification passes' % what)
        return
    ck.holds('missing', CHECK, 'missing files are reported')


RULES = [check]
