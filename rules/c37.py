"""A filter or regressor script means what Python says.

`script`: the class of computed functions is interpreted on model scripts. The
operations of the ast module, compile, exec and eval are modelled on the syntax
trees of the script: what is kept is the sequence of the statements executed,
the expression whose value is returned and the namespaces used. Required: every
statement of the script once, in the order of the script (an import may come
earlier), then its last expression, whose value is the result; all in a
namespace that holds the columns and that nothing of an earlier evaluation is
left in, and which functions defined by the script see too.
`columns`: the columns announced as read are those the script names.
`refused`: a script that does not end with an expression is refused.
"""
import ast
from rules.common import *
from sa.interp import LibError, Dead
from sa.pdlib import Lib, Unknown

FUN = 'ABXpy.dbfun.dbfun_compute:DBfun_Compute'
ASSUMES = ['ast, compile, exec and eval as documented; only the statements '
           'on the top level of a script are followed',
           'scripts that read lookup tables (with statements on a string) '
           'are not covered']
COLS = ['o_A', 'o_B', 'a_A', 'a_X', 'o', 'a', 'k_1', 'math']
SCRIPTS = [
    ('an expression', '[x == 1 for x in o_A]'),
    ('two columns', '[x == y for x, y in zip(o_A, a_X)]'),
    ('an expression on several lines', '[x == 1\n for x in\n o_A]'),
    ('a statement first', 't = 2\n[x * t for x in o_A]'),
    ('two statements in order', 't = 2\nt = t * t\n[x * t for x in o_A]'),
    ('statements on one line', 't = 2; u = 3; [t + u + x for x in o_A]'),
    ('an import', 'import os\n[os.path.basename(x) for x in o_A]'),
    ('an import from', 'from os.path import basename as b\n'
     '[b(x) for x in a_X]'),
    ('two imports in order', 'import os as p\nimport sys as p\n'
     '[p.argv for x in o_A]'),
    ('two imports of both kinds', 'from os import path as p\nimport sys as p\n'
     '[p.argv for x in o_A]'),
    ('an import after a statement', 't = 1\nimport os\nt = os.sep\n'
     '[t + x for x in o_A]'),
    ('a function', 'import os\ndef f(x):\n    return os.sep + x\n'
     '[f(x) for x in o_A]'),
    ('a function that reads a column', 'def f(x):\n    return x + a_X[0]\n'
     '[f(x) for x in o_A]'),
    ('a function of a variable', 't = 2\nf = lambda x: x * t\n'
     '[f(x) for x in o_A]'),
    ('a loop', 'r = []\nfor x in o_A:\n    r.append(x)\nr'),
    ('a condition', 'if len(a_A) > 1:\n    t = 1\nelse:\n    t = 2\n'
     '[x * t for x in o_A]'),
    ('an expression statement before', 'r = []\nr.extend(o_A)\nr'),
    ('two expressions', '[x for x in o_A]\n[y for y in a_X]'),
    ('columns as attribute, keyword and text',
     '[dict(o_B=x.a_A)["a_X"] for x in o_A]'),
    ('a column named twice', '[x == y for x, y in zip(o_A, o_A)]'),
    ('no column', 't = 1\n[t]'),
    ('a name that begins like a column', 'o_AB = 2\n[o_AB for x in a_A]'),
    ('a with statement', 'with open("n") as f:\n    t = f.read()\n'
     '[t + x for x in o_A]'),
    ('a string first', '"about"\n[x for x in o_A]'),
    ('a comment and blank lines', '# about\n\n[x for x in o_A]\n\n'),
]
REFUSED = [
    ('an assignment', 'r = o_A'), ('an assignment at the end', '1\nr = o_A'),
    ('an import', 'import os'), ('a loop', 'for x in o_A:\n    pass'),
    ('a function', 'def f(x):\n    return x'), ('nothing', ''),
    ('a del statement', 'x = 1\ndel x'),
]


class File(object):
    def __init__(self, text):
        self.text = text


class Node(object):
    """a syntax tree node; fields are terms, lists live on the heap"""

    def __init__(self, kind, fields):
        self.kind, self.fields = kind, fields


class Code(object):
    def __init__(self, mode, stats):
        self.mode, self.stats = mode, stats


class Scripts(Lib):
    """syntax trees, compile, exec and eval"""

    def __init__(self, files):
        Lib.__init__(self, files)
        self.runs = []
        self.it = None
        self.st = None

    # ------------------------------------------------------------ trees
    def tree(self, it, n, st):
        if isinstance(n, ast.AST):
            f = {k: self.tree(it, v, st) for k, v in ast.iter_fields(n)}
            for k in ('lineno', 'col_offset', 'end_lineno',
                      'end_col_offset'):
                if hasattr(n, k):
                    f[k] = const(getattr(n, k))
            self.store.append(Node(type(n).__name__, f))
            return mk('av', len(self.store) - 1)
        if isinstance(n, list):
            return it.new_list(st, [self.tree(it, x, st) for x in n])
        if n is None or isinstance(n, (str, int)):
            return self.term(it, n, st)
        return sym('constant:%r' % (n,))

    def back(self, it, t, st):
        """printable form of the tree of a term, as it is now"""
        t = it.simp(t, st)
        if t.op == 'av':
            x = self.store[t.args[0]]
            if isinstance(x, Node):
                return (x.kind,) + tuple(
                    (k, self.back(it, v, st))
                    for k, v in sorted(x.fields.items()) if k not in (
                        'lineno', 'col_offset', 'end_lineno',
                        'end_col_offset', 'type_ignores', 'type_comment',
                        'kind', 'type_params'))
            raise Unknown('syntax tree')
        if t.op == 'const':
            return t.args[0]
        if t.op in ('tuple', 'vec', 'list'):
            return tuple(self.back(it, x, st) for x in t.args)
        o = it.obj(st, t)
        if o is not None and o.kind == 'list' and all(
                s[0] == 'i' and s[1] is TRUE for s in o.data):
            return tuple(self.back(it, s[2], st) for s in o.data)
        if t.op == 'sym':
            return t.args[0]
        raise Unknown('syntax tree of %s' % show(t, 3))

    def children(self, it, x, st):
        def sub(t):
            t = it.simp(t, st)
            if t.op == 'av' and isinstance(self.store[t.args[0]], Node):
                return [t]
            o = it.obj(st, t)
            if o is not None and o.kind == 'list':
                r = []
                for s in o.data:
                    if s[0] != 'i' or s[1] is not TRUE:
                        raise Unknown('list of nodes')
                    r += sub(s[2])
                return r
            return []
        return [y for f in x.fields.values() for y in sub(f)]

    def node(self, it, t, st):
        t = it.simp(t, st)
        if t.op == 'av' and isinstance(self.store[t.args[0]], Node):
            return self.store[t.args[0]]
        return None

    def isa(self, x, name):
        c = getattr(ast, x.kind)
        if name == 'Str':
            return x.kind == 'Constant' and self.isstr(x)
        d = getattr(ast, name, None)
        if d is None:
            raise Unknown('ast.%s' % name)
        return issubclass(c, d)

    def isstr(self, x):
        v = x.fields['value']
        return v.op == 'const' and isinstance(v.args[0], str)

    # ------------------------------------------------------------ library
    def external(self, it, name, args, kw, st, node):
        self.it, self.st = it, st
        if name.startswith('builtins.'):
            name = name[9:]
        base, fn = name.rpartition('.')[::2]
        if name == 'isinstance':
            x = self.node(it, args[0], st)
            if x is None:
                v = it.simp(args[0], st)
                if v.op != 'av':
                    return None
                raise Unknown('isinstance')
            c = it.simp(args[1], st)
            cs = c.args if c.op == 'tuple' else [c]
            if any(y.op != 'ext' for y in cs):
                raise Unknown('isinstance')
            return const(any(y.args[0].startswith('ast.') and self.isa(
                x, y.args[0][4:]) for y in cs))
        if name in ('hasattr', 'getattr') and self.node(it, args[0], st):
            f = self.py(it, args[1], st)
            try:
                r = self.getattr(it, it.simp(args[0], st), f, st)
            except LibError:
                if name == 'getattr' and len(args) < 3:
                    raise
                return FALSE if name == 'hasattr' else args[2]
            return TRUE if name == 'hasattr' else r
        if name == 'type' and len(args) == 1:
            x = self.node(it, args[0], st)
            return None if x is None else mk('ext', 'ast.' + x.kind)
        if name == 'open':
            f = self.py(it, args[0], st)
            if f not in self.files:
                raise LibError(['FileNotFoundError', 'OSError', 'IOError',
                                'Exception'], st, str(f))
            return self.term(it, File(self.files[f]), st)
        if name == 'ast.parse':
            s = self.py(it, args[0], st)
            mode = self.py(it, kw['mode'], st) if 'mode' in kw else 'exec'
            if not isinstance(s, str):
                raise Unknown('ast.parse')
            return self.tree(it, ast.parse(s, mode=mode), st)
        if base == 'ast' and fn in ('walk', 'iter_child_nodes'):
            x = self.node(it, args[0], st)
            if x is None:
                raise Unknown(name)
            if fn == 'iter_child_nodes':
                return it.new_list(st, self.children(it, x, st))
            todo, out = [it.simp(args[0], st)], []
            while todo:
                t = todo.pop(0)
                out.append(t)
                todo += self.children(it, self.store[t.args[0]], st)
            return it.new_list(st, out)
        if base == 'ast' and fn in ('fix_missing_locations', 'copy_location'):
            return args[0]
        if base == 'ast' and fn.startswith('NodeVisitor'):
            return NONE
        if name == 'ast.NodeVisitor.__init__':
            return NONE
        if base == 'ast' and isinstance(getattr(ast, fn, None), type) and \
                issubclass(getattr(ast, fn), ast.AST):
            names = getattr(ast, fn)._fields
            f = dict(zip(names, args))
            f.update(kw)
            self.store.append(Node(fn, f))
            return mk('av', len(self.store) - 1)
        if name == 'compile':
            mode = self.py(it, kw.get('mode', args[2] if len(args) > 2
                                      else NONE), st)
            src = it.simp(args[0], st)
            return self.term(it, self.code(it, src, mode, st), st)
        if name in ('exec', 'eval'):
            src = it.simp(args[0], st)
            c = self.store[src.args[0]] if src.op == 'av' else None
            if not isinstance(c, Code):
                c = self.code(it, src, name, st)
            if name == 'exec' and c.mode == 'eval':
                pass                        # evaluated, the value is lost
            ns = [it.simp(x, st) for x in args[1:]] + [
                it.simp(kw[k], st) for k in ('globals', 'locals') if k in kw]
            r = mk('value', len(self.runs)) if name == 'eval' and \
                c.mode == 'eval' else NONE
            self.runs.append((c, [self.space(it, x, st) for x in ns], r))
            return r
        if base in ('globals', 'locals') or name in ('globals', 'locals'):
            return mk('space', name)
        if name in ('dict', 'copy.copy', 'copy.deepcopy') or \
                base in ('collections',):
            return None
        return Lib.external(self, it, name, args, kw, st, node)

    def code(self, it, src, mode, st):
        if src.op == 'const' and isinstance(src.args[0], str):
            src = self.tree(it, ast.parse(src.args[0], mode=mode), st)
        t = self.back(it, src, st)
        if not isinstance(t, tuple):
            raise Unknown('compile')
        d = dict(t[1:])
        if t[0] == 'Module' and mode == 'exec':
            return Code(mode, list(d['body']))
        if t[0] == 'Expression' and mode == 'eval':
            return Code(mode, [d['body']])
        raise LibError(['TypeError', 'Exception'], st, 'compile %s as %s' % (
            t[0], mode))

    def space(self, it, t, st):
        """identity and content of a namespace"""
        o = it.obj(st, t)
        if o is None or o.kind != 'dict':
            return (t.id, None)
        return (t.id, {e[2].args[0]: e[3] for e in o.data if
                       not e[0] and e[1] is TRUE and e[2].op == 'const'}
                if all(not e[0] and e[1] is TRUE for e in o.data) else None)

    # ------------------------------------------------------------ values
    def getattr(self, it, v, name, st):
        x = self.store[v.args[0]]
        if isinstance(x, Node):
            if name == '__class__':
                return mk('ext', 'ast.' + x.kind)
            if name == 's' and x.kind == 'Constant':
                name = 'value'
            if name not in x.fields:
                if name in getattr(ast, x.kind)._fields:
                    return NONE
                if name in ('id', 'value', 'body', 'elts') or hasattr(
                        ast.AST, name) is False:
                    if name in ('visit', 'generic_visit'):
                        return mk('attr', v, name)
                    raise LibError(['AttributeError', 'Exception'], st,
                                   '%s has no %s' % (x.kind, name))
            return x.fields[name]
        return Lib.getattr(self, it, v, name, st)

    def setattr(self, it, v, name, w, st):
        x = self.store[v.args[0]]
        if isinstance(x, Node):
            x.fields[name] = w
            return
        return Lib.setattr(self, it, v, name, w, st)

    def receives(self, v):
        if v.op == 'super' or v.op == 'ref':
            return self.visitor(v)
        return Lib.receives(self, v)

    def visitor(self, v):
        if self.it is None:
            return False
        if v.op == 'super':
            v = v.args[2]
        o = self.st.heap.get(v.args[0]) if v.op == 'ref' else None
        return o is not None and o.kind == 'inst' and any(
            b == 'NodeVisitor' for b in self.bases(o.cls))

    def bases(self, cls):
        r = []
        for q in self.it.mro(cls):
            if ':' not in q:
                r.append(q.split('.')[-1])
                continue
            try:
                d = self.it.repo.lookup(q)
            except Exception:
                continue
            c = d[1] if isinstance(d[1], ast.ClassDef) else d[2]
            for b in c.bases if c is not None else ():
                r.append(ast.unparse(b).split('.')[-1])
        return r

    def method(self, it, v, name, args, kw, st, node):
        self.it, self.st = it, st
        if v.op in ('super', 'ref'):
            slf = v.args[2] if v.op == 'super' else v
            if name == '__init__':
                return NONE
            if name not in ('visit', 'generic_visit'):
                raise Unknown('visitor %s' % name)
            x = self.node(it, args[0], st)
            if x is None:
                raise Unknown('visit')
            o = it.obj(st, slf)
            m = it.find_method(o.cls, 'visit_' + x.kind)
            if name == 'visit' and m is not None:
                return it.call_method(slf, 'visit_' + x.kind, [args[0]], {},
                                      st, node)
            for y in self.children(it, x, st):
                if it.find_method(o.cls, 'visit') is not None:
                    it.call_method(slf, 'visit', [y], {}, st, node)
                else:
                    self.method(it, slf, 'visit', [y], {}, st, node)
            return NONE
        if v.op == 'av':
            x = self.store[v.args[0]]
            if isinstance(x, File):
                if name == 'read' and not args:
                    return const(x.text)
                if name in ('close', '__exit__', '__enter__'):
                    return v
                raise Unknown('file.%s' % name)
        return Lib.method(self, it, v, name, args, kw, st, node)


def key(n):
    """the printable form of a real syntax tree"""
    if isinstance(n, ast.AST):
        return (type(n).__name__,) + tuple(sorted(
            (k, key(v)) for k, v in ast.iter_fields(n) if k not in (
                'type_ignores', 'type_comment', 'kind', 'type_params')))
    if isinstance(n, list):
        return tuple(key(x) for x in n)
    if n is None or isinstance(n, (str, int)):
        return n
    return 'constant:%r' % (n,)


def version(c, i=None):
    """a comparison with the version of the interpreter (3.12)"""
    def val(t):
        if t.op == 'ext' and t.args[0] == 'sys.version_info':
            return (3, 12)
        if t.op == 'ext' and t.args[0] == 'sys.version_info.major':
            return 3
        if t.op == 'tuple':
            return tuple(val(x) for x in t.args)
        if t.op == 'const':
            return t.args[0]
        raise Unknown('version')
    try:
        if c.op == 'not':
            r = version(c.args[0])
            return None if r is None else not r
        if c.op in ('le', 'lt', 'eq') and 'version_info' in show(c, 6):
            a, b = map(val, c.args)
            return a <= b if c.op == 'le' else a < b if c.op == 'lt' \
                else a == b
    except (Unknown, TypeError):
        pass
    return None


class Compute(object):
    """a computed function made from one script"""

    def __init__(self, ck, definition, files=()):
        it = self.it = Interp(ck.repo, opaque=set(), exact=True)
        self.lib = it.lib = Scripts(dict(files))
        self.st = State()
        it.decide = version
        self.dead = None
        self.lib.it, self.lib.st = it, self.st
        ck.saw(it)
        try:
            self.obj = it.instantiate(FUN, [
                const(definition),
                it.new_set(self.st, [const(c) for c in COLS])], {}, self.st,
                None)
        except Dead:
            self.dead = 'raise'
        except LibError as e:
            self.dead = str(e)

    def columns(self):
        it, st = self.it, self.st
        v = it.getattr_(self.obj, 'input_names', st, None)
        r = self.lib.py(it, it.simp(v, st), st)
        return sorted(r)

    def evaluate(self):
        """what is executed, and the context given"""
        it, st = self.it, self.st
        ctx = it.new_dict(st, [(const(c), sym('column:' + c))
                               for c in self.columns()])
        self.lib.runs = []
        self.result = None
        try:
            self.result = it.simp(it.call_method(
                self.obj, 'evaluate', [ctx], {}, st, None), st)
        except Dead:
            self.dead = 'raise'
        except LibError as e:
            self.dead = str(e)
        return ctx, self.lib.runs


def named(text):
    return sorted({n.id for s in ast.parse(text).body if not isinstance(
        s, (ast.Import, ast.ImportFrom)) for n in ast.walk(s)
        if isinstance(n, ast.Name)} & set(COLS))


def ordered(done, want, imports):
    """the statements are those of the script, in its order; imports may move
    to the front as long as they stay in order"""
    if done == want:
        return True
    return [x for x in done if x not in imports] == [
        x for x in want if x not in imports] and [
        x for x in done if x in imports] == [
        x for x in want if x in imports] and all(
        done.index(x) <= want.index(x) for x in imports)


def evaluated(c, text):
    """None, or what is wrong with the evaluation of the script"""
    body = ast.parse(text).body
    want = [key(s) for s in body[:-1]]
    imports = [key(s) for s in body if isinstance(
        s, (ast.Import, ast.ImportFrom))]
    last = key(body[-1].value)
    spaces = []
    for n in range(2):
        ctx, runs = c.evaluate()
        if c.dead:
            return 'the evaluation fails (%s)' % c.dead
        done = [s for code, ns, r in runs[:-1] for s in code.stats]
        if not runs or c.result is not runs[-1][2]:
            for k, (code, ns, r) in enumerate(runs):
                if r is c.result and r is not NONE:
                    return 'the result is the value of %s' % text_of(
                        code.stats[0])
            if c.result is NONE:
                return 'the result is None'
            raise Unknown('result %s' % show(c.result, 3))
        if runs[-1][0].stats[0] != last:
            return 'the result is the value of %s' % text_of(
                runs[-1][0].stats[0])
        if not ordered(done, want, imports):
            if len(done) < len(want) and all(x in want for x in done):
                return 'statements of the script are not executed'
            if len(done) > len(want):
                return 'statements of the script are executed twice'
            return 'the statements are not executed in the order of the script'
        names = {x for code, ns, r in runs for x in ns[:1]
                 for x in [x[0]]}
        local = [ns[-1] for code, ns, r in runs if ns]
        if len(local) != len(runs):
            return 'the script is executed in the namespace of the package'
        if len({x[0] for x in local}) > 1 or len(names) > 1:
            return 'the parts of the script are executed in several namespaces'
        if any(ns[0][0] != ns[-1][0] for code, ns, r in runs):
            if nested(body):
                return 'functions of the script see neither its imports and ' \
                    'variables nor the columns'
        for ns in local:
            if ns[1] is None:
                raise Unknown('namespace')
            for col in named(text):
                if ns[1].get(col) is not sym('column:' + col):
                    return 'the namespace does not hold %s' % col
        ids = {x[0] for code, ns, r in runs for x in ns}
        if spaces and any(i in spaces[0] for i in ids):
            return 'the namespace of the first evaluation is used again'
        spaces.append(ids)
    return None


def nested(body):
    """a function of the script reads something of the script"""
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp))
               for s in body for n in ast.walk(s))


def text_of(k):
    try:
        return 'the %s of the script' % k[0]
    except Exception:
        return 'something else'


def script(ck):
    rules = {'script': 0, 'columns': 0}
    und, bad = {}, set()
    ck.repo.lookup(FUN)
    for what, text in SCRIPTS:
        for form in ('text', 'file'):
            d, files = (text, {}) if form == 'text' else (
                'd/script.py', {'d/script.py': text})
            try:
                c = Compute(ck, d, files)
                if c.dead:
                    bad.add('script')
                    ck.violated('script', FUN, '%s (given '
                                'as %s) is refused: %s' % (
                                    what, form, c.dead))
                    continue
                got, want = c.columns(), named(text)
                rules['columns'] += 1
                if got != want:
                    bad.add('columns')
                    ck.violated('columns', FUN, '%s (given '
                                'as %s): the columns read are %s, not %s' % (
                                    what, form, got, want))
                    continue
                w = evaluated(c, text)
                rules['script'] += 1
                if w:
                    bad.add('script')
                    ck.violated('script', FUN, '%s (given '
                                'as %s): %s' % (what, form, w))
            except (Unknown, LibError, Dead) as e:
                und['script'] = '%s: %s %s' % (what, type(e).__name__, e)
    for r in ('script', 'columns'):
        if r in und or 'script' in und:
            ck.undecided(r, FUN, und['script'])
        elif r not in bad:
            ck.holds(r, FUN, '%d model scripts' % rules[r])


def refused(ck):
    rule = 'refused'
    und = None
    for what, text in REFUSED:
        try:
            c = Compute(ck, text)
            if not c.dead:
                ck.violated(rule, FUN, 'a script that ends '
                            'with %s is accepted' % what)
                return
        except (Unknown, LibError) as e:
            und = '%s: %s' % (what, e)
    if und:
        ck.undecided(rule, FUN, und)
    else:
        ck.holds(rule, FUN, '%d model scripts' % len(REFUSED))


RULES = [script, refused]
