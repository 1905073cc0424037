"""Loading of the source tree under analysis (current working tree)."""
import ast
import hashlib
import io
import os
import re
import tokenize

REPO = os.environ.get('ABX_REPO', '/repo')


class AnalysisBroken(Exception):
    """an anchor of the analysis is missing or the source does not parse"""


class Module(object):
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.is_pkg = is_pkg
        self.defs = {}
        self._scan(tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.defs[n.name] = ('func', n)
            elif isinstance(n, ast.ClassDef):
                self.defs[n.name] = ('class', n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.defs[a.asname] = ('mod', a.name)
                    else:
                        r = a.name.split('.')[0]
                        self.defs[r] = ('mod', r)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([base] if base else []))
                for a in n.names:
                    if a.name != '*':
                        self.defs[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('expr', n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                self.defs[n.target.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self._scan(n.body)
                for h in getattr(n, 'handlers', ()):
                    self._scan(h.body)
                self._scan(n.orelse)


class Repo(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.bypath = {}
        base = os.path.join(self.root, 'ABXpy')
        files = []
        for d, dirs, fs in os.walk(base):
            dirs[:] = sorted(x for x in dirs if not x.startswith('__py')
                             and x not in ('build',))
            for f in sorted(fs):
                if f.endswith('.py') or f.endswith('.pyx'):
                    files.append(os.path.join(d, f))
        for p in files:
            rel = os.path.relpath(p, self.root)
            name = rel[:-4] if rel.endswith('.pyx') else rel[:-3]
            name = name.replace(os.sep, '.')
            is_pkg = name.endswith('.__init__')
            if is_pkg:
                name = name[:-9]
            with open(p, encoding='utf8') as fh:
                src = fh.read()
            text = pyx_to_py(src) if p.endswith('.pyx') else src
            try:
                tree = ast.parse(text, filename=rel)
            except SyntaxError as e:
                if p.endswith('.pyx'):
                    # beyond the subset: only what needs it is undecided
                    tree = ast.parse('')
                else:
                    raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
            if p.endswith('.pyx'):
                # .../dtw/dtw.pyx is built as ABXpy.distances.metrics.dtw
                parts = name.split('.')
                if len(parts) > 1 and parts[-1] == parts[-2]:
                    name = '.'.join(parts[:-1])
            m = Module(name, rel, tree, src, is_pkg)
            self.modules[name] = m
            self.bypath[rel] = m

    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken('module %s is missing' % name)
        return self.modules[name]

    def lookup(self, dotted):
        """'pkg.mod:Class.meth' or 'pkg.mod:func' -> (module, node, cls)"""
        mod, q = dotted.split(':')
        m = self.module(mod)
        body = m.tree.body
        cls = None
        node = None
        for part in q.split('.'):
            node = None
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                        n.name == part:
                    node = n
            if node is None:
                raise AnalysisBroken('%s is missing' % dotted)
            if isinstance(node, ast.ClassDef):
                cls = node
                body = node.body
        return m, node, cls

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in sorted(names or self.modules):
            h.update(n.encode() + b'\0' + self.modules[n].src.encode())
        return h.hexdigest()[:16]


# ------------------------------------------------------------ cython -> python

_CTYPE = re.compile(r'^(\s*)cdef\s+(.*)$')


def pyx_to_py(src):
    """Line-preserving reduction of the Cython subset used here to Python:
    C declarations become plain assignments, typed parameters lose their type.
    """
    out = []
    for line in src.split('\n'):
        s = line.strip()
        ind = line[:len(line) - len(line.lstrip())]
        if s.startswith(('cimport ', 'ctypedef ')) or \
                re.match(r'from\s+\S+\s+cimport\b', s):
            out.append(ind + 'pass')
            continue
        m = re.match(r'^(cpdef|cdef)\s+(?:inline\s+)?(?:[\w.\[\]:, ]+\s+)?(\w+)'
                     r'\s*\((.*)\)\s*(?:nogil|except[^:]*)?:\s*(#.*)?$', s)
        if m:
            params = [_untype(p) for p in _split(m.group(3)) if p.strip()]
            out.append('%sdef %s(%s):' % (ind, m.group(2), ', '.join(params)))
            continue
        if s.startswith('cdef '):
            rest = s[5:]
            if rest.endswith(':'):
                out.append(ind + 'if True:')
                continue
            rest = rest.split('#')[0].strip()
            sets = []
            for d in _split(rest):
                if '=' in d:
                    decl, val = d.split('=', 1)
                    sets.append('%s = %s' % (re.findall(r'\w+', decl)[-1],
                                             val.strip()))
            out.append(ind + ('; '.join(sets) or 'pass'))
            continue
        m = re.match(r'^def\s+(\w+)\s*\((.*)\)\s*:\s*(#.*)?$', s)
        if m:
            params = [_untype(p) for p in _split(m.group(2)) if p.strip()]
            out.append('%sdef %s(%s):' % (ind, m.group(1), ', '.join(params)))
            continue
        if s.startswith('with nogil') or s.startswith('with cython.'):
            out.append(ind + 'if True:')
            continue
        line = re.sub(r'<\s*[\w.]+_t\s*>', '', line)
        out.append(line)
    return '\n'.join(out)


def _split(s):
    parts, depth, cur = [], 0, ''
    for c in s:
        if c in '([{':
            depth += 1
        if c in ')]}':
            depth -= 1
        if c == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += c
    parts.append(cur)
    return parts


def _untype(p):
    default = ''
    if '=' in p:
        p, d = p.split('=', 1)
        default = '=' + d.strip()
    p = p.strip()
    stars = ''
    while p.startswith('*'):
        stars += '*'
        p = p[1:]
    return stars + re.findall(r'\w+', p)[-1] + default
