"""Mutation effects of functions: a flow-sensitive may-alias analysis.

The abstract value of an expression is (own, content): the caller's objects it
may share its storage with, and those its elements may share theirs with. The
statements of a function are walked in order (branches are joined, loops run to
a fixed point); a statement that changes an object in place is reported for
every caller's object the changed value may be. Calls of functions of the
package use their summaries; other functions are assumed to return new objects
unless numpy documents a view.
"""
import ast

# numpy functions and methods that return their argument or a view of it
VIEWS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
         'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes',
         'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d',
         'broadcast_to', 'rollaxis', 'moveaxis', 'view', 'diagonal', 'real',
         'imag', 'asmatrix', 'flat', 'T', 'values', 'base', 'rot90', 'flip',
         'flipud', 'fliplr', 'asfarray', 'require', 'split', 'array_split',
         'hsplit', 'vsplit', 'newbyteorder', 'data', 'iloc', 'loc'}
INPLACE = {'sort', 'fill', 'resize', 'put', 'partition', 'itemset',
           'setfield', 'append', 'extend', 'insert', 'pop', 'remove', 'clear',
           'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
           'drop_inplace', '__setitem__', '__iadd__', '__isub__', '__imul__',
           '__itruediv__', 'set_value'}
FIRST = {'put', 'copyto', 'place', 'putmask', 'fill_diagonal', 'shuffle',
         'put_along_axis', 'setitem', 'isub', 'iadd', 'itruediv', 'imul',
         'nan_to_num_', 'heappush', 'heapify'}
CONTENT = {'items', 'values', 'get', 'itervalues', 'iteritems', 'zip', 'list',
           'tuple', 'sorted', 'reversed', 'enumerate', 'iter', 'next', 'dict',
           'set', 'map', 'filter', 'izip', 'chain', 'copy', 'islice'}
NONE = (frozenset(), frozenset())


def join(a, b):
    return a[0] | b[0], a[1] | b[1]


def flat(v):
    return v[0] | v[1]


class Effects(object):
    def __init__(self, repo):
        self.repo = repo
        self.memo = {}
        self.seen = set()

    def summary(self, mod, node, containers=(), cls=None):
        """({parameter: (line, what)}, value of the result)

        parameters in `containers` hold objects of the caller"""
        key = (mod.name, node.name, node.lineno, tuple(sorted(containers)))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ({}, NONE)
        for _ in range(3):
            w = Walk(self, mod, node, containers, cls)
            r = w.run()
            if self.memo[key] == r:
                break
            self.memo[key] = r
        self.seen.add((mod.path, node.name))
        return r

    def callee(self, mod, func):
        """(module, function) of the package that is called"""
        repo = self.repo
        if isinstance(func, ast.Name):
            d = mod.defs.get(func.id)
            if d is None:
                return None
            if d[0] == 'func':
                return mod, d[1]
            if d[0] == 'from':
                m = repo.modules.get(d[1])
                if m is not None and m.defs.get(d[2], ('',))[0] == 'func':
                    return m, m.defs[d[2]][1]
            return None
        if isinstance(func, ast.Attribute):
            name = dotted(func.value)
            if name is None:
                return None
            head = name.split('.')[0]
            d = mod.defs.get(head)
            full = name
            if d is not None and d[0] == 'mod':
                full = d[1] + name[len(head):] if not name.startswith(d[1]) \
                    else name
            elif d is not None and d[0] == 'from':
                full = d[1] + '.' + d[2] + name[len(head):]
            m = repo.modules.get(full)
            if m is not None and m.defs.get(func.attr, ('',))[0] == 'func':
                return m, m.defs[func.attr][1]
        return None


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b and b + '.' + n.attr
    return None


class Walk(object):
    def __init__(self, eff, mod, node, containers, cls):
        self.eff, self.mod, self.node, self.cls = eff, mod, node, cls
        self.changes = {}
        self.result = NONE
        self.ranged = set()
        self.local = {n.name: n for n in ast.walk(node)
                      if isinstance(n, ast.FunctionDef) and n is not node}
        a = node.args
        env = {}
        for p in a.posonlyargs + a.args + a.kwonlyargs + \
                [x for x in (a.vararg, a.kwarg) if x]:
            env[p.arg] = (frozenset([p.arg]),
                          frozenset([p.arg + '*'] if p.arg in containers or
                                    p is a.vararg else []))
        self.env = env

    def run(self):
        self.block(self.node.body, self.env)
        return dict(self.changes), self.result

    # ---- statements; return the environment after, None if not reached
    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def merge(self, *envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = join(out[k], v) if k in out else v
        return out

    def stmt(self, s, env):
        env = dict(env)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                self.change(env.get(t.id, NONE)[0], s,
                            'augmented assignment of %s' % t.id)
            else:
                self.change(self.ev(t.value, env)[0] |
                            self.ev(t, env)[0], s,
                            'augmented assignment of %s' % ast.unparse(t))
        elif isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.result = join(self.result, self.ev(s.value, env))
            return None
        elif isinstance(s, ast.Raise):
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            return self.merge(self.block(s.body, env),
                              self.block(s.orelse, env))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            counts = isinstance(s.iter, ast.Call) and \
                isinstance(s.iter.func, ast.Name) and \
                s.iter.func.id in ('range', 'xrange')
            if counts and isinstance(s.target, ast.Name):
                self.ranged.add(s.target.id)
            el = (flat(it), it[1])
            for _ in range(4):
                before = env
                e = dict(env)
                self.assign(s.target, el, e, None)
                env = self.merge(env, self.block(s.body, e))
                if env == before:
                    break
            if s.orelse:
                env = self.block(s.orelse, env)
            return env
        elif isinstance(s, ast.While):
            self.ev(s.test, env)
            for _ in range(4):
                before = env
                env = self.merge(env, self.block(s.body, env))
                if env == before:
                    break
            if s.orelse:
                env = self.block(s.orelse, env)
            return env
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            return self.block(s.body, env)
        elif isinstance(s, ast.Try):
            e = self.block(s.body, env)
            out = [self.block(s.orelse, e) if e is not None else None]
            for h in s.handlers:
                out.append(self.block(h.body, self.merge(env, e)))
            env2 = self.merge(*out)
            if s.finalbody:
                r = self.block(s.finalbody, env2 if env2 is not None else env)
                return r if env2 is not None else None
            return env2
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.change(self.ev(t.value, env)[0], s,
                                'del %s' % ast.unparse(t))
        elif isinstance(s, ast.FunctionDef):
            # a nested function may run: its changes of captured names
            w = Walk(self.eff, self.mod, s, (), self.cls)
            inner = dict(env)
            inner.update({k: NONE for k in w.env})
            w.env = inner
            w.block(s.body, inner)
            for k, v in w.changes.items():
                self.changes.setdefault(k, v)
        return env

    def assign(self, t, v, env, src):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and \
                    len(src.elts) == len(t.elts):
                vs = [self.ev(x, env) for x in src.elts]
                for x, y in zip(t.elts, vs):
                    self.assign(x, y, env, None)
            else:
                for x in t.elts:
                    self.assign(x, (flat(v), v[1]), env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.change(b[0], t, 'assignment of %s' % ast.unparse(t))
            r = t.value
            if isinstance(r, ast.Name):
                c = env.get(r.id, NONE)
                # arrays copy the values assigned to their items
                if not view_index(t.slice, self.ranged):
                    env[r.id] = (c[0], c[1] | flat(v))
        elif isinstance(t, ast.Attribute):
            k = dotted(t)
            if k:
                env[k] = v

    def change(self, own, node, what):
        for r in own:
            self.changes.setdefault(r, (getattr(node, 'lineno', 0), what))

    # ---- expressions
    def ev(self, n, env):
        if n is None:
            return NONE
        if isinstance(n, ast.Name):
            return env.get(n.id, NONE)
        if isinstance(n, ast.Attribute):
            k = dotted(n)
            if k in env:
                return env[k]
            b = self.ev(n.value, env)
            if isinstance(n.value, ast.Name) and n.value.id in (
                    'self', 'cls') and b != NONE:
                r = frozenset([k])
                return r, frozenset([k + '*'])
            return b if n.attr in VIEWS else NONE
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, env)
            self.ev(n.slice, env)
            if view_index(n.slice, self.ranged):
                return flat(b), b[1]
            return b[1], b[1]
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            r = frozenset()
            for x in n.elts:
                r |= flat(self.ev(x, env))
            return frozenset(), r
        if isinstance(n, ast.Dict):
            r = frozenset()
            for x in n.values:
                r |= flat(self.ev(x, env))
            return frozenset(), r
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            return join(self.ev(n.body, env), self.ev(n.orelse, env))
        if isinstance(n, ast.BoolOp):
            r = NONE
            for x in n.values:
                r = join(r, self.ev(x, env))
            return r
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env)
            env[n.target.id] = v
            return v
        if isinstance(n, ast.Starred):
            return self.ev(n.value, env)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                it = self.ev(g.iter, e)
                self.assign(g.target, (flat(it), it[1]), e, None)
                for c in g.ifs:
                    self.ev(c, e)
            v = self.ev(n.value if isinstance(n, ast.DictComp) else n.elt, e)
            return frozenset(), flat(v)
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, ast.Lambda):
            return NONE
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return NONE

    def call(self, n, env):
        args = [self.ev(a, env) for a in n.args]
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
        out = kws.get('out')
        if out is not None:
            self.change(flat(out), n, 'out= of %s' % ast.unparse(n.func))
        name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr \
            if isinstance(n.func, ast.Attribute) else ''
        for k in n.keywords:
            if k.arg == 'inplace' and isinstance(k.value, ast.Constant) and \
                    k.value.value and isinstance(n.func, ast.Attribute):
                self.change(self.ev(n.func.value, env)[0], n,
                            'in place %s' % name)
        uncopied = any(k.arg == 'copy' and isinstance(k.value, ast.Constant)
                       and not k.value.value for k in n.keywords)
        if name in self.local:
            return NONE
        tgt = self.eff.callee(self.mod, n.func)
        if tgt is not None:
            m, f = tgt
            ps = [p.arg for p in f.args.posonlyargs + f.args.args]
            bound = dict(zip(ps, args))
            bound.update({k: v for k, v in kws.items() if k})
            hold = [p for p, v in bound.items() if v[1]]
            ch, res = self.eff.summary(m, f, hold)
            for p, (line, what) in ch.items():
                v = bound.get(p.rstrip('*'), NONE)
                self.change(v[1] if p.endswith('*') else v[0], n,
                            '%s in %s, called' % (what, f.name))

            def back(rs):
                r = frozenset()
                for p in rs:
                    v = bound.get(p.rstrip('*'), NONE)
                    r |= v[1] if p.endswith('*') else v[0]
                return r
            return back(res[0]), back(res[1])
        if isinstance(n.func, ast.Attribute):
            head = dotted(n.func.value)
            lib = head is not None and head.split('.')[0] in self.mod.defs \
                and head.split('.')[0] not in env and \
                self.mod.defs[head.split('.')[0]][0] in ('mod', 'from')
            if lib:
                if name in FIRST and args:
                    self.change(args[0][0], n, '%s' % ast.unparse(n.func))
                    return NONE
                if args and (name in VIEWS or name == 'array' and uncopied):
                    return args[0]
                if name in CONTENT:
                    r = frozenset()
                    for a in args:
                        r |= flat(a)
                    return frozenset(), r
                return NONE
            b = self.ev(n.func.value, env)
            if name in INPLACE:
                self.change(b[0], n, '%s()' % ast.unparse(n.func))
                if isinstance(n.func.value, ast.Name) and args:
                    c = env.get(n.func.value.id, NONE)
                    r = frozenset()
                    for a in args:
                        r |= flat(a)
                    env[n.func.value.id] = (c[0], c[1] | r)
                return (b[1], b[1]) if name in ('pop', 'setdefault') else NONE
            if name == 'get':
                return b[1], b[1]
            if name == 'copy':
                return frozenset(), b[1]
            if name in CONTENT:
                return frozenset(), flat(b)
            if name in VIEWS or uncopied and name == 'astype':
                return b
            return NONE
        if name in CONTENT:
            r = frozenset()
            for a in args:
                r |= flat(a)
            return frozenset(), r
        return NONE


def view_index(i, ranged):
    """whether indexing an array with i certainly selects a part of it in
    place (slices, positions), not a copy"""
    if isinstance(i, ast.Tuple):
        return all(view_index(x, ranged) for x in i.elts)
    if isinstance(i, ast.Slice):
        return True
    if isinstance(i, ast.Constant):
        return i.value is None or i.value is Ellipsis or \
            isinstance(i.value, int) and not isinstance(i.value, bool)
    if isinstance(i, ast.UnaryOp) and isinstance(i.operand, ast.Constant):
        return True
    if isinstance(i, ast.Attribute):
        return i.attr == 'newaxis'
    return isinstance(i, ast.Name) and i.id in ranged
