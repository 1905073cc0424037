"""Flow of exceptions: which handlers let a failure disappear.

A handler is *transparent* when every path through its body ends in a raise or
in leaving the process with a failure code. In an `__exit__` method the body is
evaluated under the assumption that no other exception is in flight (the
parameters are None), because an exception in flight is propagated anyway.
"""
import ast
from sa.repo import Repo

BROAD = {'Exception', 'BaseException'}
FAILURES = BROAD | {'IOError', 'OSError', 'EnvironmentError', 'ValueError',
                    'RuntimeError', 'AssertionError', 'MemoryError',
                    'ArithmeticError', 'ZeroDivisionError', 'LookupError',
                    'FloatingPointError', 'KeyboardInterrupt', 'SystemExit',
                    'Warning', 'TypeError', 'IndexError', 'NotImplementedError',
                    'StandardError', 'error'}


def types(h):
    """names of the exceptions a handler catches; None for a bare except"""
    if h.type is None:
        return {'BaseException'}
    ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    out = set()
    for n in ns:
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
        else:
            out.add('?')
    return out


def test_value(t, none):
    """value of a test when the names in `none` are None; None if unknown"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
            t.left, ast.Name) and t.left.id in none and isinstance(
            t.comparators[0], ast.Constant) and \
            t.comparators[0].value is None:
        if isinstance(t.ops[0], (ast.Is, ast.Eq)):
            return True
        if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
            return False
    if isinstance(t, ast.Name) and t.id in none:
        return False
    if isinstance(t, ast.Constant):
        return bool(t.value)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = test_value(t.operand, none)
        return None if v is None else not v
    if isinstance(t, ast.BoolOp):
        vs = [test_value(v, none) for v in t.values]
        stop = isinstance(t.op, ast.Or)
        if stop in vs:
            return stop
        if None not in vs:
            return not stop
    return None


def failing_exit(call):
    """sys.exit(x) / os._exit(x) / os.abort() with a failure status"""
    f = call.func
    n = f.attr if isinstance(f, ast.Attribute) else \
        f.id if isinstance(f, ast.Name) else ''
    if n == 'abort':
        return True
    if n in ('exit', '_exit', 'error', 'quit'):
        if n == 'error':          # argparse
            return True
        if not call.args:
            return False
        a = call.args[0]
        return not (isinstance(a, ast.Constant) and a.value in (0, None))
    return False


RAISE, LEAVE, FALL = 'raise', 'leave', 'fall'


def ends(body, none=(), never=()):
    """how control can leave a block: subset of {raise, leave, fall}; `leave`
    is return / break / continue"""
    out = set()
    for s in body:
        if isinstance(s, ast.Raise):
            out.add(RAISE)
            return out
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (
                failing_exit(s.value) or callee(s.value) in never):
            out.add(RAISE)
            return out
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            out.add(LEAVE)
            return out
        if isinstance(s, ast.If):
            v = test_value(s.test, none)
            r = set()
            if v is not False:
                r |= ends(s.body, none, never)
            if v is not True:
                r |= ends(s.orelse, none, never)
        elif isinstance(s, (ast.For, ast.While)):
            r = {FALL} | (ends(s.body, none, never) & {RAISE})
            if any(isinstance(x, ast.Return) for b in s.body
                   for x in ast.walk(b)):
                r.add(LEAVE)
            if isinstance(s, ast.While) and test_value(s.test, none) and \
                    not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                r.discard(FALL)
        elif isinstance(s, ast.With):
            r = ends(s.body, none, never)
        elif isinstance(s, ast.Try):
            r = ends(s.body, none, never)
            if s.handlers:
                r -= {RAISE}
                if FALL in r and s.orelse:
                    r = (r - {FALL}) | ends(s.orelse, none, never)
                for h in s.handlers:
                    r |= ends(h.body, none, never)
            f = ends(s.finalbody, none, never)
            if FALL not in f:
                r = f
        else:
            continue
        out |= r - {FALL}
        if FALL not in r:
            return out
    out.add(FALL)
    return out


def callee(call):
    f = call.func
    return f.id if isinstance(f, ast.Name) else \
        f.attr if isinstance(f, ast.Attribute) else None


def never_returns(module):
    """functions and methods of a module whose body always raises"""
    return {n.name for n in ast.walk(module.tree)
            if isinstance(n, ast.FunctionDef) and ends(n.body) == {RAISE}}


def none_params(fn):
    """parameters standing for the exception in flight"""
    if fn is not None and fn.name == '__exit__':
        return {a.arg for a in fn.args.args[1:]}
    return ()


def transparent(h, fn, never=()):
    return ends(h.body, none_params(fn), never) <= {RAISE}


def functions(module):
    """(qualified name, node) of every function, methods and nested included"""
    out = []

    def go(body, pre):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                out.append((pre + n.name, n))
                go(n.body, pre + n.name + '.')
            elif isinstance(n, ast.ClassDef):
                go(n.body, pre + n.name + '.')
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For,
                                ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    go(getattr(n, f, []), pre)
    go(module.tree.body, '')
    return out


def own(fn):
    """nodes of a function without those of nested functions"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def tries(fn):
    return [n for n in own(fn) if isinstance(n, ast.Try)]
