"""Hash-consed value-graph terms with a canonical form.

Two expressions that denote the same value by elementary laws (polynomial
arithmetic, boolean algebra, gather composition, shape laws) get the same
term object, whatever statements computed them.
"""
from fractions import Fraction


class T(object):
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_ids = [0]


def mk(op, *args):
    key = (op,) + tuple(a.id if isinstance(a, T) else ('#', type(a).__name__, a)
                        for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _ids[0] += 1
        t.id = _ids[0]
        _tab[key] = t
    return t


def const(v):
    if isinstance(v, Fraction):
        v = int(v) if v.denominator == 1 else float(v)
    return mk('const', v)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
UNBOUND = mk('unbound')
ELLIPSIS = mk('ellipsis')


def sym(name, *args):
    return mk('sym', name, *args)


def tup(*xs):
    return mk('tuple', *xs)


def is_num(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float)) and \
        not isinstance(t.args[0], bool)


# ---------------------------------------------------------------- polynomials
# a polynomial is the term poly(((monomial, coeff), ...)), a monomial being a
# tuple of (atom, exponent) sorted by atom id; kept as plain tuples

def _topoly(t):
    if t.op == 'const' and isinstance(t.args[0], (bool, int, float)):
        v = t.args[0]
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return {((t, 1),): Fraction(1)}
            if v != int(v):
                # keep non-integral floats exact
                return {(): Fraction(v)}
            return {(): Fraction(int(v))} if v else {}
        v = int(v)
        return {(): Fraction(v)} if v else {}
    if t.op == 'poly':
        return {m: c for m, c in t.args[0]}
    return {((t, 1),): Fraction(1)}


def _monokey(m):
    return tuple((a.id, e) for a, e in m)


def _frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: _monokey(mc[0])))
    key = ('poly', tuple((_monokey(m), c) for m, c in items))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = 'poly'
        t.args = (items,)
        _ids[0] += 1
        t.id = _ids[0]
        _tab[key] = t
    return t


def add(a, b):
    if a.op == 'const' and isinstance(a.args[0], str) and b.op == 'const' \
            and isinstance(b.args[0], str):
        return const(a.args[0] + b.args[0])
    if stringy(a) or stringy(b):
        return concat(a, b)
    if a.op == 'tuple' and b.op == 'tuple':
        return tup(*(a.args + b.args))
    p = dict(_topoly(a))
    for m, c in _topoly(b).items():
        p[m] = p.get(m, 0) + c
    return _frompoly(p)


def neg(a):
    return _frompoly({m: -c for m, c in _topoly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and isinstance(x.args[0], str) and is_num(y):
            return const(x.args[0] * int(y.args[0]))
        if x.op in ('list', 'lcat', 'lcomp'):
            return mk('repeat', x, y)
    p = {}
    for m1, c1 in _topoly(a).items():
        for m2, c2 in _topoly(b).items():
            d = {}
            at = {}
            for x, e in m1 + m2:
                d[x.id] = d.get(x.id, 0) + e
                at[x.id] = x
            m = tuple((at[i], e) for i, e in sorted(d.items()) if e)
            p[m] = p.get(m, 0) + c1 * c2
    return _frompoly(p)


def stringy(t):
    return (t.op == 'const' and isinstance(t.args[0], str)) or t.op in (
        'concat', 'str', 'format', 'splitext0', 'basename', 'pathjoin')


def concat(*xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == 'concat' else (x,)):
            if y.op == 'const' and y.args[0] == '':
                continue
            if out and out[-1].op == 'const' and y.op == 'const' and \
                    isinstance(out[-1].args[0], str) and \
                    isinstance(y.args[0], str):
                out[-1] = const(out[-1].args[0] + y.args[0])
            else:
                out.append(y)
    if not out:
        return const('')
    return out[0] if len(out) == 1 else mk('concat', *out)


def div(a, b):
    if is_num(b) and b.args[0] != 0:
        c = Fraction(b.args[0])
        return _frompoly({m: k / c for m, k in _topoly(a).items()})
    if is_num(a) and a.args[0] == 0:
        return ZERO
    return mk('div', a, b)


def divides(b, a):
    """quotient polynomial if b (a monomial) divides a exactly, else None"""
    pb = _topoly(b)
    if len(pb) != 1:
        return ONE if a is b else None
    (mb, cb), = pb.items()
    out = {}
    for m, c in _topoly(a).items():
        d = {x.id: [x, e] for x, e in m}
        for x, e in mb:
            if x.id not in d or d[x.id][1] < e:
                return None
            d[x.id][1] -= e
        q = c / cb
        if q.denominator != 1:
            return None
        m2 = tuple((x, e) for _, (x, e) in sorted(d.items()) if e)
        out[m2] = out.get(m2, 0) + q
    return _frompoly(out)


def floordiv(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        return const(a.args[0] // b.args[0])
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    if a.op == 'floordiv':      # (x//p)//q == x//(p*q) for positive p, q
        return floordiv(a.args[0], mul(a.args[1], b))
    # split a = q*b + r
    q, r = ZERO, ZERO
    for m, c in _topoly(a).items():
        t = _frompoly({m: c})
        d = divides(b, t)
        if d is not None and not (is_num(b) and not is_num(t)
                                  and d is None):
            q = add(q, d)
        else:
            r = add(r, t)
    if q is not ZERO:
        if r is ZERO:
            return q
        return add(q, mk('floordiv', r, b))
    return mk('floordiv', a, b)


def mod(a, b):
    if is_num(a) and is_num(b) and b.args[0] != 0:
        return const(a.args[0] % b.args[0])
    if b is ONE or a is ZERO:
        return ZERO
    if a.op == 'const' and isinstance(a.args[0], str):
        return mk('format', a, b)
    r = ZERO
    for m, c in _topoly(a).items():
        t = _frompoly({m: c})
        if divides(b, t) is None:
            r = add(r, t)
    if r is ZERO:
        return ZERO
    # a - (a//b)*b is a % b
    return mk('mod', r, b)


def power(a, b):
    if is_num(b) and isinstance(b.args[0], int) and 0 <= b.args[0] <= 6:
        r = ONE
        for _ in range(b.args[0]):
            r = mul(r, a)
        return r
    if is_num(a) and is_num(b):
        try:
            return const(a.args[0] ** b.args[0])
        except Exception:
            pass
    return mk('pow', a, b)


# ------------------------------------------------------------------- booleans

BOOLOPS = {'lt', 'le', 'eq', 'ne', 'not', 'and', 'or', 'in', 'is', 'truth',
           'isinst', 'exists', 'forall', 'exc', 'nonempty', 'isin'}


def _leaves_known(t):
    return t.op == 'const'


def distinct(a, b):
    """a and b certainly denote different values"""
    if a.op == 'const' and b.op == 'const':
        x, y = a.args[0], b.args[0]
        return not (x == y)
    d = None
    if numeric(a) and numeric(b):
        d = sub(a, b)
        if is_num(d):
            return d.args[0] != 0
    heads = ('const', 'tuple', 'list', 'func', 'ref', 'class', 'dict', 'ext')
    if a.op in heads and b.op in heads:
        if a.op != b.op:
            return not (a.op == 'ref' or b.op == 'ref') or \
                a.op == 'const' or b.op == 'const'
        if a.op in ('tuple', 'list'):
            if len(a.args) != len(b.args):
                return True
            return any(distinct(x, y) for x, y in zip(a.args, b.args))
        if a.op in ('func', 'class', 'ext'):
            return a is not b
    if a.op == 'set' and b.op == 'set' and a is not b:
        # an element of one certainly absent from the other
        for u, v in ((a, b), (b, a)):
            if any(all(distinct(x, y) for y in v.args) for x in u.args):
                return True
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        return o.op in heads or numeric_strict(o) or stringy(o) or \
            o.op in NOT_NONE
    return False


NOT_NONE = {'len', 'list', 'lcomp', 'floordiv', 'mod', 'poly', 'gkey', 'iv',
            'range', 'shape', 'array', 'index', 'frame', 'h5', 'inst',
            'groupby', 'rows', 'kcol', 'arange', 'namespace'}


def numeric_strict(t):
    return is_num(t) or t.op in ('poly', 'len', 'iv', 'floordiv', 'mod',
                                 'div', 'card')


def numeric(t):
    return t.op not in ('tuple', 'list', 'ref', 'func', 'class', 'concat',
                        'dict') and not (
        t.op == 'const' and not isinstance(t.args[0], (int, float)))


def eq(a, b):
    if a is b:
        return TRUE
    if distinct(a, b):
        return FALSE
    if a.op == 'ite' and b.op == 'const' and all(
            x.op == 'const' or distinct(x, b) for x in leaves(a)):
        return map_ite(a, lambda x: eq(x, b))
    if b.op == 'ite' and a.op == 'const':
        return eq(b, a)
    if numeric(a) and numeric(b) and (a.op == 'poly' or b.op == 'poly'):
        # canonical: difference with positive leading coefficient == 0
        d = sub(a, b)
        p = _topoly(d)
        lead = max(p.items(), key=lambda mc: _monokey(mc[0]))
        if lead[1] < 0:
            d = neg(d)
        if nonneg(d) and integral(d):
            return not_(lt(ZERO, d))
        return mk('eq', d, ZERO)
    for u, v in ((a, b), (b, a)):
        if v is ZERO and integral(u) and nonneg(u) and u.op != 'const':
            return not_(lt(ZERO, u))
    x, y = sorted((a, b), key=lambda t: (t.op == 'const', t.id))
    return mk('eq', x, y)


def ne(a, b):
    return not_(eq(a, b))


def _cmp(op, a, b):
    if numeric(a) and numeric(b):
        d = sub(a, b)
        if is_num(d):
            v = d.args[0]
            return const(v < 0 if op == 'lt' else v <= 0)
        if nonneg(neg(d)):       # b - a >= 0
            if op == 'le':
                return TRUE
        if positive(neg(d)):
            return TRUE
        if op == 'lt' and nonneg(d):
            return FALSE
        if op == 'le' and positive(d):
            return FALSE
    # integer normal form: 1 <= n  is  0 < n   for lengths
    if op == 'le' and is_num(a) and isinstance(a.args[0], int) and \
            integral(b):
        return _cmp('lt', const(a.args[0] - 1), b)
    if op == 'le' and is_num(b) and isinstance(b.args[0], int) and \
            integral(a):
        return _cmp('lt', a, const(b.args[0] + 1))
    # a length below one is zero
    if op == 'lt' and b is ONE and nonneg(a) and integral(a):
        return mk('not', mk('lt', ZERO, a))
    return mk(op, a, b)


def integral(t):
    if t.op == 'poly':
        return all(c.denominator == 1 and all(integral(x) for x, _ in m)
                   for m, c in t.args[0])
    return t.op in ('len', 'iv', 'card', 'floordiv', 'mod', 'count') or (
        t.op == 'const' and isinstance(t.args[0], int))


def nonneg(t):
    """structurally non negative (lengths, products and sums of lengths)"""
    for m, c in _topoly(t).items():
        if c < 0:
            return False
        for x, e in m:
            if e % 2 and x.op not in ('len', 'card', 'count', 'iv') and \
                    not (x.op == 'mod' and nonneg(x.args[1])):
                return False
            if x.op == 'iv' and not iv_nonneg(x):
                return False
    return True


def iv_nonneg(x):
    d = x.args[0]
    return d.op != 'range' or nonneg(d.args[0])


def positive(t):
    p = _topoly(t)
    return p.get((), 0) > 0 and nonneg(_frompoly(
        {m: c for m, c in p.items() if m != ()}))


def lt(a, b):
    return _cmp('lt', a, b)


def le(a, b):
    return _cmp('le', a, b)


def not_(t):
    if t.op == 'const':
        return const(not t.args[0])
    if t.op == 'not':
        return t.args[0]
    if t.op == 'lt':
        return _cmp('le', t.args[1], t.args[0])
    if t.op == 'le':
        return _cmp('lt', t.args[1], t.args[0])
    if t.op == 'and':
        return or_(*[not_(x) for x in t.args])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.args])
    if t.op == 'ite':
        return ite(t.args[0], not_(t.args[1]), not_(t.args[2]))
    return mk('not', t)


def and_(*xs):
    out = {}
    for x in xs:
        for y in (x.args if x.op == 'and' else (x,)):
            if y.op == 'const':
                if not y.args[0]:
                    return FALSE
                continue
            out[y.id] = y
    for y in list(out.values()):
        if y.op != 'or' and not_(y).id in out:
            return FALSE
    ys = [out[i] for i in sorted(out)]
    # unit propagation in disjunctions
    res = []
    for y in ys:
        if y.op == 'or':
            if any(z.id in out for z in y.args):
                continue
            zs = [z for z in y.args if not_(z).id not in out]
            if len(zs) != len(y.args):
                return and_(*[w for w in ys if w is not y] + [or_(*zs)])
        res.append(y)
    ys = res
    if not ys:
        return TRUE
    return ys[0] if len(ys) == 1 else mk('and', *ys)


def or_(*xs):
    out = {}
    for x in xs:
        for y in (x.args if x.op == 'or' else (x,)):
            if y.op == 'const':
                if y.args[0]:
                    return TRUE
                continue
            out[y.id] = y
    for y in list(out.values()):
        if y.op != 'and' and not_(y).id in out:
            return TRUE
    ys = [out[i] for i in sorted(out)]
    res = []
    for y in ys:
        if y.op == 'and':
            if any(z.id in out for z in y.args):
                continue
            zs = [z for z in y.args if not_(z).id not in out]
            if len(zs) != len(y.args):
                return or_(*[w for w in ys if w is not y] + [and_(*zs)])
        res.append(y)
    ys = res
    if not ys:
        return FALSE
    return ys[0] if len(ys) == 1 else mk('or', *ys)


def isbool(t):
    if t.op == 'ite':
        return isbool(t.args[1]) and isbool(t.args[2])
    return t.op in BOOLOPS or (t.op == 'const' and isinstance(t.args[0], bool))


def ite(c, a, b):
    if c.op == 'const':
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if isbool(c) and isbool(a) and isbool(b):
        if b is c:
            b = FALSE
        elif b is not_(c):
            b = TRUE
        if a is c:
            a = TRUE
        elif a is not_(c):
            a = FALSE
    if isbool(a) and isbool(b):
        if a is b:
            return a
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if a is TRUE:
            return or_(c, b)
        if b is TRUE:
            return or_(not_(c), a)
    # min / max
    if c.op in ('lt', 'le'):
        l, r = c.args
        if a is l and b is r:
            return minmax('min', l, r)
        if a is r and b is l:
            return minmax('max', l, r)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return mk('ite', c, a, b)


def minmax(op, *xs):
    out = {}
    for x in xs:
        for y in (x.args if x.op == op else (x,)):
            out[y.id] = y
    ys = [out[i] for i in sorted(out)]
    nums = [y for y in ys if is_num(y)]
    if len(nums) > 1:
        v = (min if op == 'min' else max)(n.args[0] for n in nums)
        ys = [y for y in ys if not is_num(y)] + [const(v)]
        ys.sort(key=lambda t: t.id)
    # drop dominated arguments
    keep = []
    for i, y in enumerate(ys):
        dom = False
        for j, z in enumerate(ys):
            if i == j or not (numeric(y) and numeric(z)):
                continue
            d = sub(y, z) if op == 'min' else sub(z, y)
            if nonneg(d) and not (nonneg(neg(d)) and i < j):
                dom = True
        if not dom:
            keep.append(y)
    ys = keep
    return ys[0] if len(ys) == 1 else mk(op, *ys)


def leaves(t):
    if t.op == 'ite':
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def map_ite(t, f):
    if t.op == 'ite':
        return ite(t.args[0], map_ite(t.args[1], f), map_ite(t.args[2], f))
    return f(t)


# ---------------------------------------------------------------- traversal

def children(t):
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(children(x))


def contains(t, u):
    return any(x is u for x in subterms(t))


def contains_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


REBUILD = {}


def kcol(key, col, pos):
    if key.op == 'tuple' and pos < len(key.args):
        return key.args[pos]
    return mk('kcol', key, col, pos)


REBUILD['kcol'] = kcol


def rebuild(op, args):
    f = REBUILD.get(op)
    return f(*args) if f else mk(op, *args)


for _n, _f in (('floordiv', floordiv), ('mod', mod), ('div', div),
               ('pow', power), ('eq', eq), ('lt', lt), ('le', le),
               ('not', not_), ('and', and_), ('or', or_), ('ite', ite),
               ('concat', concat),
               ('min', lambda *a: minmax('min', *a)),
               ('max', lambda *a: minmax('max', *a))):
    REBUILD[_n] = _f


def subst(t, m, memo=None):
    """m: {term id: term}"""
    if memo is None:
        memo = {}
    if not m:
        return t

    def go(x):
        if x.id in m:
            return m[x.id]
        if x.id in memo:
            return memo[x.id]
        if x.op == 'poly':
            r = ZERO
            for mono, c in x.args[0]:
                f = const(c)
                for a, e in mono:
                    f = mul(f, power(go(a), const(e)))
                r = add(r, f)
        else:
            ch = False
            args = []
            for a in x.args:
                if isinstance(a, T):
                    b = go(a)
                    ch = ch or b is not a
                    args.append(b)
                else:
                    args.append(a)
            r = rebuild(x.op, args) if ch else x
        memo[x.id] = r
        return r
    return go(t)


def rewrite(t, f, memo=None):
    """bottom-up rewriting: f(rebuilt term) -> term"""
    if memo is None:
        memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if x.op == 'poly':
            r = ZERO
            for mono, c in x.args[0]:
                g = const(c)
                for a, e in mono:
                    g = mul(g, power(go(a), const(e)))
                r = add(r, g)
        else:
            args = [go(a) if isinstance(a, T) else a for a in x.args]
            r = x
            if any(a is not b for a, b in zip(args, x.args)):
                r = rebuild(x.op, args)
        r = f(r)
        memo[x.id] = r
        return r
    return go(t)


def resolve(t, facts):
    """simplify t knowing the truth of the terms in facts {id: bool}"""
    if not facts:
        return t

    def f(x):
        if x.id in facts:
            return const(facts[x.id])
        if x.op == 'ite' and x.args[0].id in facts:
            return x.args[1] if facts[x.args[0].id] else x.args[2]
        return x
    return rewrite(t, f)


# ------------------------------------------------------------------ printing

INFIX = {'floordiv': '//', 'mod': '%', 'div': '/', 'pow': '**', 'eq': '==',
         'lt': '<', 'le': '<=', 'and': ' and ', 'or': ' or ', 'concat': '+',
         'in': ' in '}


def show(t, depth=9):
    if depth < 0:
        return '...'
    d = depth - 1
    if t.op == 'const':
        return repr(t.args[0])
    if t.op == 'sym':
        return str(t.args[0]) + ('' if len(t.args) == 1 else '(%s)' % ','.join(
            show(a, d) if isinstance(a, T) else str(a) for a in t.args[1:]))
    if t.op == 'poly':
        s = []
        for m, c in t.args[0]:
            fs = [show(a, d) + ('' if e == 1 else '**%d' % e) for a, e in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            s.append('*'.join(fs))
        return '(' + ' + '.join(s) + ')'
    if t.op == 'inst':
        return '<%s>' % str(t.args[0]).split(':')[-1]
    if t.op == 'call':
        return '%s(%s)' % (t.args[0].split(':')[-1], ', '.join(
            show(a.args[1], d) for a in t.args[1:]))
    if t.op == 'filtered':
        return 'F(%s)' % show(t.args[1], d)
    if t.op == 'keep':
        return 'keep%s(%s)' % (t.args[0], show(t.args[3], d))
    if t.op == 'reg':
        return '%s(%s)' % (t.args[1], show(t.args[-1], d))
    if t.op == 'rows':
        return '{%s | %s}' % (show(t.args[0], d), ','.join(
            '%s=%s' % (show(a, d), show(b, d)) for a, b in zip(
                t.args[1].args, t.args[2].args)) if t.args[1].op == 'tuple'
            and t.args[2].op == 'tuple' else show(t.args[2], d))
    if t.op == 'truth':
        return '?' + show(t.args[0], d)
    if t.op == 'mcall':
        return '%s.%s(%s)' % (show(t.args[0], d), t.args[1], ', '.join(
            show(a, d) if isinstance(a, T) else '#%s' % a
            for a in t.args[2:]))
    if t.op == 'gkey':
        return 'key' if d < 0 else 'key:%s' % ','.join(
            x.args[0] if x.op == 'const' else show(x, 1) for x in
            t.args[0].args[1].args)
    if t.op == 'kcol':
        return '%s.%s' % (show(t.args[0], d), t.args[1])
    if t.op in INFIX:
        return '(' + INFIX[t.op].join(show(a, d) for a in t.args) + ')'
    if t.op == 'getitem':
        return '%s[%s]' % (show(t.args[0], d), show(t.args[1], d))
    if t.op == 'attr':
        return '%s.%s' % (show(t.args[0], d), t.args[1])
    if t.op == 'slice':
        return ':'.join('' if a is NONE else show(a, d) for a in t.args)
    if t.op in ('tuple',):
        return '(' + ', '.join(show(a, d) for a in t.args) + ')'
    if t.op == 'list':
        return '[' + ', '.join(show(a, d) for a in t.args) + ']'
    if t.op == 'ite':
        return '(%s if %s else %s)' % (show(t.args[1], d), show(t.args[0], d),
                                       show(t.args[2], d))
    return '%s(%s)' % (t.op, ', '.join(
        show(a, d) if isinstance(a, T) else str(a) for a in t.args))
