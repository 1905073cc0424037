"""Meaning of the library vocabulary (builtins, numpy, pandas, h5py, os ...)
in terms of canonical value-graph terms.

Representation changes that do not alter the values (dtype casts, copies,
list/array/Index conversions, column-vector reshapes) are transparent; the
casts themselves are logged as events so that width rules can see them.
"""
from .terms import *
from . import terms as tm

EXT_ALIAS = {
    'np': 'numpy', 'pd': 'pandas',
}

CANON = {'collections.OrderedDict': 'dict',
         
    'numpy.asarray': 'numpy.array', 'numpy.asanyarray': 'numpy.array',
    'numpy.ascontiguousarray': 'numpy.array', 'numpy.copy': 'numpy.array',
    'numpy.asfortranarray': 'numpy.array', 'numpy.float': 'builtins.float',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'numpy.product': 'numpy.prod', 'numpy.remainder': 'numpy.mod',
    'numpy.true_divide': 'numpy.divide', 'numpy.absolute': 'numpy.abs',
    'numpy.row_stack': 'numpy.vstack', 'numpy.bool': 'builtins.bool',
    'numpy.Inf': 'numpy.inf', 'numpy.infty': 'numpy.inf',
    'os.unlink': 'os.remove', 'math.inf': 'numpy.inf',
    'six.moves.range': 'range', 'six.moves.zip': 'zip',
    'six.moves.map': 'map', 'six.moves.filter': 'filter',
    'itertools.izip': 'zip', 'six.moves.xrange': 'range', 'xrange': 'range',
    'past.builtins.xrange': 'range', 'io.open': 'open',
    'numpy.lib.column_stack': 'numpy.column_stack',
    'builtins.open': 'open', 'codecs.open': 'open',
}


def canon_ext(name):
    head, _, rest = name.partition('.')
    head = EXT_ALIAS.get(head, head)
    name = head + ('.' + rest if rest else '')
    return CANON.get(name, name)


ELEMENTWISE = {'poly', 'floordiv', 'mod', 'div', 'pow', 'eq', 'lt', 'le',
               'not', 'and', 'or', 'min', 'max', 'arange', 'astype', 'ite'}
ARRAYISH = {'arange', 'cols', 'empty', 'zeros', 'ones', 'np', 'rows', 'index',
            'h5', 'upd', 'fill', 'T', 'colvec', 'tile', 'array', 'isin', 'concat_rows',
            'setdiff', 'setinter', 'setunion', 'nonzero', 'argsort', 'unique',
            'reg', 'keep', 'vec', 'sample'}


def arrayish(t):
    if t.op in ARRAYISH:
        return True
    if t.op == 'getitem':
        i = t.args[1]
        return i.op == 'slice' or arrayish(i)
    if t.op in ELEMENTWISE:
        return any(arrayish(x) for x in children(t))
    return False


def length(t):
    op = t.op
    if op in ('tuple', 'list', 'set'):
        return const(len(t.args))
    if op == 'const' and isinstance(t.args[0], (str, tuple)):
        return const(len(t.args[0]))
    if op == 'range':
        lo, hi, st = t.args
        if st is ONE:
            if is_num(lo) and is_num(hi):
                return const(max(0, hi.args[0] - lo.args[0]))
            return sub(hi, lo)
        if is_num(lo) and is_num(hi) and is_num(st):
            return const(len(range(lo.args[0], hi.args[0], st.args[0])))
        return mk('len', t)
    if op == 'arange':
        return t.args[0]
    if op in ('empty', 'zeros', 'ones'):
        s = t.args[0]
        return s.args[0] if s.op == 'tuple' else s
    if op == 'cols':
        return length(t.args[0])
    if op == 'lcomp':
        return count(t.args[0], t.args[1])
    if op == 'lcat':
        r = ZERO
        for p in t.args:
            if p.op == 'li':
                r = add(r, ite(p.args[0], ONE, ZERO))
            elif p.op == 'lx':
                r = add(r, ite(p.args[0], length(p.args[1]), ZERO))
            else:
                r = add(r, count(p.args[0], p.args[1]))
        return r
    if op == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if op == 'repeat':
        return mul(length(t.args[0]), t.args[1])
    if op in ('groups', 'gsize'):
        return mk('len', t.args[0])
    if op == 'items':
        return length(t.args[0])
    if op == 'enumerate':
        return length(t.args[0])
    if op in ('zip',):
        return minmax('min', *[length(a) for a in t.args])
    if op in ('upd', 'fill', 'colvec'):
        return length(t.args[0])
    if op == 'argsort':
        return length(t.args[0])
    if op == 'vec':
        return const(len(t.args))
    if op == 'sample':
        return t.args[0]
    if op == 'reg':
        return length(t.args[-1])
    if op == 'T' and t.args[0].op == 'list' and t.args[0].args:
        return length(t.args[0].args[0])
    if op == 'getitem':
        x, i = t.args
        if i.op == 'arange' or (arrayish(i) and not isbool(i)
                                and i.op != 'slice'):
            return length(i)
        if i.op == 'slice':
            lo, hi, st = i.args
            if st is NONE and (hi is NONE) and is_num(lo) and \
                    lo.args[0] >= 0 and x.op in ('arange',):
                return sub(length(x), lo)
    if op in ELEMENTWISE and op != 'ite':
        ls = {length(x).id: length(x) for x in children(t) if arrayish(x)}
        if len(ls) == 1:
            return list(ls.values())[0]
        return mk('len', t)
    if op == 'gframe':
        return mk('len', group_rows(t.args[0], t.args[1]))
    if op == 'index':
        return length(t.args[0]) if t.args[0].op != 'sym' else \
            mk('len', t.args[0])
    if op == 'reindexed':
        return length(t.args[0])
    if op == 'dict':
        r = ZERO
        for e in t.args:
            r = add(r, count(e.args[0], e.args[1]))
        return r
    return mk('len', t)


def count(domsT, guard):
    """number of elements of a comprehension"""
    ds = domsT.args
    if guard is TRUE:
        r = ONE
        ivs = [d.args[0] for d in ds]
        ok = True
        for d in ds:
            n = length(d.args[1]) if d.args[1].op != 'while' else None
            if n is None or any(contains(n, iv) for iv in ivs):
                ok = False
                break
            r = mul(r, n)
        if ok:
            return r
    return mk('count', domsT, guard)


# ------------------------------------------------------------------- indexing

FULL = mk('slice', NONE, NONE, NONE)


def is_full(i):
    return i is FULL or i is ELLIPSIS or (
        i.op == 'slice' and i.args[0] in (NONE, ZERO) and
        i.args[1] is NONE and i.args[2] in (NONE, ONE)) or (
        i.op == 'tuple' and i.args and all(is_full(x) for x in i.args))


def norm_slice(i):
    if i.op == 'slice':
        lo, hi, st = i.args
        if lo is ZERO and not (is_num(st) and st.args[0] < 0):
            lo = NONE
        if st is ONE:
            st = NONE
        return mk('slice', lo, hi, st)
    return i


def gi(x, i):
    i = norm_slice(i)
    if x.op == 'ite':
        return ite(x.args[0], gi(x.args[1], i), gi(x.args[2], i))
    if is_full(i) and x.op not in ('attr',):
        return x
    if x.op in ('tuple', 'list', 'vec'):
        if is_num(i) and isinstance(i.args[0], int) and \
                -len(x.args) <= i.args[0] < len(x.args):
            return x.args[i.args[0]]
        if i.op == 'slice' and all(a.op == 'const' for a in i.args):
            return mk(x.op, *x.args[slice(*[a.args[0] for a in i.args])])
    if x.op == 'const' and isinstance(x.args[0], str):
        try:
            if is_num(i):
                return const(x.args[0][i.args[0]])
            if i.op == 'slice' and all(a.op == 'const' for a in i.args):
                return const(x.args[0][slice(*[a.args[0] for a in i.args])])
        except Exception:
            pass
    if x.op == 'shape':
        if i is ZERO:
            return length(x.args[0])
        b = x.args[0]
        if i is ONE and b.op == 'cols':
            return const(len(b.args))
        if b.op in ('empty', 'zeros', 'ones') and b.args[0].op == 'tuple':
            return gi(b.args[0], i)
        return mk('dim', b, i)
    if x.op == 'attr' and x.args[1] in ('iloc', 'iat'):
        if i.op == 'tuple' and is_full(i.args[1]):
            i = i.args[0]
        return mk('iloc', x.args[0], i)
    if x.op == 'attr' and x.args[1] in ('loc', 'at'):
        if i.op == 'tuple' and len(i.args) == 2 and is_full(i.args[1]):
            i = i.args[0]
        return mk('loc', x.args[0], i)
    if x.op == 'groups':
        return group_rows(x.args[0], i)
    if x.op == 'gsize':
        return mk('len', group_rows(x.args[0], i))
    if x.op == 'gkey':
        cols = key_cols(x.args[0])
        if cols is not None and len(cols) > 1:
            if is_num(i) and -len(cols) <= i.args[0] < len(cols):
                return kcol(x, cols[i.args[0]], i.args[0] % len(cols))
            if i.op == 'slice' and all(a.op == 'const' for a in i.args):
                ps = range(len(cols))[slice(*[a.args[0] for a in i.args])]
                return tup(*[kcol(x, cols[p], p) for p in ps])
    if x.op == 'cols':
        if i.op == 'tuple' and len(i.args) == 2:
            a, b = i.args
            if is_num(b) and -len(x.args) <= b.args[0] < len(x.args):
                return gi(x.args[b.args[0]], a)
            if is_full(b):
                return gi(x, a)
        elif i.op != 'tuple':
            if i is FULL:
                return x
            if arrayish(i) or i.op == 'slice' or isbool(i) or \
                    i.op in ('sym', 'call', 'mcall', 'xcall', 'fresh'):
                return mk('cols', *[gi(a, i) for a in x.args])
    if i.op == 'tuple' and len(i.args) == 2 and i.args[1] is NONE:
        return mk('colvec', gi(x, i.args[0]))
    if x.op == 'colvec':
        if i.op == 'tuple' and len(i.args) == 2 and i.args[1] is ZERO:
            return gi(x.args[0], i.args[0])
        if i.op != 'tuple':
            return mk('colvec', gi(x.args[0], i))
    if i.op == 'tuple' and len(i.args) == 2 and is_full(i.args[1]) and \
            not is_full(i.args[0]):
        return gi(x, i.args[0])
    if x.op == 'arange':
        if not (i.op in ('slice', 'tuple')) and not isbool(i):
            return i
    if x.op == 'range' and i.op not in ('slice', 'tuple'):
        if is_num(i) and i.args[0] < 0:
            return add(x.args[1], mul(i, x.args[2]))
        return add(x.args[0], mul(i, x.args[2]))
    if x.op == 'lcomp' and i.op not in ('slice', 'tuple'):
        ds, g, v = x.args
        if g is TRUE and len(ds.args) == 1:
            iv, d = ds.args[0].args
            if d.op == 'range' and d.args[2] is ONE and not (
                    is_num(i) and i.args[0] < 0):
                return subst(v, {iv.id: add(d.args[0], i)})
    if x.op in ('h5file', 'h5'):
        if i.op == 'const' and isinstance(i.args[0], str) or stringy(i):
            return h5path(x, i)
    if x.op == 'upd':
        b, j, v = x.args
        if j is i:
            return v
        if distinct(i, j):
            return gi(b, i)
    if x.op == 'dict':
        for e in reversed(x.args):
            if e.args[2] is i:
                return e.args[3]
    if x.op == 'zip' and i.op not in ('slice', 'tuple'):
        return tup(*[gi(a, i) for a in x.args])
    if x.op == 'items' and i.op not in ('slice', 'tuple'):
        return mk('getitem', x, i)
    return mk('getitem', x, i)


def h5path(x, i):
    if x.op == 'h5file':
        f, p = x, const('')
    else:
        f, p = x.args
    j = concat(p, const('/'), i)
    # collapse duplicate and leading/trailing slashes between parts
    parts = []
    for q in (j.args if j.op == 'concat' else (j,)):
        parts.append(q)
    out = []
    for q in parts:
        if q.op == 'const':
            s = q.args[0]
            while '//' in s:
                s = s.replace('//', '/')
            q = const(s)
        out.append(q)
    if out and out[-1].op == 'const' and out[-1].args[0].endswith('/') and \
            len(out[-1].args[0]) > 1:
        out[-1] = const(out[-1].args[0].rstrip('/'))
    j = concat(*out)
    if j.op == 'const' and not j.args[0].startswith('/'):
        j = const('/' + j.args[0])
    return mk('h5', f, j)


def key_cols(gb):
    """concrete column names of a groupby, or None"""
    c = gb.args[1]
    if c.op in ('tuple', 'list') and all(x.op == 'const' for x in c.args):
        return [x.args[0] for x in c.args]
    if c.op == 'const' and isinstance(c.args[0], str):
        return [c.args[0]]
    return None


def group_rows(gb, key):
    """index labels of the rows of a group"""
    frame = gb.args[0]
    cols = key_cols(gb)
    if cols is not None:
        if len(cols) == 1:
            # pandas < 2 iterates scalar keys for a single column
            vals = [key.args[0] if key.op == 'tuple' and len(key.args) == 1
                    else key]
        elif key.op == 'tuple' and len(key.args) == len(cols):
            vals = list(key.args)
        elif key.op == 'gkey' and key_cols(key.args[0]) and \
                len(key_cols(key.args[0])) == len(cols):
            kc = key_cols(key.args[0])
            vals = [kcol(key, c, n) for n, c in enumerate(kc)]
        else:
            return mk('rows', frame, gb.args[1], key)
        return mk('rows', frame, tup(*[const(c) for c in cols]), tup(*vals))
    return mk('rows', frame, gb.args[1], key)


def group_frame(gb, key):
    return mk('gframe', gb, key)


def enter_value(interp, cm, st):
    return cm


def is_h5(t):
    return t.op in ('h5', 'h5file')


def upd(base, idx, val):
    return mk('upd', base, norm_slice(idx), val)


def to_str(t):
    if t.op == 'const':
        return const(str(t.args[0]))
    if stringy(t):
        return t
    return mk('str', t)


# ------------------------------------------------------------------ operators

def binop(op, a, b):
    if op == 'Sub' and a.op in SETOPS and b.op in SETOPS:
        return setterm('setdiff', a, b)
    if a.op == 'vec' or b.op == 'vec':
        n = len(a.args if a.op == 'vec' else b.args)
        if (a.op != 'vec' or len(a.args) == n) and \
                (b.op != 'vec' or len(b.args) == n):
            return mk('vec', *[binop(op, a.args[i] if a.op == 'vec' else a,
                                     b.args[i] if b.op == 'vec' else b)
                               for i in range(n)])
    if op == 'Add':
        return add(a, b)
    if op == 'Sub':
        return sub(a, b)
    if op == 'Mult':
        if isbool(a) and isbool(b) and a is not TRUE and b is not TRUE and \
                a is not FALSE and b is not FALSE:
            return and_(a, b)        # product of boolean masks
        if a is TRUE and isbool(b):
            return b
        if b is TRUE and isbool(a):
            return a
        return mul(a, b)
    if op == 'Div':
        return div(a, b)
    if op == 'FloorDiv':
        return floordiv(a, b)
    if op == 'Mod':
        if a.op == 'const' and isinstance(a.args[0], str):
            return fmt_percent(a, b)
        return mod(a, b)
    if op == 'Pow':
        return power(a, b)
    if op == 'BitAnd':
        if isbool(a) or isbool(b):
            return and_(a, b)
        if a.op in SETOPS or b.op in SETOPS:
            return setterm('setinter', a, b)
        return mk('bitand', a, b)
    if op == 'BitOr':
        if isbool(a) or isbool(b):
            return or_(a, b)
        if a.op in SETOPS or b.op in SETOPS:
            return setterm('setunion', a, b)
        return mk('bitor', a, b)
    if op == 'BitXor' and (isbool(a) and isbool(b)):
        return or_(and_(a, not_(b)), and_(not_(a), b))
    return mk('bin' + op, a, b)


def fmt_percent(f, x):
    s = f.args[0]
    vals = list(x.args) if x.op == 'tuple' else [x]
    parts, i, cur = [], 0, ''
    k = 0
    while i < len(s):
        if s[i] == '%' and i + 1 < len(s):
            if s[i + 1] == '%':
                cur += '%'
                i += 2
                continue
            j = i + 1
            while j < len(s) and not s[j].isalpha():
                j += 1
            if j >= len(s) or k >= len(vals):
                return mk('format', f, x)
            parts.append(const(cur))
            cur = ''
            parts.append(to_str(vals[k]) if s[i + 1] in 'sdi' and j == i + 1
                         else mk('str', vals[k], s[i:j + 1]))
            k += 1
            i = j + 1
        else:
            cur += s[i]
            i += 1
    parts.append(const(cur))
    return concat(*parts)


def fmt_format(f, args, kw):
    if f.op != 'const' or not isinstance(f.args[0], str):
        return None
    import string
    parts, k = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(f.args[0]):
            parts.append(const(lit))
            if field is None:
                continue
            if field == '':
                v = args[k]
                k += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return None
            parts.append(mk('str', v, spec) if spec else to_str(v))
    except Exception:
        return None
    return concat(*parts)


def deepcopy(interp, v, st, memo=None):
    memo = {} if memo is None else memo
    if v.id in memo:
        return memo[v.id]
    o = interp.obj(st, v)
    if o is None or o.kind not in ('list', 'set', 'dict', 'inst'):
        if v.op in ('tuple', 'list', 'ite') and any(
                x.op == 'ref' for x in v.args):
            return mk(v.op, *[deepcopy(interp, x, st, memo) for x in v.args])
        return v
    r = memo[v.id] = interp.alloc(st, type(o)(o.kind, o.data, o.cls))

    def cp(x):
        return deepcopy(interp, x, st, memo) if isinstance(x, tm.T) else x
    if o.kind == 'inst':
        data = {k: cp(x) for k, x in o.data.items()}
    else:
        data = tuple(tuple(e[:-1]) + (cp(e[-1]),) for e in o.data)
    st.heap[r.args[0]] = type(o)(o.kind, data, o.cls)
    return r


# ------------------------------------------------------------------- set ops

SETOPS = {'setdiff', 'setinter', 'setunion', 'setof', 'rows', 'index'}


def unset(t):
    """row-set view of a term: set() / list() / array() are transparent"""
    while t.op == 'setof':
        t = t.args[0]
    return t


def setterm(op, a, b):
    a, b = unset(a), unset(b)
    if op in ('setinter', 'setunion'):
        if a is b:
            return a
        a, b = sorted((a, b), key=lambda t: t.id)
    return mk(op, a, b)


def ground(x):
    return x.op == 'const' or x.op == 'tuple' and all(
        ground(y) for y in x.args)


def set_op(interp, name, a, others, st):
    ca = interp.concrete_items(a, st)
    op = {'difference': 'setdiff', 'intersection': 'setinter',
          'union': 'setunion', 'symmetric_difference': 'setxor'}[name]
    r = a
    for b in others:
        ca = interp.concrete_items(r, st)
        cb = interp.concrete_items(b, st)
        if ca is not None and cb is not None and all(map(ground, ca + cb)):
            ids_b = {x.id for x in cb}
            ids_a = {x.id for x in ca}
            if op == 'setdiff':
                v = [x for x in ca if x.id not in ids_b]
            elif op == 'setinter':
                v = [x for x in ca if x.id in ids_b]
            elif op == 'setunion':
                v = ca + [x for x in cb if x.id not in ids_a]
            else:
                v = [x for x in ca if x.id not in ids_b] + \
                    [x for x in cb if x.id not in ids_a]
            r = interp.new_set(st, v)
        else:
            r = setterm(op, interp.snap(r, st), interp.snap(b, st))
    return r


# ------------------------------------------------------------------ attributes

def posn(interp, v, st, kind):
    """the values of v by position: column labels are dropped. The
    distinction is kept only where a rule asks for it"""
    if interp.positions and interp.obj(st, v) is None and v.op in (
            'getitem', 'sym', 'loc', 'iloc', 'filtered'):
        return mk('posn', v, kind)
    return v


TRANSPARENT_ATTR = {'values', 'real', 'flat'}


def attr(interp, v, name, st):
    v2 = v
    if name == 'shape':
        return mk('shape', interp.snap(v2, st))
    if name == 'T':
        if v.op == 'list' and v.args and all(arrayish(x) for x in v.args):
            return mk('cols', *v.args)
        if v.op == 'cols':
            return mk('list', *v.args)
        return v.args[0] if v.op == 'T' else mk('T', v)
    if name in TRANSPARENT_ATTR:
        return posn(interp, v, st, 'array')
    if name == 'index':
        if v.op == 'gframe':
            return group_rows(v.args[0], v.args[1])
        if v.op == 'getitem' and (isbool(v.args[1])):
            return mk('getitem', mk('index', v.args[0]), v.args[1])
        if v.op in ('sym', 'reindexed', 'getitem', 'fresh', 'ite', 'attr',
                    'call', 'mcall', 'xcall', 'iloc', 'loc', 'filtered', 'upd'):
            return mk('index', v)
    if name == 'groups' and v.op == 'groupby':
        return mk('groups', v)
    if name == 'size' and v.op not in ('groupby',):
        return mk('attr', v, 'size')
    return mk('attr', v, name)


def val_of(t):
    """value of a 'bound attribute' used as data: size means product of dims"""
    return t


# -------------------------------------------------------------------- methods

def _log(interp, kind, name, recv, args, kw, st, node):
    return interp.event(kind, name, interp.snap(recv, st)
                        if recv is not None else None,
                        [interp.snap(a, st) for a in args],
                        {k: interp.snap(v, st) for k, v in kw.items()},
                        st, node)


def kwterm(kw):
    return mk('kw', *[mk('kwarg', k, v) for k, v in sorted(kw.items())])


PURE_TRANSPARENT = {'copy', 'tolist', 'to_numpy', 'ravel', 'flatten',
                    'squeeze', 'view', '__copy__', 'toarray', 'to_list'}


def method(interp, recv, name, args, kw, st, node):
    recv = interp.simp(recv, st)
    if recv.op == 'ite':
        return interp.call(ite(recv.args[0], mk('attr', recv.args[1], name),
                               mk('attr', recv.args[2], name)), args, kw, st,
                           node)
    o = interp.obj(st, recv)
    if o is not None and o.kind in ('list', 'set', 'dict', 'genexp'):
        r = container_method(interp, recv, o, name, args, kw, st, node)
        if r is not None:
            return r
    if recv.op in ('set', 'setof', 'setdiff', 'setinter', 'setunion', 'rows',
                   'index') or (o is not None and o.kind == 'set'):
        if name in ('difference', 'intersection', 'union',
                    'symmetric_difference'):
            return set_op(interp, name, recv, args, st)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        a, b = recv, args[0]
        ca, cb = interp.concrete_items(a, st), interp.concrete_items(b, st)
        if ca is not None and cb is not None and all(map(ground, ca + cb)):
            sa, sb = {x.id for x in ca}, {x.id for x in cb}
            return const({'issubset': sa <= sb, 'issuperset': sa >= sb,
                          'isdisjoint': not (sa & sb)}[name])
        a, b = interp.snap(a, st), interp.snap(b, st)
        if name == 'issuperset':
            a, b = b, a
        return mk('subset' if name != 'isdisjoint' else 'disjoint',
                  unset(a), unset(b))
    sargs = [interp.snap(a, st) for a in args]
    skw = {k: interp.snap(v, st) for k, v in kw.items()}
    # ---- strings
    if recv.op == 'const' and isinstance(recv.args[0], (str, bytes)) or \
            stringy(recv):
        r = str_method(interp, recv, name, sargs, skw, st)
        if r is not None:
            return r
    if recv.op == 'tuple':
        if name == 'index' and sargs and sargs[0].op == 'const':
            for i, x in enumerate(recv.args):
                if x is sargs[0]:
                    return const(i)
        if name == 'count':
            return mk('mcall', recv, name, *sargs)
    # ---- pandas / numpy
    if name == 'groupby':
        cols = sargs[0] if sargs else skw.get('by', NONE)
        e = _log(interp, 'groupby', 'groupby', recv, args, kw, st, node)
        if cols.op == 'list' and all(c.op == 'const' for c in cols.args):
            cols = tup(*cols.args)
        elif cols.op == 'const':
            cols = tup(cols)
        srt = skw.get('sort', TRUE)
        e.result = mk('groupby', recv, cols) if srt is not FALSE else \
            mk('groupby', recv, cols, srt)
        return e.result
    if recv.op == 'groupby' and name == 'size':
        return mk('gsize', recv)
    if recv.op == 'groupby' and name == 'get_group':
        return mk('gframe', recv, sargs[0])
    if name in ('items', 'iteritems', 'viewitems') and not args:
        return mk('items', recv)
    if name in ('keys', 'iterkeys') and not args:
        return mk('keys', recv)
    if name in ('values', 'itervalues') and not args:
        return mk('vals', recv)
    if name == 'reset_index':
        _log(interp, 'method', name, recv, args, kw, st, node)
        if skw.get('drop') is TRUE:
            return mk('reindexed', recv)
        return mk('reindexed', recv, kwterm(skw))
    if name == 'astype':
        e = _log(interp, 'cast', 'astype', recv, args, kw, st, node)
        if interp.exact:
            return mk('np', 'astype', recv,
                      sargs[0] if sargs else skw.get('dtype', NONE))
        t = half(sargs[0] if sargs else skw.get('dtype'))
        if t:
            return mk('np', t, recv)
        return recv
    if name in PURE_TRANSPARENT:
        _log(interp, 'copy', name, recv, args, kw, st, node)
        if interp.exact and name in ('ravel', 'flatten', 'squeeze', 'view'):
            return mk('np', name, recv, *sargs)
        if name in ('tolist', 'to_list', 'to_numpy'):
            return posn(interp, recv, st,
                        'array' if name == 'to_numpy' else 'list')
        return recv
    if name == 'reshape':
        return reshape(recv, sargs[0] if len(sargs) == 1 else tup(*sargs),
                       interp.exact)
    if name in ('transpose',) and not args:
        return attr(interp, recv, 'T', st)
    if name in ('sum', 'max', 'min', 'prod', 'mean', 'argsort', 'any', 'all',
                'cumsum', 'nonzero', 'dot', 'std', 'argmin', 'argmax',
                'unique') and recv.op not in ('inst', 'module'):
        return npcall(interp, 'numpy.' + name, [recv] + sargs, skw, st, node)
    if name == 'isin':
        return mk('isin', recv, unset(sargs[0]))
    if name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and len(sargs) == 1:
        return interp.compare({'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt',
                               'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}[name],
                              recv, sargs[0], st)
    if name in ('sort', 'fill', 'resize', 'put', 'partition', 'itemset'):
        e = _log(interp, 'mutate', name, recv, args, kw, st, node)
        if recv.op not in ('h5', 'h5file'):
            new = mk('np', 'sort', recv) if name == 'sort' else \
                mk('mcall', recv, name, *sargs)
            rebind(interp, node, new, st)
        return NONE
    # ---- opaque instances: bind by signature when the class is known
    e = _log(interp, 'method', name, recv, args, kw, st, node)
    if recv.op == 'inst' and ':' in str(recv.args[0]):
        m = interp.find_method(recv.args[0], name)
        if m is None:
            interp.event('undefined', '%s.%s' % (recv.args[0], name), recv,
                         (), {}, st, node)
        elif not isinstance(m, tuple):
            e.bound = interp.bind_terms(m, [recv] + list(e.args), e.kwargs,
                                        st)
            if e.bound is None:
                interp.event('badcall', m.qual, recv, e.args, e.kwargs, st,
                             node)
        interp.uniq += 1
        # in indexed mode the result of a call in a loop is one per turn
        e.result = mk('mcall', recv, name, interp.uniq, *(
            [v for l in e.loops for v, d in l.doms] if interp.indexed
            else []))
        return e.result
    r = mk('mcall', recv, name, *(list(e.args) + ([kwterm(e.kwargs)]
                                                  if e.kwargs else [])))
    e.result = r
    return r


def rebind(interp, node, new, st):
    """x.sort() rebinding of the receiver when it is a plain variable"""
    import ast
    f = getattr(node, 'func', None)
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        fr = interp.cur_frame
        if fr is not None and interp.getvar_raw(st, fr, f.value.id) \
                is not None:
            interp.setvar(st, fr, f.value.id, new)


def str_method(interp, recv, name, args, kw, st):
    conc = recv.op == 'const' and all(a.op == 'const' for a in args) and \
        not kw
    if name == 'format':
        return fmt_format(recv, args, kw) or mk('format', recv, tup(*args))
    if name == 'join' and args:
        a = args[0]
        if a.op in ('list', 'tuple'):
            out = []
            for i, x in enumerate(a.args):
                if i:
                    out.append(recv)
                out.append(x)
            return concat(*out)
        return mk('join', recv, a)
    if conc and name in ('split', 'rsplit', 'partition', 'rpartition',
                         'strip', 'rstrip', 'lstrip', 'lower', 'upper',
                         'startswith', 'endswith', 'replace', 'find',
                         'rfind', 'index', 'count', 'isdigit', 'title',
                         'splitlines', 'encode', 'decode', 'isidentifier'):
        try:
            v = getattr(recv.args[0], name)(*[a.args[0] for a in args])
        except Exception:
            return None
        if isinstance(v, list):
            return interp.new_list(st, [const(x) for x in v])
        if isinstance(v, tuple):
            return tup(*[const(x) for x in v])
        return const(v)
    if name in ('encode', 'decode'):
        return recv
    return None


def reshape(x, shape, exact=False):
    """column-vector / flat reshapes keep the values"""
    x = x.args[0] if x.op == 'colvec' else x
    if shape.op == 'list':
        shape = tup(*shape.args)
    if exact:
        return mk('reshape', x, shape)
    if shape.op == 'tuple':
        dims = [d for d in shape.args if d is not ONE]
        if len(dims) <= 1:
            return x
    elif shape.op == 'const' or numeric_strict(shape):
        return x
    if shape.op == 'tuple' and len(shape.args) == 2 and \
            shape.args[0] is length(x) and shape.args[1] is ONE:
        return x
    return mk('reshape', x, shape)


def container_method(interp, recv, o, name, args, kw, st, node):
    if o.kind == 'genexp':
        return None
    if o.kind == 'list':
        if name == 'append':
            interp.append(recv, args[0], st)
            return NONE
        if name == 'extend':
            interp.extend(recv, args[0], st)
            return NONE
        if name == 'insert':
            segs = list(o.data)
            if is_num(args[0]) and all(s[0] == 'i' for s in segs) or \
                    args[0] is ZERO:
                segs.insert(args[0].args[0], ('i', TRUE, args[1]))
                st.heap[recv.args[0]] = type(o)('list', tuple(segs))
            else:
                st.heap[recv.args[0]] = type(o)('list', (
                    ('x', TRUE, interp.fresh('insert')),))
            return NONE
        if name == 'pop':
            segs = list(o.data)
            i = args[0] if args else const(-1)
            if is_num(i) and all(s[0] == 'i' and s[1] is TRUE for s in segs) \
                    and -len(segs) <= i.args[0] < len(segs):
                v = segs.pop(i.args[0])
                st.heap[recv.args[0]] = type(o)('list', tuple(segs))
                return v[2]
            t = interp.snap(recv, st)
            st.heap[recv.args[0]] = type(o)('list', (
                ('x', TRUE, mk('popped', t, i)),))
            return gi(t, i)
        if name in ('sort', 'reverse'):
            items = interp.concrete_items(recv, st)
            rev = kw.get('reverse', FALSE)
            if name == 'sort' and items is not None and \
                    set(kw) <= {'reverse'} and rev.op == 'const' and all(
                        x.op == 'const' for x in items):
                try:
                    items = sorted(items, key=lambda t: t.args[0],
                                   reverse=bool(rev.args[0]))
                    st.heap[recv.args[0]] = type(o)('list', tuple(
                        ('i', TRUE, x) for x in items))
                    return NONE
                except TypeError:
                    pass
            t = interp.snap(recv, st)
            st.heap[recv.args[0]] = type(o)('list', ((
                'x', TRUE, mk('np', 'sort' if name == 'sort' else
                              'reverse', t)),))
            return NONE
        if name == 'index':
            items = interp.concrete_items(recv, st)
            if items is not None:
                for i, x in enumerate(items):
                    if x is args[0]:
                        return const(i)
            return mk('indexof', interp.snap(recv, st),
                      interp.snap(args[0], st))
        if name == 'count':
            items = interp.concrete_items(recv, st)
            if items is not None and all(x.op == 'const' for x in items):
                return const(sum(1 for x in items if x is args[0]))
            return mk('countof', interp.snap(recv, st),
                      interp.snap(args[0], st))
        if name == 'remove':
            items = interp.concrete_items(recv, st)
            if items is not None and args[0] in items:
                items.remove(args[0])
                st.heap[recv.args[0]] = type(o)('list', tuple(
                    ('i', TRUE, x) for x in items))
                return NONE
            st.heap[recv.args[0]] = type(o)('list', (
                ('x', TRUE, interp.fresh('remove')),))
            return NONE
        if name == 'copy':
            return interp.alloc(st, type(o)('list', o.data))
    if o.kind == 'set':
        if name == 'add':
            interp.append(recv, args[0], st)
            return NONE
        if name == 'update':
            for a in args:
                interp.extend(recv, a, st)
            return NONE
        if name in ('discard', 'remove'):
            items = interp.concrete_items(recv, st)
            if items is not None:
                st.heap[recv.args[0]] = type(o)('set', tuple(
                    ('i', TRUE, x) for x in items if x is not args[0]))
                return NONE
            st.heap[recv.args[0]] = type(o)('set', ((
                'x', TRUE, setterm('setdiff', interp.snap(recv, st),
                                   mk('set', args[0]))),))
            return NONE
        if name == 'copy':
            return interp.alloc(st, type(o)('set', o.data))
    if o.kind == 'dict':
        if name in ('items', 'iteritems'):
            return mk('items', recv)
        if name in ('keys', 'iterkeys'):
            return interp.to_list(recv, st)
        if name in ('values', 'itervalues'):
            return dict_values(interp, recv, st)
        if name == 'get':
            d = args[1] if len(args) > 1 else NONE
            r = interp.dict_get(recv, o, args[0], st, default=d)
            return r
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            for e in o.data:
                if e[2] is args[0] and not e[0] and e[1] is TRUE:
                    return e[3]
            if all(distinct(e[2], args[0]) for e in o.data):
                interp.dict_put(recv, args[0], d, st)
                return d
            r = interp.dict_get(recv, o, args[0], st, default=d)
            interp.dict_put(recv, args[0], r, st)
            return r
        if name == 'update':
            for a in args:
                interp.dict_update(recv, a, st)
            for k, v in kw.items():
                interp.dict_put(recv, const(k), v, st)
            return NONE
        if name == 'pop':
            r = interp.dict_get(recv, o, args[0], st,
                                default=args[1] if len(args) > 1 else None)
            st.heap[recv.args[0]] = type(o)('dict', tuple(
                e for e in o.data if not (e[2] is args[0] and not e[0])))
            interp.event('delitem', 'pop', recv, (args[0],), {}, st, node)
            return r
        if name == 'copy':
            return interp.alloc(st, type(o)('dict', o.data))
        if name == 'clear':
            st.heap[recv.args[0]] = type(o)('dict', ())
            return NONE
    return None


def dict_values(interp, d, st):
    segs = []
    for s in interp.item_segments(d, st):
        v = s[-1].args[1]
        segs.append(s[:-1] + (v,))
    from .interp import Obj
    return interp.alloc(st, Obj('list', tuple(segs)))


# ------------------------------------------------------------------- externals

def getkw(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


DTYPES = {'int', 'float', 'bool', 'str', 'complex', 'object'}
NPTYPES = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32',
           'uint64', 'float32', 'float64', 'float16', 'bool_', 'int_',
           'float_', 'double', 'intp', 'long', 'uint', 'single', 'float128',
           'longlong', 'ulonglong'}

HALF = {'float32': 'float32', 'single': 'float32', 'float16': 'float16',
        'half': 'float16'}


def half(t):
    """name of a floating type of less than double precision"""
    if t is None:
        return None
    n = t.args[0] if t.op in ('const', 'ext', 'mod', 'func') and t.args else \
        None
    n = str(n).split('.')[-1].lstrip('<>=')
    return {'float32': 'float32', 'single': 'float32', 'f4': 'float32',
            'f': 'float32', 'float16': 'float16', 'half': 'float16',
            'f2': 'float16', 'e': 'float16'}.get(n)


EXC = {n for n in dir(__import__('builtins')) if n.endswith(
    ('Error', 'Exception', 'Warning', 'Interrupt', 'Exit', 'Iteration'))}


def external(interp, name, args, kw, st, node):
    sn = lambda a: interp.snap(a, st)
    short = name[9:] if name.startswith('builtins.') else name
    if short in EXC:
        return mk('exception', short, *[sn(a) for a in args])
    f = BUILTIN.get(short)
    if f is not None:
        r = f(interp, args, kw, st, node)
        if r is not None:
            return r
    if name.startswith('numpy.'):
        return npcall(interp, name, args, kw, st, node)
    if name in ('six.iteritems', 'six.viewitems', 'future.utils.iteritems'):
        return mk('items', args[0])
    if name == 'six.itervalues':
        return BUILTIN['%values'](interp, args, kw, st, node)
    if name == 'six.iterkeys':
        return args[0]
    if name in ('functools.partial',):
        e = _log(interp, 'call', name, None, args, kw, st, node)
        if not kw:
            return mk('partial', args[0], tup(*args[1:]))
        return mk('partialkw', args[0], tup(*args[1:]), kwterm(
            {k: sn(v) for k, v in kw.items()}))
    if name.split('.')[0] in ('set', 'frozenset', 'list', 'dict', 'str') and \
            name.count('.') == 1 and args and name != 'dict.fromkeys':
        return method(interp, args[0], name.split('.')[1], list(args[1:]),
                      kw, st, node)
    if name in ('copy.copy', 'copy.deepcopy'):
        o = interp.obj(st, args[0])
        _log(interp, 'copy', name, None, args, kw, st, node)
        if name == 'copy.deepcopy':
            return deepcopy(interp, args[0], st)
        if o is not None and o.kind in ('list', 'set', 'dict'):
            return interp.alloc(st, type(o)(o.kind, o.data))
        if o is not None and o.kind == 'inst':
            return interp.alloc(st, type(o)('inst', dict(o.data), o.cls))
        return args[0]
    sargs = [sn(a) for a in args]
    skw = {k: sn(v) for k, v in kw.items()}
    e = interp.event('call', name, None, sargs, skw, st, node)
    if name in ('h5py.File', 'tables.open_file', 'tables.openFile',
                'pandas.HDFStore'):
        mode = getkw(sargs, skw, 1, 'mode', const('a'))
        r = mk('h5file', sargs[0] if sargs else skw.get('name', NONE), mode)
    elif name == 'open':
        mode = getkw(sargs, skw, 1, 'mode', const('r'))
        r = mk('file', sargs[0] if sargs else skw.get('file', NONE), mode)
    elif name == 'os.path.join':
        r = mk('pathjoin', *sargs)
    elif name == 'os.path.basename':
        r = mk('basename', sargs[0])
    elif name == 'os.path.splitext':
        r = tup(mk('splitext0', sargs[0]), mk('splitext1', sargs[0]))
    elif name == 'os.path.exists':
        r = mk('exists', sargs[0])
    elif name == 'os.path.isfile':
        r = mk('exists', sargs[0], 'file')
    elif name == 'os.path.isdir':
        r = mk('exists', sargs[0], 'dir')
    elif name == 'tempfile.mkstemp':
        interp.uniq += 1
        r = tup(mk('fd', interp.uniq), mk('tmpfile', interp.uniq,
                                          skw.get('dir', NONE)
                                          if len(sargs) < 3 else sargs[2]))
    elif name == 'tempfile.mkdtemp':
        interp.uniq += 1
        r = mk('tmpdir', interp.uniq, skw.get('dir', NONE)
               if len(sargs) < 3 else sargs[2])
    elif name == 'h5py.special_dtype' or name == 'h5py.string_dtype':
        r = mk('dtype', 'str')
    elif name.startswith('random.') or name in (
            'time.time', 'uuid.uuid4', 'os.urandom', 'os.getpid'):
        e.kind = 'rng' if name.startswith('random.') else 'call'
        r = interp.fresh(name)
    elif name in ('sys.exit', 'exit', 'quit', 'os._exit'):
        e.kind = 'raise'
        from .interp import Dead
        raise Dead()
    elif name == 'math.ceil':
        r = ceil(sargs[0])
    elif name == 'math.floor':
        r = floor(sargs[0])
    elif name in ('warnings.warn', 'os.remove', 'os.close', 'os.makedirs',
                  'os.mkdir', 'os.rename', 'shutil.rmtree', 'shutil.move',
                  'warnings.simplefilter', 'os.rmdir', 'shutil.copy'):
        r = NONE
    else:
        r = mk('xcall', name, *(sargs + ([kwterm(skw)] if skw else [])))
    e.result = r
    return r


def ceil(x):
    if is_num(x):
        import math
        return const(math.ceil(x.args[0]))
    if integral(x):
        return x
    if x.op == 'div' and integral(x.args[0]) and integral(x.args[1]):
        return neg(floordiv(neg(x.args[0]), x.args[1]))
    return mk('ceil', x)


def floor(x):
    if is_num(x):
        import math
        return const(math.floor(x.args[0]))
    if integral(x):
        return x
    if x.op == 'div':
        return floordiv(x.args[0], x.args[1])
    return mk('floor', x)


def unknown_call(interp, fn, args, kw, st, node):
    if fn.op in ('inttype', 'dtype') or fn.op == 'call' and \
            'fit_integer_type' in str(fn.args[0]):
        interp.event('cast', 'type', args[0] if args else None,
                     [fn] + [interp.snap(a, st) for a in args], {}, st, node)
        return args[0]
    if fn.op == 'getitem' and len(args) == 1 and 'types' in show(fn):
        interp.event('cast', 'type', args[0], [fn, args[0]], {}, st, node)
        return args[0]
    e = interp.event('ucall', show(fn, 3), fn,
                     [interp.snap(a, st) for a in args],
                     {k: interp.snap(v, st) for k, v in kw.items()}, st, node)
    r = mk('ucall', fn, *(list(e.args) + ([kwterm(e.kwargs)] if e.kwargs
                                          else [])))
    e.result = r
    return r


# ---- builtins

def _b(name):
    def deco(f):
        BUILTIN[name] = f
        return f
    return deco


BUILTIN = {}


@_b('len')
def _len(it, a, kw, st, node):
    o = it.obj(st, a[0])
    if o is not None and o.kind == 'inst':
        m = it.find_method(o.cls, '__len__')
        if m is not None:
            return it.call_method(a[0], '__len__', [], {}, st, node)
    return it.length(it.simp(a[0], st), st)


@_b('range')
def _range(it, a, kw, st, node):
    if len(a) == 1:
        return mk('range', ZERO, a[0], ONE)
    return mk('range', a[0], a[1], a[2] if len(a) > 2 else ONE)


@_b('list')
def _list(it, a, kw, st, node):
    return it.to_list(posn(it, it.simp(a[0], st), st, 'list'), st) if a \
        else it.new_list(st, [])


@_b('tuple')
def _tuple(it, a, kw, st, node):
    if not a:
        return tup()
    items = it.concrete_items(it.simp(a[0], st), st)
    if items is not None:
        return tup(*items)
    return it.snap(a[0], st)


@_b('set')
def _set(it, a, kw, st, node):
    if not a:
        return it.new_set(st, [])
    v = it.simp(a[0], st)
    if it.obj(st, v) is None and v.op not in (
            'tuple', 'list', 'items', 'zip', 'dict', 'lcomp', 'lcat', 'range',
            'ite', 'groups', 'enumerate'):
        return mk('setof', v) if v.op not in SETOPS else v
    return it.to_list(v, st, 'set')


BUILTIN['frozenset'] = _set


@_b('dict')
def _dict(it, a, kw, st, node):
    if not a:
        return it.new_dict(st, [(const(k), v) for k, v in kw.items()])
    v = it.simp(a[0], st)
    o = it.obj(st, v)
    if o is not None and o.kind == 'dict':
        r = it.alloc(st, type(o)('dict', o.data))
    elif o is None and v.op not in ('zip', 'tuple', 'list', 'items', 'dict',
                                    'lcomp', 'lcat', 'enumerate', 'ite'):
        if kw:
            r = it.new_dict(st)
            it.dict_update(r, v, st)
        else:
            return v            # dict(row): same mapping
    else:
        r = it.new_dict(st)
        from .interp import Outcome

        def bind(vf):
            def run(s):
                kv = vf(s)
                it.dict_put(r, it.getitem(kv, ZERO, s),
                            it.getitem(kv, ONE, s), s)
                return Outcome(s)
            return run
        out = it.iterate(v, bind, st, node)
        st.set(out.fall)
    for k, x in kw.items():
        it.dict_put(r, const(k), x, st)
    return r


@_b('str')
def _str(it, a, kw, st, node):
    return to_str(it.snap(a[0], st)) if a else const('')


BUILTIN['repr'] = lambda it, a, kw, st, node: mk('repr', it.snap(a[0], st))


def _cast(ty):
    def f(it, a, kw, st, node):
        if not a:
            return {'int': ZERO, 'float': ZERO, 'bool': FALSE}[ty]
        v = it.snap(a[0], st)
        if ty == 'bool':
            return it.truth(a[0], st)
        it.event('cast', ty, v, [], {}, st, node)
        if v.op == 'const' and isinstance(v.args[0], (int, float, str)):
            try:
                return const(int(v.args[0]) if ty == 'int'
                             else float(v.args[0]))
            except Exception:
                return v
        if ty == 'int' and v.op == 'div':
            return mk('trunc', v)
        if ty == 'int' and v.op in ('ceil', 'floor'):
            return v
        if ty == 'int' and not integral(v) and (v.op == 'poly' or it.exact):
            return mk('trunc', v)
        return v
    return f


BUILTIN['int'] = _cast('int')
BUILTIN['float'] = _cast('float')
BUILTIN['bool'] = _cast('bool')
BUILTIN['long'] = _cast('int')


def _minmax(op):
    def f(it, a, kw, st, node):
        if len(a) > 1 and not kw:
            return minmax(op, *[it.snap(x, st) for x in a])
        items = it.concrete_items(it.simp(a[0], st), st)
        if items and not kw:
            return minmax(op, *[it.snap(x, st) for x in items])
        v = a[0]
        o = it.obj(st, v)
        if o is not None and o.kind == 'genexp':
            v = it.to_list(v, st)
        return mk('np', op, it.snap(v, st), *([kwterm(kw)] if kw else []))
    return f


BUILTIN['min'] = _minmax('min')
BUILTIN['max'] = _minmax('max')


@_b('abs')
def _abs(it, a, kw, st, node):
    v = it.snap(a[0], st)
    return const(abs(v.args[0])) if is_num(v) else mk('np', 'abs', v)


@_b('sum')
def _sum(it, a, kw, st, node):
    v = it.simp(a[0], st)
    o = it.obj(st, v)
    if o is not None and o.kind == 'genexp':
        v = it.to_list(v, st)
    start = a[1] if len(a) > 1 else ZERO
    so = it.obj(st, start)
    if so is not None and so.kind == 'list':
        r = it.new_list(st, [])
        items = it.concrete_items(v, st)
        if items is not None:
            for x in items:
                it.extend(r, x, st)
            return r
    t = it.snap(v, st)
    return add(start, sumterm(t))


def sumterm(t):
    if t.op in ('list', 'tuple'):
        r = ZERO
        for x in t.args:
            r = add(r, x)
        return r
    if t.op == 'lcomp':
        return mk('sum', t.args[0], t.args[1], t.args[2])
    if t.op == 'lcat':
        r = ZERO
        for p in t.args:
            if p.op == 'li':
                r = add(r, ite(p.args[0], p.args[1], ZERO))
            elif p.op == 'lx':
                r = add(r, ite(p.args[0], sumterm(p.args[1]), ZERO))
            else:
                r = add(r, mk('sum', p.args[0], p.args[1], p.args[2]))
        return r
    return mk('np', 'sum', t)


def _quant(all_):
    def f(it, a, kw, st, node):
        v = it.simp(a[0], st)
        o = it.obj(st, v)
        if o is not None and o.kind == 'genexp':
            v = it.to_list(v, st)
        items = it.concrete_items(v, st)
        if items is not None:
            cs = [it.truth(x, st) for x in items]
            return (and_ if all_ else or_)(*cs)
        segs = None
        o = it.obj(st, v)
        if o is not None and o.kind in ('list', 'set'):
            out = []
            for s in o.data:
                if s[0] == 'i':
                    c = it.truth(s[2], st)
                    out.append(or_(not_(s[1]), c) if all_ else and_(s[1], c))
                elif s[0] == 'c':
                    c = it.truth(s[3], st)
                    q = mk('forall', it.domsterm(s[1]), s[2],
                           c if all_ else not_(c))
                    out.append(q if all_ else not_(q))
                else:
                    out.append(mk('np', 'all' if all_ else 'any', s[2]))
            return (and_ if all_ else or_)(*out)
        return mk('np', 'all' if all_ else 'any', it.snap(v, st))
    return f


BUILTIN['all'] = _quant(True)
BUILTIN['any'] = _quant(False)


@_b('sorted')
def _sorted(it, a, kw, st, node):
    items = it.concrete_items(it.simp(a[0], st), st)
    if items is not None and all(x.op == 'const' for x in items) and not kw:
        try:
            return it.new_list(st, sorted(items, key=lambda t: t.args[0]))
        except TypeError:
            pass
    v = it.to_list(a[0], st)
    t = mk('sorted', it.snap(v, st), *([kwterm(
        {k: it.snap(x, st) for k, x in kw.items()})] if kw else []))
    from .interp import Obj
    return it.alloc(st, Obj('list', (('x', TRUE, t),)))


@_b('reversed')
def _reversed(it, a, kw, st, node):
    items = it.concrete_items(it.simp(a[0], st), st)
    if items is not None:
        return it.new_list(st, list(reversed(items)))
    return mk('reversed', a[0])


@_b('enumerate')
def _enumerate(it, a, kw, st, node):
    return mk('enumerate', a[0], a[1] if len(a) > 1 else
              kw.get('start', ZERO))


@_b('zip')
def _zip(it, a, kw, st, node):
    return mk('zip', *a)


@_b('map')
def _map(it, a, kw, st, node):
    from .interp import Obj, Outcome
    ref = it.alloc(st, Obj('list', ()))
    src = a[1] if len(a) == 2 else mk('zip', *a[1:])

    def bind(vf):
        def run(s):
            v = vf(s)
            xs = [v] if len(a) == 2 else list(v.args)
            it.append(ref, it.call(a[0], xs, {}, s, node), s)
            return Outcome(s)
        return run
    out = it.iterate(src, bind, st, node)
    st.set(out.fall)
    return ref


@_b('filter')
def _filter(it, a, kw, st, node):
    from .interp import Obj, Outcome
    ref = it.alloc(st, Obj('list', ()))

    def bind(vf):
        def run(s):
            v = vf(s)
            c = it.truth(v if a[0] is NONE else
                         it.call(a[0], [v], {}, s, node), s)

            def yes(x):
                it.append(ref, v, x)
                return Outcome(x)
            return it.branch(c, s, yes, lambda x: Outcome(x))
        return run
    out = it.iterate(a[1], bind, st, node)
    st.set(out.fall)
    return ref


@_b('%values')
def _values(it, a, kw, st, node):
    d = it.simp(a[0], st)
    return dict_values(it, d, st)


@_b('isinstance')
def _isinstance(it, a, kw, st, node):
    v = it.simp(a[0], st)
    c = a[1]
    cls = list(c.args) if c.op == 'tuple' else [c]
    names = [x.args[0] if x.op in ('ext', 'class') else None for x in cls]

    def one(t):
        k = kind_of(it, t, st)
        if k is None or None in names:
            return mk('isinst', t, ','.join(sorted(map(str, names))))
        ks = {k}
        if k == 'bool':
            ks.add('int')
        if k.startswith('inst:'):
            q = k[5:]
            ks = set(it.mro(q))
        return const(any((n[9:] if n.startswith('builtins.') else n) in ks
                         or n == 'object' for n in names))
    return map_ite(v, one)


def kind_of(it, t, st):
    o = it.obj(st, t)
    if o is not None:
        return 'inst:' + o.cls if o.kind == 'inst' else o.kind
    if t.op == 'const':
        return type(t.args[0]).__name__
    if t.op in ('tuple', 'list', 'set', 'dict'):
        return t.op
    if stringy(t):
        return 'str'
    if t.op == 'kcol':
        return 'scalar'
    if t.op == 'typed':
        return t.args[1]
    if t.op == 'sym' and len(t.args) > 1 and isinstance(t.args[1], str) and \
            t.args[1].startswith('type:'):
        return t.args[1][5:]
    return None


@_b('type')
def _type(it, a, kw, st, node):
    v = it.simp(a[0], st)

    def one(t):
        k = kind_of(it, t, st)
        if k and k.startswith('inst:'):
            return mk('class', k[5:])
        return mk('ext', k) if k else mk('typeof', t)
    return map_ite(v, one)


@_b('print')
def _print(it, a, kw, st, node):
    return NONE


@_b('getattr')
def _getattr(it, a, kw, st, node):
    if len(a) >= 2 and a[1].op == 'const':
        if len(a) > 2:
            o = it.obj(st, a[0])
            if o is not None and o.kind == 'inst' and \
                    a[1].args[0] not in o.data and \
                    it.find_method(o.cls, a[1].args[0]) is None:
                return a[2]
        return it.getattr_(a[0], a[1].args[0], st, node)
    o = it.obj(st, a[0])
    return mk('attrdyn', a[0], it.snap(a[1], st))


@_b('setattr')
def _setattr(it, a, kw, st, node):
    if a[1].op == 'const':
        it.setattr_(a[0], a[1].args[0], a[2], st, node)
        return NONE
    return None


@_b('hasattr')
def _hasattr(it, a, kw, st, node):
    o = it.obj(st, a[0])
    if o is not None and o.kind == 'inst' and a[1].op == 'const':
        return const(a[1].args[0] in o.data or
                     it.find_method(o.cls, a[1].args[0]) is not None)
    return mk('truth', mk('hasattr', a[0], a[1]))


@_b('iter')
def _iter(it, a, kw, st, node):
    return a[0]


@_b('next')
def _next(it, a, kw, st, node):
    v = it.simp(a[0], st)
    o = it.obj(st, v)
    if o is not None and o.kind == 'inst' and it.find_method(
            o.cls, '__next__'):
        return it.call_method(v, '__next__', [], {}, st, node)
    return mk('next', it.snap(v, st), len(it.events))


@_b('divmod')
def _divmod(it, a, kw, st, node):
    x, y = it.snap(a[0], st), it.snap(a[1], st)
    return tup(floordiv(x, y), mod(x, y))


@_b('round')
def _round(it, a, kw, st, node):
    return mk('np', 'round', *[it.snap(x, st) for x in a])


@_b('slice')
def _slice(it, a, kw, st, node):
    a = [it.snap(x, st) for x in a]
    if len(a) == 1:
        return mk('slice', NONE, a[0], NONE)
    return mk('slice', a[0], a[1], a[2] if len(a) > 2 else NONE)


@_b('callable')
def _callable(it, a, kw, st, node):
    return TRUE if a[0].op in ('func', 'class', 'ext', 'bound') else None


# ---- numpy

REDUCE = {'sum', 'prod', 'max', 'min', 'mean', 'any', 'all', 'argmin',
          'argmax', 'std', 'var', 'median', 'cumsum', 'cumprod', 'nansum',
          'nanmean'}
BINARY = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult',
          'divide': 'Div', 'floor_divide': 'FloorDiv', 'mod': 'Mod',
          'power': 'Pow', 'fmod': 'Mod'}
CMP = {'equal': 'Eq', 'not_equal': 'NotEq', 'less': 'Lt',
       'less_equal': 'LtE', 'greater': 'Gt', 'greater_equal': 'GtE'}


def npcall(interp, name, args, kw, st, node):
    r = npcall_(interp, name, args, kw, st, node)
    if 'out' in kw and not name.startswith('numpy.random'):
        import ast
        for k in getattr(node, 'keywords', ()):
            if k.arg == 'out' and isinstance(k.value, ast.Name):
                interp.setvar(st, interp.cur_frame, k.value.id, r)
    return r


def npcall_(interp, name, args, kw, st, node):
    n = name[len('numpy.'):]
    a = [interp.snap(interp.to_list(x, st) if (
        interp.obj(st, x) is not None and interp.obj(st, x).kind == 'genexp')
        else x, st) for x in args]
    k = {x: interp.snap(y, st) for x, y in kw.items()}
    if n.startswith('random.'):
        e = interp.event('rng', name, None, a, k, st, node)
        e.result = NONE if n == 'random.seed' else interp.fresh(name)
        return e.result
    if n in NPTYPES or n in DTYPES:
        if a:
            interp.event('cast', n, a[0], a, k, st, node)
            if interp.exact:
                return mk('np', 'astype', a[0], mk('ext', name))
            return mk('np', HALF[n], a[0]) if n in HALF else a[0]
    if 'out' in k:
        interp.event('mutate', 'out=', k['out'], a, k, st, node)
    if n == 'array':
        if 'dtype' in k or len(a) > 1:
            interp.event('cast', 'array', a[0],
                         [k.get('dtype', a[1] if len(a) > 1 else NONE)], k,
                         st, node)
        elif True:
            interp.event('copy', 'array', a[0], a, k, st, node)
        if interp.exact:
            dt = k.get('dtype', a[1] if len(a) > 1 else NONE)
            return mk('np', 'array', unset(a[0]),
                      *([dt] if dt is not NONE else []))
        return posn(interp, unset(a[0]), st, 'array')
    if n in ('empty', 'zeros', 'ones'):
        shape = a[0] if a else k.get('shape', NONE)
        if shape.op == 'list':
            shape = tup(*shape.args)
        if shape.op == 'tuple' and len(shape.args) == 1:
            shape = shape.args[0]
        # distinct allocations are distinct arrays but equal values
        dt = k.get('dtype', a[1] if len(a) > 1 else NONE)
        interp.event('alloc', n, None, [shape, dt], k, st, node)
        if interp.exact and dt is not NONE:
            return mk(n, shape, dt)
        return mk(n, shape)
    if n in ('empty_like', 'zeros_like', 'ones_like'):
        interp.event('alloc', n, None, a, k, st, node)
        return mk(n[:-5], mk('shape', a[0]))
    if n == 'full':
        return mk('full', *a)
    if n == 'arange':
        if len(a) == 1 and is_num(a[0]) and a[0].args[0] <= 16:
            pass
        interp.event('alloc', n, None, a + [k.get('dtype', NONE)], k, st,
                     node)
        if len(a) == 1:
            r = mk('arange', a[0])
        elif len(a) == 2:
            r = add(a[0], mk('arange', sub(a[1], a[0])))
        else:
            r = mk('np', 'arange', *a)
        dt = k.get('dtype', NONE)
        if interp.exact and dt is not NONE:
            return mk('np', 'astype', r, dt)
        return r
    if n in BINARY and len(a) >= 2:
        return binop(BINARY[n], a[0], a[1])
    if n in CMP and len(a) >= 2:
        return interp.compare(CMP[n], a[0], a[1], st)
    if n == 'logical_and':
        return and_(*[interp.truth(x, st) if not isbool(x) else x
                      for x in a[:2]])
    if n == 'logical_or':
        return or_(*a[:2])
    if n in ('logical_not', 'invert', 'bitwise_not'):
        return not_(a[0])
    if n == 'negative':
        return neg(a[0])
    if n == 'square':
        return mul(a[0], a[0])
    if n in ('minimum', 'maximum', 'fmin', 'fmax'):
        return minmax('min' if n.endswith(('min', 'minimum')) and
                      'max' not in n else 'max', *a[:2])
    if n in ('ceil',):
        return ceil(a[0])
    if n in ('floor',):
        return floor(a[0])
    if n == 'size' and (len(a) == 2 and a[1] is ZERO or
                        k.get('axis') is ZERO):
        return length(a[0])
    if n == 'size':
        return mk('attr', a[0], 'size')
    if n == 'shape':
        return mk('shape', a[0])
    if n == 'reshape':
        return reshape(a[0], a[1] if len(a) > 1 else
                       k.get('newshape', k.get('shape', NONE)),
                       interp.exact)
    if n in ('ravel', 'squeeze', 'atleast_1d', 'atleast_2d', 'expand_dims'):
        if interp.exact:
            return mk('np', n, *(a + ([kwterm(k)] if k else [])))
        return a[0]
    if n == 'transpose' and len(a) == 1:
        return attr(interp, a[0], 'T', st)
    if n == 'column_stack':
        if a[0].op in ('tuple', 'list'):
            out = []
            for x in a[0].args:
                x = x.args[0] if x.op == 'colvec' else x
                out += list(x.args) if x.op == 'cols' else [x]
            return mk('cols', *out)
        return mk('np', 'column_stack', a[0])
    if n in ('concatenate', 'hstack', 'vstack', 'stack'):
        ax = k.get('axis', a[1] if len(a) > 1 else None)
        parts = a[0]
        if parts.op in ('tuple', 'list'):
            if n == 'concatenate' and ax is ONE or n == 'hstack' and \
                    any(p.op in ('colvec', 'cols') for p in parts.args):
                out = []
                for x in parts.args:
                    x = x.args[0] if x.op == 'colvec' else x
                    out += list(x.args) if x.op == 'cols' else [x]
                return mk('cols', *out)
            if n in ('concatenate', 'hstack') and (ax is None or ax is ZERO) \
                    or n == 'vstack':
                return mk('concat_rows', *parts.args)
        if n == 'concatenate' and ax is None or n == 'vstack':
            return mk('concat_rows', mk('star', parts))
        return mk('np', n, *(a + ([kwterm(k)] if k else [])))
    if n == 'append' and len(a) == 2 and not k:
        return mk('concat_rows', a[0], a[1])
    if n == 'tile':
        return mk('tile', a[0], a[1])
    if n == 'repeat':
        return mk('np', 'repeat', *a)
    if n in ('nonzero', 'flatnonzero', 'argwhere') or \
            n == 'where' and len(a) == 1:
        r = mk('nonzero', a[0])
        return r if n in ('flatnonzero', 'argwhere') else tup(r)
    if n == 'where' and len(a) == 3:
        return ite(a[0], a[1], a[2])
    if n == 'argsort':
        kd = k.get('kind', a[2] if len(a) > 2 else NONE)
        return mk('argsort', a[0])
    if n == 'sort':
        return mk('np', 'sort', a[0])
    if n in ('isin', 'in1d'):
        return mk('isin', a[0], unset(a[1]))
    if n == 'unique' and len(a) == 1:
        ks = {x: y for x, y in k.items() if y is not FALSE}
        if not ks:
            return mk('unique', a[0])
        outs = [mk('unique', a[0])]
        for nm in ('return_index', 'return_inverse', 'return_counts'):
            if nm in ks:
                outs.append(mk('np', 'unique.' + nm[7:], a[0]))
        if 'axis' not in ks:
            return tup(*outs)
    if n == 'diff' and len(a) == 1 and not k:
        return sub(gi(a[0], mk('slice', ONE, NONE, NONE)),
                   gi(a[0], mk('slice', NONE, const(-1), NONE)))
    if n in ('setdiff1d', 'intersect1d', 'union1d'):
        return setterm({'setdiff1d': 'setdiff', 'intersect1d': 'setinter',
                        'union1d': 'setunion'}[n], a[0], a[1])
    if n in REDUCE:
        ax = k.get('axis', a[1] if len(a) > 1 else NONE)
        extra = {x: y for x, y in k.items() if x not in ('axis', 'out')}
        x = a[0]
        if x.op == 'cols' and ax is ZERO and not extra:
            return mk('vec', *[mk('np', n, c) for c in x.args])
        if n == 'prod' and x.op == 'vec':
            r = ONE
            for c in x.args:
                r = mul(r, c)
            return r
        if n in ('max', 'min') and x.op == 'list' and x.args and ax is NONE:
            return minmax(n, *x.args)
        if n == 'sum' and x.op == 'list' and ax is NONE:
            return sumterm(x)
        if 'keepdims' in extra and extra['keepdims'] is FALSE:
            del extra['keepdims']
        return mk('np', n, x, *(([ax] if ax is not NONE else []) +
                                ([kwterm(extra)] if extra else [])))
    r = mk('np', n, *(a + ([kwterm(k)] if k else [])))
    interp.event('npcall', name, None, a, k, st, node).result = r
    return r


