"""Obligations, verdicts and the finite abstract domains the rules share."""
import itertools
from .terms import *
from . import terms as tm

HOLDS, VIOLATED, UNDECIDED = 'holds', 'violated', 'undecided'

# operators the normal form does not interpret: a mismatch below one of them
# is not evidence of anything
OPAQUE_OPS = {'fresh', 'loopout', 'phi', 'ucall', 'xcall', 'rec', 'unbound',
              'popped', 'grow', 'loopseq', 'deleted', 'lastof', 'exc'}


def opaque_in(t, allow=()):
    for x in subterms(t):
        if x.op in OPAQUE_OPS and x not in allow:
            return x
    return None


class Ob(object):
    def __init__(self, rule, where, status, detail):
        self.rule, self.where, self.status = rule, where, status
        self.detail = detail

    def key(self):
        return '%s @ %s' % (self.rule, self.where)


class Check(object):
    """collects the obligations of one property"""

    def __init__(self, prop, repo, tier):
        self.prop, self.repo, self.tier = prop, repo, tier
        self.obs = []
        self.functions = set()
        self.sites = set()
        self.paths = 0
        self.info = {}

    def _w(self, where):
        if hasattr(where, 'where'):
            where = where.where
        if isinstance(where, tuple):
            path, qual, line = where
            self.sites.add((path, line))
            return '%s:%s:%s' % (path.split('/repo/')[-1], qual.split(':')[-1],
                                 line)
        return str(where)

    def add(self, rule, where, status, detail=''):
        self.obs.append(Ob(rule, self._w(where), status, detail))
        return status

    def holds(self, rule, where, detail=''):
        return self.add(rule, where, HOLDS, detail)

    def violated(self, rule, where, detail):
        return self.add(rule, where, VIOLATED, detail)

    def undecided(self, rule, where, detail):
        return self.add(rule, where, UNDECIDED, detail)

    def decide(self, rule, where, ok, detail):
        """ok: True holds, False violated, None undecided"""
        return self.add(rule, where, HOLDS if ok is True else
                        VIOLATED if ok is False else UNDECIDED, detail)

    def same(self, rule, where, got, want, what=''):
        """equality of two terms by canonical form; a mismatch counts as a
        violation only when nothing uninterpreted is involved"""
        if got is want:
            return self.holds(rule, where, '%s = %s' % (what, show(want, 4)))
        o = opaque_in(got) or opaque_in(want)
        msg = '%s: found %s, expected %s' % (what, show(got, 7), show(want, 7))
        if o is not None:
            return self.undecided(rule, where, msg)
        return self.violated(rule, where, msg)

    def saw(self, it):
        self.functions |= it.analysed
        self.paths += len(it.events)


# --------------------------------------------------- value evaluation domains

class Unknown(Exception):
    pass


def truthy(v):
    return bool(v)


def evalt(t, env):
    """value of a term of arithmetic/order/boolean operators in a finite
    abstract valuation of its atoms (env: term id -> value)"""
    if t.id in env:
        return env[t.id]
    op = t.op
    if op == 'const':
        return t.args[0]
    if op == 'poly':
        r = 0
        for m, c in t.args[0]:
            p = c if c.denominator != 1 else int(c)
            for a, e in m:
                p = p * evalt(a, env) ** e
            r = r + p
        return r
    if op == 'lt':
        return evalt(t.args[0], env) < evalt(t.args[1], env)
    if op == 'le':
        return evalt(t.args[0], env) <= evalt(t.args[1], env)
    if op == 'eq':
        return evalt(t.args[0], env) == evalt(t.args[1], env)
    if op == 'not':
        return not evalt(t.args[0], env)
    if op == 'truth':
        return bool(evalt(t.args[0], env))
    if op == 'and':
        return all(evalt(a, env) for a in t.args)
    if op == 'or':
        return any(evalt(a, env) for a in t.args)
    if op == 'ite':
        return evalt(t.args[1] if evalt(t.args[0], env) else t.args[2], env)
    if op in ('min', 'max'):
        f = min if op == 'min' else max
        return f(evalt(a, env) for a in t.args)
    if op == 'floordiv':
        return evalt(t.args[0], env) // evalt(t.args[1], env)
    if op == 'mod':
        return evalt(t.args[0], env) % evalt(t.args[1], env)
    if op == 'div':
        a, b = evalt(t.args[0], env), evalt(t.args[1], env)
        if b == 0:
            return float('nan')
        return a / b
    if op == 'np' and t.args[0] == 'sign':
        v = evalt(t.args[1], env)
        return float('nan') if v != v else (v > 0) - (v < 0)
    if op == 'np' and t.args[0] in ('isinf', 'isnan', 'isfinite'):
        v = evalt(t.args[1], env)
        inf = v in (float('inf'), float('-inf'))
        return {'isinf': inf, 'isnan': v != v,
                'isfinite': not inf and v == v}[t.args[0]]
    if op in ('tuple', 'list'):
        return tuple(evalt(a, env) for a in t.args)
    raise Unknown(t)


def atoms_of(t, stop=None):
    """maximal subterms that evalt does not interpret"""
    out = {}

    def go(x):
        if stop is not None and stop(x):
            out[x.id] = x
            return
        if x.op == 'const':
            return
        if x.op in ('poly', 'lt', 'le', 'eq', 'not', 'and', 'or', 'ite',
                    'min', 'max', 'truth', 'tuple', 'list') or (
                        x.op == 'np' and x.args[0] in (
                            'sign', 'isinf', 'isnan', 'isfinite')):
            for c in children(x):
                go(c)
            return
        out[x.id] = x
    go(t)
    return list(out.values())


def bool_compare(a, b, numeric_atoms=(), limit=4096, values=None):
    """compare two boolean terms over all valuations of their atoms: True
    equivalent, (False, env) with a distinguishing valuation, None if the
    space is too large or a term is not interpretable"""
    ats = {x.id: x for x in atoms_of(a) + atoms_of(b)}
    nums = set(x.id for x in numeric_atoms)
    doms = []
    # an atom used below an order comparison or polynomial is numeric
    for t in (a, b):
        for x in subterms(t):
            if x.op in ('lt', 'le', 'poly', 'min', 'max'):
                for c in children(x):
                    nums.add(c.id)
            if x.op == 'eq':
                for c in children(x):
                    nums.add(c.id)
    names = list(ats.values())
    for x in names:
        if values and x.id in values:
            doms.append(values[x.id])
        elif isbool(x):
            doms.append((False, True))
        elif x.id in nums:
            doms.append((0, 1, 2))
        else:
            doms.append((0, 1))
    n = 1
    for d in doms:
        n *= len(d)
        if n > limit:
            return None
    for vals in itertools.product(*doms):
        env = {x.id: v for x, v in zip(names, vals)}
        try:
            if bool(evalt(a, env)) != bool(evalt(b, env)):
                return (False, {show(x, 3): v for x, v in zip(names, vals)})
        except Unknown:
            return None
        except (TypeError, ZeroDivisionError):
            continue
    return True


# ------------------------------------------------------------------- events

def sel(it, kind=None, name=None, pred=None):
    out = []
    for e in it.events:
        if kind is not None and e.kind != kind and not (
                isinstance(kind, tuple) and e.kind in kind):
            continue
        if name is not None and e.name != name and not (
                isinstance(name, tuple) and e.name in name):
            continue
        if pred is not None and not pred(e):
            continue
        out.append(e)
    return out


def strip_prefix_h5(t):
    """(file term, dataset path) of an h5 dataset term"""
    return t.args if t.op == 'h5' else (None, None)


def h5paths(t):
    return sorted({x.args[1].args[0] for x in subterms(t) if x.op == 'h5'
                   and x.args[1].op == 'const'})


def is_ds(t, path):
    """t is the dataset `path` of some hdf5 file"""
    return t.op == 'h5' and t.args[1].op == 'const' and \
        t.args[1].args[0].strip('/') == path.strip('/')


def find_sub(t, pred):
    return [x for x in subterms(t) if pred(x)]


def case_equal(a, b, limit=12):
    """equality of two conditional terms by case analysis on their
    conditions: True; (False, condition, got, want); None when too many"""
    conds = {}

    def collect(t):
        if t.op == 'ite':
            for x in atoms_bool(t.args[0]):
                conds[x.id] = x
            collect(t.args[1])
            collect(t.args[2])
    collect(a)
    collect(b)
    if len(conds) > limit:
        return None
    names = list(conds.values())

    def pick(t, env):
        while t.op == 'ite':
            t = t.args[1] if evalt(t.args[0], env) else t.args[2]
        return t
    for vals in itertools.product((True, False), repeat=len(names)):
        env = {x.id: v for x, v in zip(names, vals)}
        x, y = pick(a, env), pick(b, env)
        if x is not y:
            return (False, and_(*[n if v else not_(n)
                                  for n, v in zip(names, vals)]), x, y)
    return True


def atoms_bool(t):
    if t.op in ('not', 'and', 'or'):
        for c in t.args:
            for x in atoms_bool(c):
                yield x
    elif t.op == 'ite':
        for c in t.args:
            for x in atoms_bool(c):
                yield x
    elif t.op != 'const':
        yield t


def same_cases(ck, rule, where, got, want, what=''):
    r = True if got is want else case_equal(got, want)
    if r is True:
        return ck.holds(rule, where, '%s as expected' % what)
    if r is None:
        return ck.undecided(rule, where, '%s: too many cases' % what)
    if opaque_in(r[2]) or opaque_in(r[3]):
        return ck.undecided(rule, where, '%s: %s' % (what, show(r[2], 5)))
    return ck.violated(rule, where, '%s: when %s found %s, expected %s' % (
        what, show(r[1], 4), show(r[2], 6), show(r[3], 6)))
