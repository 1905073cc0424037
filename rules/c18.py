"""Distances do not change the features they are given.

A may-alias and mutation analysis (sa/effects.py) of every frame distance,
alignment, item distance and of the code that looks up features: no statement
changes an array of the caller in place, directly, through a view or through a
called function.
"""
import ast
from rules.common import *
from sa.effects import Effects

ASSUMES = ['functions of numpy change their arguments only as documented',
           'distances supplied by the user are not analysed']
FILES = ('ABXpy/distances/metrics/', 'ABXpy/distance.py',
         'ABXpy/distances/example_distances.py')
JOBS = [('ABXpy.distances.distances', 'Features_Accessor',
         'get_features_from_raw'),
        ('ABXpy.distances.distances', 'Features_Accessor',
         'get_features_from_splitted')]
SKIP = {'run', 'main', '__init__'}
LOOKUP = {'self.features*', 'self.times*', 'self.features', 'self.times'}


def arrays(n):
    """parameters a function uses as arrays"""
    used = {x.value.id for x in ast.walk(n)
            if isinstance(x, (ast.Attribute, ast.Subscript)) and
            isinstance(x.value, ast.Name)}
    return [a.arg for a in n.args.args if a.arg in used and a.arg != 'self']


def mutation_rule(ck):
    eff = Effects(ck.repo)
    todo = []
    for m in ck.repo.modules.values():
        if not any(m.path == f or f.endswith('/') and m.path.startswith(f)
                   for f in FILES):
            continue
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef) and n.name not in SKIP and \
                    not n.name.startswith('_'):
                todo.append((m, n, None, ()))
    for mod, cls, fn in JOBS:
        m = ck.repo.modules.get(mod)
        c = m and m.defs.get(cls)
        if not c:
            continue
        for n in c[1].body:
            if isinstance(n, ast.FunctionDef) and n.name == fn:
                todo.append((m, n, cls, ('items',)))
    for m, n, cls, hold in todo:
        where = '%s:%s%s' % (m.path, cls + '.' if cls else '', n.name)
        ch, _ = eff.summary(m, n, hold, cls)
        ps = arrays(n)
        bad = {p: w for p, w in ch.items()
               if p.rstrip('*') in ps or p in LOOKUP}
        if bad:
            p, (line, what) = sorted(bad.items(), key=lambda x: x[1])[0]
            ck.violated('unchanged', where, 'line %d changes %s of the caller '
                        'in place: %s' % (line, p.rstrip('*'), what))
        else:
            ck.holds('unchanged', where, 'parameters %s' % ', '.join(ps))


RULES = [mutation_rule]
