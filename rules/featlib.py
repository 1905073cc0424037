"""The feature lookup of a distance job, evaluated in small finite models."""
from rules.distlib import *
from sa.tables import *

PY3 = 3


class JobModel(object):
    """one block of one job: `table` is the stored feature table of its by
    level, `pairs` the stored keys, times/feats the content of the feature
    files"""

    def __init__(self, it, table, keys, base, times, feats, lo=0,
                 decode=False):
        self.it = it
        n = len(keys)
        env = {sym('job').id: {'by': ['lev'], 'start': [0], 'stop': [n],
                               'pair_file': 'p'},
               sym('ffiles').id: ['F'], sym('fgroups').id: ['g']}
        funcs = dict(HOOKS)

        def enc(d):
            return {k.encode(): v for k, v in d.items()} if decode else d

        def h5(f, t):
            p = f(t.args[1])
            if not isinstance(p, str):
                raise Unknown('path')
            p = p.strip('/')
            if p == 'feat_dbs/lev':
                return table
            if p == 'unique_pairs/data':
                return [-1] * lo + list(keys) + [-1] * 2
            if p == 'unique_pairs':
                return ('h5', p)
            raise Unknown('dataset %s' % p)

        def attr(f, t):
            if t.args[1] == 'attrs' and t.args[0].op == 'h5' and \
                    str(t.args[0].args[1].args[0]).strip('/') == \
                    'unique_pairs':
                return {'lev': (base, lo, lo + n)}
            return h_frame(f, t)

        def xcall(f, t):
            if str(t.args[0]).endswith('read'):
                return (enc(times), enc(feats))
            raise Unknown('call %s' % (t.args[0],))

        def mcall(f, t):
            if t.args[1] == 'decode':
                v = f(t.args[0])
                if isinstance(v, bytes):
                    return v.decode()
                raise Undecodable()
            raise Unknown('method %s' % t.args[1])

        def exc(f, t):
            return not decode

        def ext(f, t):
            if t.args[0] == 'sys.version_info.major':
                return PY3
            if t.args[0] == 'sys.version_info':
                return (3, 12, 0, 'final', 0)
            raise Unknown('ext')
        funcs.update(h5=h5, attr=attr, xcall=xcall, mcall=mcall, exc=exc,
                     ext=ext)
        self.root = Finite(env, funcs, it)

    def calls(self):
        """[(event, i, value of the two operands)] in program order, one per
        reached call of the distance function"""
        out = []
        for e in self.it.events:
            if e.kind != 'ucall' or e.recv is None or \
                    e.recv is not sym('dist') and e.name != 'dist':
                continue
            for f, n in self.visits(e):
                out.append((e, n, [f(a) for a in e.args[:2]]))
        return out

    def visits(self, e):
        doms = [d for l in e.loops for d in l.doms]

        def go(ds, f, n):
            if not ds:
                g = e.guard(('branch',))
                try:
                    if not f(g):
                        return
                except Unknown:
                    pass
                yield f, n
                return
            v, d = ds[0]
            for i, x in enumerate(f(d)):
                for r in go(ds[1:], f.sub({v.id: x}), i):
                    yield r
        return go(doms, self.root, 0)


class Undecodable(Exception):
    pass
