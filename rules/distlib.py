"""Shared analyses of the distance computation."""
from rules.common import *
from sa.finite import *

DPY = 'ABXpy/distances/distances.py'
MOD = 'ABXpy.distances.distances:'


def job_run(ck, split=FALSE, lock=None):
    it = interp(ck.repo)
    it.run(MOD + 'run_distance_job',
           [sym('job'), sym('dfile'), sym('dist'), sym('ffiles'),
            sym('fgroups'), split, sym('jid'), sym('norm'),
            sym('lock') if lock is None else lock])
    ck.saw(it)
    return it


class Compute(object):
    """compute_distances with the job functions as uninterpreted calls"""

    def __init__(self, ck):
        self.it = interp(ck.repo, opaque=['create_distance_jobs',
                                          'run_distance_job'])
        r = self.it.run(MOD + 'compute_distances',
                        [sym('ff'), sym('fg'), sym('pf'), sym('df'),
                         sym('dist'), sym('norm')],
                        {'n_cpu': sym('ncpu'), 'mem': sym('mem'),
                         'feature_file_as_list': sym('aslist')})
        self.st = r[0]
        ck.saw(self.it)
        self.n = len(self.it.events)
        self.create = [e for e in self.it.events if e.kind == 'opaque' and
                       e.name.endswith('create_distance_jobs')]
        self.calls = []       # (event, bound, all jobs?, waits for errors?)
        for e in list(self.it.events):
            if e.kind == 'opaque' and e.name.endswith('run_distance_job'):
                self.calls.append((e, e.bound, None, True))
            elif e.kind == 'method' and e.recv is not None and is_pool(
                    e.recv) and e.name in (
                    'map', 'map_async', 'starmap', 'imap', 'imap_unordered',
                    'starmap_async', 'apply', 'apply_async'):
                self.pool_call(e)

    def pool_call(self, e):
        fn = e.args[0]
        n = len(self.it.events)
        if e.name.startswith('apply'):
            a = e.args[1] if len(e.args) > 1 else tup()
            args = list(a.args) if a.op in ('tuple', 'list') else None
            dom = e.loops[-1].doms if e.loops else ()
            guard = TRUE
        else:
            x = e.args[1] if len(e.args) > 1 else NONE
            if x.op != 'lcomp':
                self.calls.append((e, None, None, None))
                return
            dom = [d.args for d in x.args[0].args]
            guard = x.args[1]
            args = [x.args[2]]
            if e.name.startswith('starmap'):
                args = list(args[0].args) if args[0].op in (
                    'tuple', 'list') else None
        if args is None:
            self.calls.append((e, None, None, None))
            return
        try:
            self.it.call(fn, args, {}, self.st.copy(), e.node)
        except Exception:
            self.calls.append((e, None, None, None))
            return
        sub_ = [x for x in self.it.events[n:] if x.kind == 'opaque' and
                x.name.endswith('run_distance_job')]
        del self.it.events[n:]
        waits = e.name in ('map', 'starmap', 'apply')
        if not waits and e.result is not None:
            waits = any(x.kind == 'method' and x.name in ('get', 'next') and
                        x.recv is not None and any(
                            y is e.result for y in subterms(x.recv))
                        for x in self.it.events)
            if not waits and e.name.startswith('imap'):
                waits = any(any(y is e.result for y in subterms(d))
                            for x in self.it.events for l in x.loops
                            for _, d in l.doms) or None
        for x in sub_:
            self.calls.append((e, x.bound, (dom, guard), waits))
        if not sub_:
            self.calls.append((e, None, None, waits))


def is_pool(t):
    return any(x.op == 'xcall' and str(x.args[0]).endswith('Pool')
               for x in subterms(t))


# ------------------------------------------------------ loop-carried values

def classes(it, loop):
    """loop-carried values that stay equal: {phi id: representative}"""
    phis = {k: v for k, v in it.phi_info.items() if v[0] is loop}
    terms = {}
    for k, (_, i, n) in phis.items():
        for x in subterms(n):
            if x.id == k:
                terms[k] = x
    groups = {}
    for k, (_, i, n) in phis.items():
        if k in terms:
            groups.setdefault(i.id, []).append(k)
    changed = True
    while changed:
        changed = False
        rep = {k: terms[g[0]] for g in groups.values() for k in g}
        m = {k: v for k, v in rep.items()}
        new = {}
        for gid, g in groups.items():
            for k in g:
                n = subst(phis[k][2], {x: m[x] for x in m})
                new.setdefault((gid, n.id), []).append(k)
        if len(new) != len(groups):
            changed = True
        groups = {i: g for i, g in enumerate(new.values())}
    return {k: terms[g[0]] for g in groups.values() for k in g}
