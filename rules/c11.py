"""The completion marker of a distance file.

Typestate over the value graph of compute_distances: the marker is written
false when the file is prepared, before any job; the write of true is dominated
by the return of every job call (a blocking call, or one whose results are
awaited), lies in no finalizer or handler, and no job writes it.
"""
import ast
import itertools
from rules.distlib import *
from rules import c25, exclib

ASSUMES = ['Pool.map returns once all the calls returned and raises if one of '
           'them raised']
KEY = const('done')


def marks(it):
    """[(event, value)] writes of the marker"""
    out = []
    for e in it.events:
        if e.kind == 'method' and e.name in ('create', 'modify') and \
                e.args and e.args[0] is KEY:
            v = e.args[1] if len(e.args) > 1 else e.kwargs.get('data', NONE)
            out.append((e, v))
        elif e.kind == 'store' and len(e.args) == 2 and e.args[0] is KEY:
            out.append((e, e.args[1]))
    return out


def prepared(ck):
    it = interp(ck.repo)
    it.run(MOD + 'create_distance_jobs', [sym('pf'), sym('df'), sym('ncpu')])
    ck.saw(it)
    site = DPY + ':create_distance_jobs'
    c = Compute(ck)
    ms = marks(it)
    before = [(e, v) for e, v in marks(c.it) if v is not TRUE]
    if not ms and not before:
        ck.violated('done-false', site, 'the prepared file carries no marker: '
                    'nothing tells an interrupted run from a complete one')
    for e, v in ms + before:
        if v is FALSE or v.op == 'const' and not v.args[0]:
            ck.decide('done-false', e, None if e.guard() is not TRUE else True,
                      'marker false when the file is prepared')
        elif v.op == 'const':
            ck.violated('done-false', e, 'the marker is %s before any distance '
                        'is computed' % show(v, 2))
        else:
            ck.undecided('done-false', e, 'marker value %s' % show(v, 3))


def jobs(ck):
    it = job_run(ck)
    n = 0
    for e, v in marks(it):
        n += 1
        if not (v.op == 'const' and not v.args[0]):
            ck.violated('done-by-job', e, 'one job writes the marker while '
                        'other jobs are still running')
    if not n:
        ck.holds('done-by-job', DPY + ':run_distance_job',
                 'no job writes the marker')


def complete(ck):
    c = Compute(ck)
    it = c.it
    site = DPY + ':compute_distances'
    ms = [(e, v) for e, v in marks(it)
          if not (v.op == 'const' and not v.args[0])]
    pos = {id(e): i for i, e in enumerate(it.events)}
    if not c.calls:
        ck.undecided('done-true', site, 'no job call recognised')
        return
    if not ms:
        ck.violated('done-true', site, 'the marker is never set to true')
        return
    for e, v in ms:
        if v is not TRUE:
            ck.undecided('done-true', e, 'marker value %s' % show(v, 3))
            continue
        bad = und = None
        for k in e.ctx:
            if k[0] == 'finally':
                bad = 'in a finalizer, which also runs when a job failed'
            if k[0] == 'handler':
                bad = 'in an exception handler'
        if e.loops:
            bad = 'inside a loop'
        for x, bd, loop, waits in c.calls:
            if pos[id(x)] > pos[id(e)]:
                if compatible(x, e):
                    bad = 'before the jobs of line %s' % x.where[2]
            elif waits is False:
                bad = 'without waiting for the jobs of line %s' % x.where[2]
            elif waits is None:
                und = 'unknown job call at line %s' % x.where[2]
            for k in x.ctx:
                if k[0] == 'try':
                    for h in k[1].handlers:
                        if not exclib.transparent(h, None) and \
                                exclib.types(h) & exclib.FAILURES:
                            bad = 'also when the jobs of line %s failed: ' \
                                'the handler at line %s goes on' % (
                                    x.where[2], h.lineno)
        if bad:
            ck.violated('done-true', e, 'the marker is set to true ' + bad)
        elif und:
            ck.undecided('done-true', e, und)
        else:
            ck.holds('done-true', e, 'set after %d job calls, outside '
                     'finalizers' % len(c.calls))
    # every normal way through the function sets it
    ats = {}
    for x in [e for e, _ in ms] + [x for x, _, _, _ in c.calls]:
        for a in conj_atoms(x):
            ats[a.id] = a
    names = list(ats.values())[:8]
    for vals in itertools.product((True, False), repeat=len(names)):
        env = {a.id: v for a, v in zip(names, vals)}
        try:
            ran = [x for x, _, _, _ in c.calls if evalt(
                x.guard(('branch',)), env)]
            got = [e for e, _ in ms if evalt(e.guard(('branch',)), env)]
        except Unknown:
            ck.undecided('done-always', site, 'guards not recognised')
            return
        if ran and not got:
            ck.violated('done-always', ran[0], 'after the jobs of line %s the '
                        'marker is not set' % ran[0].where[2])
            return
    ck.holds('done-always', site, 'set on %d of %d valuations with jobs' % (
        2 ** len(names), 2 ** len(names)))


def conj_atoms(e):
    return list(atoms_bool(e.guard(('branch',))))


def compatible(a, b):
    """can both events happen in one run?"""
    ats = {x.id: x for e in (a, b) for x in conj_atoms(e)}
    names = list(ats.values())[:8]
    for vals in itertools.product((True, False), repeat=len(names)):
        env = {x.id: v for x, v in zip(names, vals)}
        try:
            if evalt(a.guard(('branch',)), env) and evalt(
                    b.guard(('branch',)), env):
                return True
        except Unknown:
            return True
    return False


def job_failures(ck):
    """no handler between a job and the parent discards a failure"""
    m = ck.repo.modules[MOD.rstrip(':')]
    fns = dict(exclib.functions(m))
    todo, seen = ['compute_distances'], set()
    while todo:
        q = todo.pop()
        if q in seen or q not in fns:
            continue
        seen.add(q)
        todo += [n.id for n in exclib.own(fns[q]) if isinstance(n, ast.Name)]
        todo += [p for p in fns for n in exclib.own(fns[q])
                 if isinstance(n, ast.Attribute) and
                 p.endswith('.' + n.attr)]
    eff = c25.effects(ck.repo)
    never = exclib.never_returns(m)
    for q in sorted(seen):
        fn = fns[q]
        ck.functions.add(q)
        for t in exclib.tries(fn):
            w = c25.works(t.body, fn, eff)
            for h in t.handlers:
                c25.judge(ck, m, q, fn, t, h, w, never)
            if w is not None and exclib.LEAVE in exclib.ends(
                    t.finalbody, exclib.none_params(fn), never):
                ck.violated('handler', (m.path, q, t.lineno), 'the finalizer '
                            'leaves the block: a failure is discarded')
    ck.holds('job-failures', DPY + ':compute_distances',
             '%d functions reached by the jobs' % len(seen))


RULES = [job_failures, prepared, jobs, complete]
