"""Lock discipline of the parallel jobs: a typestate analysis.

The job body is analysed with a lock present. Along every valuation of the
branch conditions that guard lock operations, the sequence of acquire / open /
close / release events must follow the automaton free -acquire-> held
-release-> free; the pair file and the distance file are opened and closed only
while held; an acquisition in state held or an end in state held is a
deadlock. For exceptional exits every operation between acquire and release
must lie in a `with lock` or in a `try` whose finalizer (or catch-all handler)
releases. An acquisition must not give up after a while unless its result is
used. The driver must hand one single lock to all jobs.
"""
import ast
import itertools
from rules.distlib import *

ASSUMES = ['multiprocessing manager locks exclude each other across '
           'processes; opening a file in one job is the only way it is '
           'shared']


def locked_run(ck):
    it = interp(ck.repo)
    lock = sym('lock')

    def dec(c, i):
        if c is eq_(lock, NONE):
            return False
        if c is mk('truth', lock):
            return True
        return None
    it.decide = dec
    it.run(MOD + 'run_distance_job',
           [sym('job'), sym('dfile'), sym('dist'), sym('ffiles'),
            sym('fgroups'), FALSE, sym('jid'), sym('norm'), lock])
    ck.saw(it)
    return it, lock


def eq_(a, b):
    from sa.terms import eq
    return eq(a, b)


def ops(it, lock):
    """[(event, action)]; actions: acq rel (lock), open close (file id)"""
    pair = gi(sym('job'), const('pair_file'))
    files = {pair.id: 'pair file', sym('dfile').id: 'distance file'}
    out = []
    opened = {}
    for e in it.events:
        if e.recv is lock and e.kind == 'method':
            if e.name in ('acquire', '__enter__'):
                out.append((e, 'acq', None))
            elif e.name in ('release', '__exit__'):
                out.append((e, 'rel', None))
        elif e.kind == 'enter' and e.recv is lock:
            out.append((e, 'acq', None))
        elif e.kind == 'exit' and e.recv is lock:
            out.append((e, 'rel', None))
        elif e.kind in ('call', 'new', 'opaque') and any(
                isinstance(a, T) and a.id in files for a in e.args) and \
                not str(e.name).startswith(('os.path', 'builtins')):
            f = [a for a in e.args if a.id in files][0]
            out.append((e, 'open', files[f.id]))
            if e.result is not None:
                opened[e.result.id] = files[f.id]
        elif e.kind == 'exit' and e.recv is not None and \
                e.recv.id in opened:
            out.append((e, 'close', opened[e.recv.id]))
        elif e.kind == 'method' and e.name == 'close' and \
                e.recv is not None and e.recv.id in opened:
            out.append((e, 'close', opened[e.recv.id]))
    return out


def typestate(ck):
    it, lock = locked_run(ck)
    site = DPY + ':run_distance_job'
    seq = ops(it, lock)
    opens = [e for e, a, f in seq if a == 'open']
    if not opens:
        ck.undecided('lock-files', site, 'no access to the shared files '
                     'recognised')
        return
    if not any(a == 'acq' for e, a, f in seq):
        # a lock handled through something unknown?
        used = [e for e in it.events if any(
            isinstance(a, T) and any(x is lock for x in subterms(a))
            for a in list(e.args) + [v for v in e.kwargs.values()])]
        ck.decide('lock-files', opens[0], None if used else False,
                  'the shared files are used without the lock')
        return
    conds = {}
    for e, a, f in seq:
        for x in gconds(e):
            for y in atoms_bool(x):
                conds[y.id] = y
    names = list(conds.values())[:8]
    errors = {}
    n = 0
    for vals in itertools.product((True, False), repeat=len(names)):
        env = {x.id: v for x, v in zip(names, vals)}
        state, live, last = 'free', [], None
        n += 1
        for e, a, f in seq:
            try:
                if not all(evalt(x, env) for x in gconds(e)):
                    continue
            except Unknown:
                continue
            if a == 'acq':
                if state == 'held':
                    errors[e.where, 'acquired while already held (since line '
                           '%s): the job waits for itself' % last] = e
                state, last = 'held', e.where[2]
            elif a == 'rel':
                if state == 'free':
                    errors[e.where, 'released without being held'] = e
                for k, r, o in live:
                    errors[o.where, 'the %s is still open when the lock is '
                           'released at line %s' % (k, e.where[2])] = o
                state = 'free'
            elif a == 'open':
                if state == 'free':
                    errors[e.where, 'the %s is opened without the lock' %
                           f] = e
                live.append((f, e.result.id if e.result is not None else 0,
                             e))
            elif a == 'close':
                # one opening: the last one that gave this file
                for k in reversed([k for k in live if k[0] == f and (
                        e.recv is None or k[1] == e.recv.id)]):
                    live.remove(k)
                    break
        if state == 'held':
            errors[last, 'the lock taken at line %s is not released' %
                   last] = None
    und = opaque_guard(seq)
    for (w, msg), e in sorted(errors.items(), key=lambda x: str(x[0])):
        if und:
            ck.undecided('lock-typestate', e or site, msg)
        else:
            ck.violated('lock-typestate', e or site, msg)
    if not errors:
        ck.holds('lock-typestate', site, '%d lock and file operations on %d '
                 'valuations' % (len(seq), n))
        for e in opens:
            ck.holds('lock-held', e, 'opened and closed under the lock')
    loops_ok(ck, seq, site)
    waits(ck, seq)
    exceptional(ck, it, seq, lock)


def waits(ck, seq):
    """an acquisition whose result is not used waits until the lock is held"""
    for e, a, f in seq:
        if a != 'acq' or e.kind != 'method' or e.name != 'acquire':
            continue
        block = e.kwargs.get('blocking', e.kwargs.get(
            'block', e.args[0] if e.args else TRUE))
        time = e.kwargs.get('timeout', e.args[1] if len(e.args) > 1 else NONE)
        if block.op == 'const' and block.args[0] and (
                time is NONE or is_num(time) and time.args[0] < 0):
            ck.holds('lock-waits', e, 'waits until the lock is free')
        elif block.op != 'const' or time is not NONE and not is_num(time):
            ck.undecided('lock-waits', e, 'may not wait')
        elif dropped(ck, e):
            ck.violated('lock-waits', e, 'goes on without the lock when '
                        'another job holds it %s' % (
                            'for more than %s s' % show(time, 2)
                            if block.args[0] else 'already'))
        else:
            ck.undecided('lock-waits', e, 'may not wait; the result is used')


def dropped(ck, e):
    """the value of the call is not used"""
    for m in ck.repo.modules.values():
        if m.path == e.where[0] and m.tree is not None:
            return any(isinstance(n, ast.Expr) and isinstance(
                n.value, ast.Call) and n.value.lineno == e.where[2]
                for n in ast.walk(m.tree))
    return False


def gconds(e):
    return [x for x in conj_(e.guard(('branch',)))]


def conj_(g):
    return [x for x in (g.args if g.op == 'and' else (g,)) if x is not TRUE]


def opaque_guard(seq):
    return any(x.op == 'fresh' for e, a, f in seq for g in gconds(e)
               for x in subterms(g))


def loops_ok(ck, seq, site):
    """acquire and release happen in the same loop"""
    acq = [e for e, a, f in seq if a == 'acq']
    rel = [e for e, a, f in seq if a == 'rel']
    la = {tuple(l.id for l in e.loops) for e in acq}
    lr = {tuple(l.id for l in e.loops) for e in rel}
    ck.decide('lock-loops', site, True if la == lr else None,
              'acquired and released in the same loop')


RISKY = {'call', 'method', 'ucall', 'store', 'lookup', 'enter', 'exit', 'new',
         'opaque', 'assert', 'raise', 'dictset', 'cast'}


def exceptional(ck, it, seq, lock):
    evs = it.events
    pos = {id(e): i for i, e in enumerate(evs)}
    rels = [e for e, a, f in seq if a == 'rel']
    for e, a, f in seq:
        if a != 'acq':
            continue
        if e.kind == 'enter':
            ck.holds('lock-exceptions', e, 'with statement')
            continue
        i = pos[id(e)]
        nxt = [r for r in rels if pos[id(r)] > i]
        if not nxt:
            continue
        # finalizers / handlers that release
        prot = set()
        for r in nxt:
            for c in r.ctx:
                if c[0] == 'finally':
                    prot.add(id(c[1]))
                if c[0] == 'handler' and catch_all(c[2]):
                    prot.add(id(c[1]))
        normal = [r for r in nxt if not any(c[0] == 'handler'
                                            for c in r.ctx)]
        if not normal:
            continue
        j = pos[id(normal[0])]
        bad = None
        count = 0
        for x in evs[i + 1:j]:
            if x.kind not in RISKY or x.recv is lock:
                continue
            count += 1
            ctxs = [c for c in x.ctx if c[0] == 'try']
            if not any(id(c[1]) in prot for c in ctxs):
                if any(c[0] == 'finally' and id(c[1]) in prot
                       for c in x.ctx) and x.kind in ('exit', 'cast'):
                    continue
                bad = x
                break
        if bad is not None:
            ck.violated('lock-exceptions', bad, 'if this %s fails, the lock '
                        'acquired at line %s is never released and the other '
                        'jobs wait forever' % (
                            '%s %s' % (bad.kind, bad.name), e.where[2]))
        else:
            ck.holds('lock-exceptions', e, '%d operations protected' % count)


def catch_all(h):
    import ast
    if h.type is None:
        return True
    n = h.type
    return isinstance(n, ast.Name) and n.id in ('BaseException', 'Exception')


def shared(ck):
    c = Compute(ck)
    many = [(e, bd) for e, bd, loop, w in c.calls if loop is not None or
            e.loops]
    if not many:
        ck.undecided('lock-shared', DPY + ':compute_distances',
                     'parallel job calls not recognised')
    for e, bd in many:
        if bd is None:
            ck.undecided('lock-shared', e, 'arguments of the jobs')
            continue
        l = bd['distance_file_lock']
        if l is NONE:
            ck.violated('lock-shared', e, 'the jobs run in parallel without '
                        'a lock')
            continue
        locks = [x for x in c.it.events if x.kind in ('method', 'call') and
                 x.result is l]
        if not locks:
            ck.undecided('lock-shared', e, 'lock %s' % show(l, 3))
            continue
        if any(x.loops for x in locks):
            ck.violated('lock-shared', locks[0], 'a new lock is made for each '
                        'job')
        elif 'Manager' in show(l, 6) or any(
                'Manager' in str(x.args[0]) for x in subterms(l)
                if x.op == 'xcall'):
            ck.holds('lock-shared', e, 'one manager lock for all jobs')
        else:
            ck.undecided('lock-shared', e, 'lock %s' % show(l, 4))


RULES = [typestate, shared]
