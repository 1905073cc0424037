#!/usr/bin/env python3
"""Self-test of the checkers on scratch variants of /repo's sources.

variants.py lists (name, properties, expectation, edits); an edit is
(file, old text, new text). 'bad' variants must be reported by at least one of
the listed properties, 'ok' variants must leave every property quiet.
usage: mut.py [-v] [-CNN: only this check] [substring ...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from variants import VARIANTS   # noqa: E402

ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'rules'))
             if f.startswith('c') and f[1:3].isdigit())


REPO = os.environ.get('MUT_REPO', '/repo')
ONLY = [a[2:] for a in sys.argv[1:] if a.startswith('-C')]
ONLY = ['C' + a for a in ONLY]


def one(v):
    name, props, expect, edits = v
    d = tempfile.mkdtemp(prefix='sa_mut_')
    try:
        shutil.copytree(os.path.join(REPO, 'ABXpy'), os.path.join(d, 'ABXpy'),
                        ignore=shutil.ignore_patterns('*.so', '*.c',
                                                      '__pycache__'))
        for x in ('bin', 'setup.py', 'examples'):
            s = os.path.join(REPO, x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, x))
            elif os.path.exists(s):
                shutil.copy(s, d)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            rx = r'\s+'.join(re.escape(w) for w in old.split())
            if not re.search(rx, s):
                return name, 'STALE', '%s: %r not found' % (f, old[:60])
            open(p, 'w').write(re.sub(rx, lambda _: new.strip(),
                                       s, count=1))
            if p.endswith('.py'):
                try:
                    compile(open(p).read(), p, 'exec')
                except SyntaxError as e:
                    return name, 'STALE', str(e)
        out = []
        caught = []
        for pr in (ONLY or (ALL if expect == 'ok' or not props else props)):
            r = subprocess.run(
                [sys.executable, os.path.join(VERIF, 'run.py'), pr, '--repo',
                 d, '--no-evidence'], capture_output=True, text=True)
            if r.returncode == 1:
                caught.append(pr)
            if r.returncode not in (0, 1):
                caught.append(pr + '!rc%d' % r.returncode)
            und = [l for l in r.stdout.splitlines()
                   if l.startswith('UNDECIDED')]
            out.append((pr, r.returncode, und[:3], r.stdout[-600:]))
        if expect == 'bad':
            ok = bool([c for c in caught if '!' not in c])
        else:
            ok = not caught
        det = ' '.join(caught)
        if not ok or '-v' in sys.argv:
            for pr, rc, und, o in out:
                if rc == 1 and (expect == 'ok' or '-v' in sys.argv):
                    det += '\n      %s: %s' % (pr, o[:700])
                elif und:
                    det += '\n      %s undecided: %s' % (
                        pr, ' | '.join(u[:260] for u in und))
        return name, ('ok' if ok else 'MISSED' if expect == 'bad' else
                      'FALSE-ALARM'), det
    finally:
        shutil.rmtree(d)


def main():
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    vs = [v for v in VARIANTS if not pats or any(p in v[0] or p in v[1]
                                                 for p in pats)]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for name, st, det in ex.map(one, vs):
            if st != 'ok' or '-v' in sys.argv or '-a' in sys.argv:
                print('%-12s %-40s %s' % (st, name, det), flush=True)
            bad += st != 'ok'
    print('%d variants, %d not as expected' % (len(vs), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
