#!/usr/bin/env python3
"""Create and confirm planted bugs: seedmk.py SPECDIR [id ...]

SPECDIR/<id>.py defines property, needs, breaks, edits = [(file, old, new)]
and demo (text of demo.py). The patch is made and confirmed in /repo (which
must be clean) and undone: it must build, pass the stable tests, and the demo
must pass without and fail with it.
"""
import json
import os
import re
import runpy
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clean():
    sh('git', '-C', REPO, 'checkout', '--', '.')
    assert not sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip()


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passing', 'pass', 'passed', 'tests'):
        if k in b:
            return set(b[k] if isinstance(b[k], list) else b[k])
    raise SystemExit(str(b)[:300])


def passed(f):
    r = json.load(open(f))
    for k in ('passed', 'pass', 'passing'):
        if k in r:
            return set(r[k])
    raise SystemExit(str(r)[:300])


def demo(d):
    r = sh('bash', os.path.join(d, 'demo.sh'), cwd=REPO, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-500:]


def main():
    spec, ids = sys.argv[1], sys.argv[2:]
    for f in sorted(os.listdir(spec)):
        i = f[:-3]
        if not f.endswith('.py') or (ids and i not in ids):
            continue
        s = runpy.run_path(os.path.join(spec, f))
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        clean()
        for p, old, new in s['edits']:
            p = os.path.join(REPO, p)
            t = open(p, newline='').read()
            crlf = '\r\n' in t
            t = t.replace('\r\n', '\n')
            rx = r'\s+'.join(re.escape(w) for w in old.split())
            m = re.findall(rx, t)
            if len(m) != 1:
                print(i, 'EDIT MATCHES', len(m), old[:60])
                break
            t = re.sub(rx, lambda _: new.strip(), t)
            open(p, 'w', newline='\r\n' if crlf else '\n').write(t)
        else:
            diff = subprocess.run(['git', '-C', REPO, 'diff'],
                                  capture_output=True).stdout
            open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(
                '#!/bin/bash\n# cwd: /repo\nexport PYTHONDONTWRITEBYTECODE=1 '
                'OMP_NUM_THREADS=1\n'
                'here=$(cd "$(dirname "$0")" && pwd)\n'
                'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore '
                '"$here/demo.py"\n')
            json.dump({'property': s['property'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            b = sh('bash', '/opt/vp/build.sh')
            w = demo(d)
            t = sh('bash', '/opt/vp/test.sh', '/tmp/seed_out.json')
            miss = stable() - passed('/tmp/seed_out.json')
            pr = s['property']
            c = sh('python3', os.path.join(V, 'run.py'), pr, '--no-evidence')
            clean()
            b2 = sh('bash', '/opt/vp/build.sh')
            o = demo(d)
            good = (b.returncode == 0 and w[0] != 0 and o[0] == 0 and
                    not miss)
            print(i, pr, 'OK' if good else 'BAD', 'caught' if c.returncode == 1
                  else 'MISSED', '' if good else 'build %s with %s without %s '
                  'tests missing %s' % (b.returncode, w, o, sorted(miss)[:4]))
            if '-v' in os.environ.get('SEEDV', ''):
                print(w, '\n', c.stdout[-600:])
        clean()


main()
