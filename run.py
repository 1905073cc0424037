#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.

usage: run.py PROPERTY [--repo DIR]      exit 0 / 1 (VIOLATION line) / 2
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.repo import Repo, AnalysisBroken          # noqa: E402
from sa.lib import Check, HOLDS, VIOLATED, UNDECIDED   # noqa: E402


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('KNOWN-FINDING: property=%s ' % prop):
            out.append(line)
    return out


def main():
    prop = sys.argv[1]
    root = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv \
        else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        repo = Repo(root)
        mod = importlib.import_module('rules.' + prop.lower())
        ck = Check(prop, repo, tier)
        for rule in mod.RULES:
            try:
                rule(ck)
            except AnalysisBroken:
                raise
            except Exception as e:
                if os.environ.get('SA_DEBUG'):
                    traceback.print_exc()
                ck.undecided(rule.__name__, rule.__module__,
                             'analysis stopped: %s: %s' % (
                                 type(e).__name__, str(e)[:300]))
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        return 2
    viol = [o for o in ck.obs if o.status == VIOLATED]
    und = [o for o in ck.obs if o.status == UNDECIDED]
    held = [o for o in ck.obs if o.status == HOLDS]
    known = known_findings(prop)
    new, old = [], []
    for o in viol:
        m = [k for k in known if ('[%s]' % o.rule) in k and
             ('[%s]' % o.where.rsplit(':', 1)[0]) in k]
        (old if m else new).append((o, m))
    for o, m in old:
        print(m[0])
    for o in und:
        print('UNDECIDED %s: %s' % (o.key(), o.detail[:400]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', prop + '.replay.txt')
    if new and "--no-evidence" in sys.argv:
        for o, _ in new:
            print("  %s\n    %s" % (o.key(), o.detail[:1500]))
    elif new:
        with open(replay, 'w') as f:
            f.write('property %s, statically decided on %s\n\n' % (
                prop, repo.root))
            for o, _ in new:
                f.write('rule      %s\nconstruct %s\n%s\n\n' % (
                    o.rule, o.where, o.detail))
        for o, _ in new:
            print('  %s\n    %s' % (o.key(), o.detail[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    elif os.path.exists(replay) and "--no-evidence" not in sys.argv:
        os.remove(replay)
    rules = {}
    for o in ck.obs:
        rules.setdefault(o.rule, {}).setdefault(o.status, 0)
        rules[o.rule][o.status] += 1
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip(),
            'obligations': len(ck.obs),
            'discharged': len(held),
            'undecided': len(und),
            'functions_analysed': len(ck.functions),
            'functions': sorted(ck.functions),
            'call_sites_checked': len(ck.sites),
            'program_events_collected': ck.paths,
            'rules': rules,
            'samples': ['%s -- %s' % (o.key(), o.detail[:200])
                        for o in ck.obs[:12]],
            'source_digest': repo.digest(),
        },
        'assumptions': list(getattr(mod, 'ASSUMES', ())),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    ev['coverage'].update(ck.info)
    quiet = "--no-evidence" in sys.argv
    with open(os.devnull if quiet else os.path.join(
            HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations, %d hold, %d violated, %d undecided (%.1fs)' % (
        prop, len(ck.obs), len(held), len(viol), len(und),
        time.time() - t0))
    if not ck.obs:
        print('ANALYSIS-BROKEN property=%s no obligation was generated' % prop)
        return 2
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main())
