from seedlib import H
property = 'C24'
needs = 'seed 0 on the command line, with a threshold'
breaks = 'the seed 0 counts as no seed: the task is different on every call'
edits = [('ABXpy/task.py',
          "            tmpdir=args.tempdir,\n            seed=args.seed)",
          "            tmpdir=args.tempdir,\n            **({'seed': args.seed} if args.seed else {}))")]
demo = H + '''
import subprocess
import sys
import numpy as np
import h5py


def main():
    items = [('s%d' % (i % 3), 'c%d' % (i % 2), i) for i in range(24)]
    with open(path('d.item'), 'w') as f:
        f.write('#file onset offset #item on spk\\n')
        for s, c, i in items:
            f.write('f%d 0 1 i%d %s %s\\n' % (i, i, c, s))
    got = []
    for k in range(3):
        out = path('o%d.abx' % k)
        code = 'import numpy as np, sys; np.random.seed(%d); ' \\
            'import ABXpy.task; ABXpy.task.main()' % (k + 1)
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code,
                            path('d.item'), out, '-o', 'on', '-a', 'spk',
                            '-t', '5', '--seed', '0'], capture_output=True)
        if r.returncode:
            print(r.stdout, r.stderr.decode()[-500:])
            return False
        with h5py.File(out, 'r') as fh:
            got.append(fh['triplets/data'][...])
    return all(np.array_equal(got[0], g) for g in got)


run(main)
'''
