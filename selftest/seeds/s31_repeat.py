from seedlib import H
property = 'C31'
needs = 'a missing source whose name extends the name of the previous one'
breaks = 'some sources are not looked up'
edits = [('ABXpy/verify.py',
          "            source = str.split(line)[0]\n",
          "            if source and line.startswith(source):\n"
          "                continue\n"
          "            source = str.split(line)[0]\n"),
         ('ABXpy/verify.py',
          "        for line in f:\n",
          "        source = ''\n"
          "        for line in f:\n")]
demo = H + '''
from ABXpy import verify


def refused(names):
    with open(path('d.item'), 'w') as f:
        f.write('#file onset offset #phone\\n')
        for n in names:
            f.write(n + ' 0 1 a\\n')
    try:
        verify.check(path('d.item'), path('d.h5f'))
    except AssertionError:
        return True
    return False


def main():
    one = ([0.1, 0.2], [[1, 2], [3, 4]])
    features('d.h5f', {'f1': one, 'f2': one})
    return not refused(['f1', 'f1', 'f2']) and refused(['f1', 'f10', 'f2']) \\
        and refused(['f1', 'f2', 'g'])


run(main)
'''
