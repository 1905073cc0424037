from seedlib import H
property = 'C26'
needs = 'an auxiliary file whose key is not sorted along the item file'
breaks = 'the attributes are sorted by the key while the locations are not'
edits = [('ABXpy/database/database.py',
          "                db = pandas.merge(db, auxdb, on=col, how='left')",
          "                db = pandas.merge(\n"
          "                    db, auxdb, on=col, how='left', sort=True)")]
demo = H + '''
from ABXpy.database import database


def main():
    with open(path('d.item'), 'w') as f:
        f.write('#file onset offset #phone spk\\n'
                'f0 0 1 a z\\nf1 1 2 b y\\nf2 2 3 a x\\nf3 3 4 b z\\n')
    with open(path('d.spk'), 'w') as f:
        f.write('spk sex\\nx m\\ny f\\nz m\\n')
    db, _, where = database.load(path('d.item'), features_info=True)
    got = {where['file'][l]: tuple(db.loc[l]) for l in db.index}
    want = {'f0': ('a', 'z', 'm'), 'f1': ('b', 'y', 'f'),
            'f2': ('a', 'x', 'm'), 'f3': ('b', 'z', 'm')}
    print(got)
    return got == want


run(main)
'''
