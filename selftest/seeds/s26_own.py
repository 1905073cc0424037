from seedlib import H
property = 'C26'
needs = 'an item whose speaker the auxiliary file does not list'
breaks = 'items with an unknown attribute are kept'
edits = [('ABXpy/database/database.py',
          "    db, db_hierarchy = load_aux_dbs(basename, db, db.columns, filename)\n",
          "    own = db.columns\n"
          "    db, db_hierarchy = load_aux_dbs(basename, db, own, filename)\n"),
         ('ABXpy/database/database.py',
          "    nanrows = numpy.any(pandas.isnull(db), 1)\n",
          "    nanrows = numpy.any(pandas.isnull(db[own]), 1)\n")]
demo = H + '''
from ABXpy.database import database


def main():
    with open(path('d.item'), 'w') as f:
        f.write('#file onset offset #phone spk\\n'
                'f0 0 1 a z\\nf1 1 2 b y\\nf2 2 3 a w\\nf3 3 4 b z\\n')
    with open(path('d.spk'), 'w') as f:
        f.write('spk sex\\nx m\\ny f\\nz m\\n')
    db, _, where = database.load(path('d.item'), features_info=True)
    print(db)
    return [where['file'][l] for l in db.index] == ['f0', 'f1', 'f3'] and \\
        len(where) == 3


run(main)
'''
