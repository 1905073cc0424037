from seedlib import H
property = 'C21'
needs = 'an item file with a line whose information is missing'
breaks = 'loading the item file rewrites it without its incomplete lines'
edits = [('ABXpy/database/database.py',
          "        dropped.to_csv(basename + '-removed' + ext)\n",
          "        dropped.to_csv(basename + '-removed' + ext)\n"
          "        feat_db[~ nanrows].join(db[~ nanrows]).rename(\n"
          "            columns={l: '#' + l for l in [feat_db.columns[0],\n"
          "                                          db.columns[0]]}\n"
          "        ).to_csv(filename, sep=' ', index=False)\n")]
demo = H + '''
from ABXpy.database import database


def main():
    with open(path('d.item'), 'w') as f:
        f.write('#file onset offset #phone spk\\n'
                'f0 0 1 a z\\nf1 1 2 b y\\nf2 2 3 a w\\nf3 3 4 b z\\n')
    with open(path('d.spk'), 'w') as f:
        f.write('spk sex\\nx m\\ny f\\nz m\\n')
    with open(path('d.item')) as f:
        before = f.read()
    database.load(path('d.item'))
    with open(path('d.item')) as f:
        return f.read() == before


run(main)
'''
