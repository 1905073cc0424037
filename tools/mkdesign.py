"""fills the generated parts of DESIGN.md: docstrings of the rules, seeds"""
import ast
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import P  # noqa


def main():
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    out = []
    for q, tech, note, reason in sorted(P, key=lambda x: x[0]['id']):
        f = os.path.join(ROOT, 'rules', q['id'].lower() + '.py')
        out.append('### %s %s\n' % (q['id'], q['title']))
        if os.path.exists(f):
            out.append(ast.get_docstring(ast.parse(open(f).read())) + '\n')
            out.append('*Method:* %s. *Quantifies over* %s.\n'
                       % (tech, q['quantifier']['text']))
        elif reason:
            out.append('Not applicable: %s\n' % reason)
    rows = ['| change | property | needs |', '|---|---|---|']
    for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        j = json.load(open(m))
        rows.append('| %s | caught by %s | %s |' % (
            os.path.basename(os.path.dirname(m)), j['property'],
            re.sub(r'\s+', ' ', j['needs']).replace('|', '/')))
    for name, txt in (('PROPS', '\n'.join(out)), ('SEEDS', '\n'.join(rows))):
        new = '<!-- %s -->\n%s\n<!-- /%s -->' % (name, txt, name)
        if '@@%s@@' % name in s:
            s = s.replace('@@%s@@' % name, new)
        else:
            s = re.sub(r'<!-- %s -->.*<!-- /%s -->' % (name, name),
                       lambda m: new, s, flags=re.S)
    open(p, 'w').write(s)


main()
