from seedlib import H
property = 'C37'
needs = 'a script with an expression before the last one'
breaks = 'expression statements before the last one are not executed'
edits = [('ABXpy/dbfun/dbfun_compute.py',
          '        self.main_ast.body = self.main_ast.body[:-1]\n',
          '        self.main_ast.body = [stat for stat in self.main_ast.body\n'
          '                              if not isinstance(stat, ast.Expr)]\n')]
demo = H + '''
def count(script):
    attrs = list(itertools.product('xy', 'pq', 'kl'))
    f = simple('d.item', 'o a k', attrs)
    t = task(f, 'o', across='a', filters=[script])
    return t.stats['nb_triplets']


def main():
    want = count("[c == 'k' for c in k_X]")
    return 0 < want == count(
        "ok = [True] * len(k_X)\\n"
        "ok.__setitem__(slice(None), [c == 'k' for c in k_X])\\nok")


run(main)
'''
