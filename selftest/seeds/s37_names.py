from seedlib import H
property = 'C37'
needs = 'a script that names a column in a statement before its expression'
breaks = 'the column is not read from the table and the script fails'
edits = [('ABXpy/dbfun/dbfun_compute.py', 'visitor.visit(self.main_ast)',
          'visitor.visit(expression)')]
demo = H + '''
def count(script):
    attrs = list(itertools.product('xy', 'pq', 'kl'))
    f = simple('d.item', 'o a k', attrs)
    t = task(f, 'o', across='a', filters=[script])
    return t.stats['nb_triplets']


def main():
    want = count("[c == 'k' for c in k_X]")
    try:
        return 0 < want == count("wanted = [c == 'k' for c in k_X]\\nwanted")
    except NameError:
        return False


run(main)
'''
