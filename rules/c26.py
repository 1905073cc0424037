"""The item table against the text of the item file and its auxiliary files.

The loader is interpreted on model files with the pandas operations given
their documented meaning (sa.pdlib: rows, labels and columns kept apart, so a
mask, a column or a merge that meets the wrong rows shows). The model files
cover what the loader's behaviour can depend on: with and without the
extension, attributes known, unknown and missing at every level of nested
auxiliary files, keys in other orders, unused keys, repeated lines, names that
look like numbers, blank lines, and each way a header or an auxiliary file can
be malformed. The tables returned and the file of removed items are compared
with those read off the text. The trees of the determined attributes are built
and walked by the operations of the tree class on small trees (`tree`).
"""
from rules.common import *
from rules.treelib import tree
from sa.interp import LibError
from sa.pdlib import *

LOAD = 'ABXpy.database.database:load'
TREE = 'ABXpy.misc.tinytree:Tree'
ASSUMES = ['read_csv, merge, dropna, isnull and boolean masks of pandas as '
           'documented', 'a flat list of trees is added child by child']

ITEM = '#file onset offset #p s g\n'
PLAIN = (ITEM + 'f2 0.5 1 b x 1\nf1 1 2.25 a y 2\nf1 2 3 a x 1\n'
         'f3 0 1 c y 3\n')
CASES = [
    ('a plain item file', 'd.item', {'d.item': PLAIN}),
    ('a name without extension', 'd', {'d.item': PLAIN}),
    ('a file in another folder', 'x.y/d.v1.item',
     {'x.y/d.v1.item': PLAIN, 'x.y/d.v1.s': 's age\ny 30\nx 20\n'}),
    ('one attribute column', 'd.item', {
        'd.item': '#file onset offset #p\nf 0 1 a\nf 1 2 b\nf 2 3 a\n'}),
    ('the same line twice', 'd.item', {
        'd.item': ITEM + 'f 0 1 a x 1\nf 0 1 a x 1\ng 0 1 a x 1\n'}),
    ('the same line twice, with an auxiliary file', 'd.item', {
        'd.item': ITEM + 'f 0 1 a x 1\nf 0 1 a x 1\ng 0 1 a x 1\n',
        'd.s': 's age\ny 30\nx 20\n'}),
    ('a folder named like the extension', 'my.items/d', {
        'my.items/d.item': PLAIN, 'my.items/d.s': 's age\ny 30\nx 20\n'}),
    ('blank lines and spaces', 'd.item', {
        'd.item': '#file\tonset  offset #p s \nf1 0 1 a x \n\n'
                  'f2 0 1\t \tb y\t\n   \nf3 1 2 c x\n \n',
        'd.s': 's age \n\nx 20 \ny 30\t\n\n'}),
    ('an item without its last attribute', 'd.item', {
        'd.item': ITEM + 'f1 0 1 a x 1\nf2 0 1 b y\nf3 1 2 c x 2\n'}),
    ('a missing value', 'd.item', {
        'd.item': ITEM + 'f1 0 1 NA x 1\nf2 0 1 b y 1\nf3 1 2 c nan 2\n'
                         'f4 1 2 c x 2\n'}),
    ('an auxiliary file', 'd.item', {
        'd.item': PLAIN, 'd.s': 's age sex\ny 30 m\nx 20 f\n'}),
    ('auxiliary files of two columns', 'd.item', {
        'd.item': PLAIN, 'd.s': 's age\ny 30\nx 20\n',
        'd.p': 'p kind\nc cons\na vow\nb cons\n'}),
    ('a numeric key', 'd.item', {
        'd.item': PLAIN, 'd.g': 'g name\n3 three\n1 one\n2 two\n'}),
    ('unused lines in an auxiliary file', 'd.item', {
        'd.item': PLAIN, 'd.s': 's age\nz 40\ny 30\nx 20\nw 50\n'}),
    ('a value the auxiliary file does not list', 'd.item', {
        'd.item': PLAIN, 'd.s': 's age\nx 20\nz 40\n'}),
    ('an incomplete auxiliary file', 'd.item', {
        'd.item': PLAIN, 'd.s': 's age sex\ny 30\nx 20 f\n'}),
    ('nested auxiliary files', 'd.item', {
        'd.item': PLAIN, 'd.s': 's fam sex\ny k m\nx h f\n',
        'd.fam': 'fam town zip\nh oslo 1\nk lund 2\n',
        'd.town': 'town land\nlund se\noslo no\nrome it\n'}),
    ('a value missing from a nested auxiliary file', 'd.item', {
        'd.item': PLAIN, 'd.s': 's fam sex\ny k m\nx h f\n',
        'd.fam': 'fam town\nk lund\n'}),
    ('missing values at every level', 'd.item', {
        'd.item': ITEM + 'f1 0 1 a x 1\nf2 0 1 b y\nf3 1 2 c z 2\n'
                         'f4 1 2 d w 2\nf5 2 3 e v 1\n',
        'd.s': 's fam\nx h\ny h\nz k\nw\n',
        'd.fam': 'fam town\nh oslo\nk\n'}),
    ('every item incomplete but the last', 'd.item', {
        'd.item': ITEM + 'f1 0 1 a x\nf2 0 1 b y\nf3 1 2 c x 2\n'}),
    ('file names that look like numbers', 'd.item', {
        'd.item': ITEM + '001 0 1 a x 1\n1 0 1 b y 1\n01 1 2 c x 2\n'
                         '1e2 1 2 c y 2\n'}),
    ('file names that look like numbers, with an auxiliary file', 'd.item', {
        'd.item': ITEM + '001 0 1 a x 1\n1 0 1 b y 1\n1.0 1 2 c x 2\n',
        'd.s': 's age\ny 30\nx 20\n'}),
    ('a column named like the extension', 'd.item', {
        'd.item': '#file onset offset #item s\nf1 0 1 a x\nf2 1 2 b y\n'}),
]
REFUSED = [
    ('an item file without #file', {
        'd.item': 'file onset offset #p s\nf1 0 1 a x\n'}),
    ('an item file with onset and offset swapped', {
        'd.item': '#file offset onset #p s\nf1 1 0 a x\n'}),
    ('an item file whose second column is not onset', {
        'd.item': '#file start offset #p s\nf1 1 0 a x\n'}),
    ('an item file whose third column is not offset', {
        'd.item': '#file onset end #p s\nf1 1 0 a x\n'}),
    ('an item file without # before the attributes', {
        'd.item': '#file onset offset p s\nf1 0 1 a x\n'}),
    ('an item file with a third #', {
        'd.item': '#file onset offset #p #s\nf1 0 1 a x\n'}),
    ('an auxiliary file about another column', {
        'd.item': PLAIN, 'd.s': 'p age\nx 20\ny 30\n'}),
    ('an auxiliary file whose first column is another one', {
        'd.item': PLAIN, 'd.s': 'age s\n20 x\n30 y\n'}),
    ('an auxiliary file with two lines for a value', {
        'd.item': PLAIN, 'd.s': 's age\nx 20\ny 30\nx 21\n'}),
    ('a nested auxiliary file with two lines for a value', {
        'd.item': PLAIN, 'd.s': 's fam\nx h\ny k\n',
        'd.fam': 'fam town\nh oslo\nk lund\nh rome\n'}),
    ('no item file', {'d.s': 's age\nx 20\ny 30\n'}),
]


def parse(text):
    """header and cells of a text table"""
    rows = [x.split() for x in text.split('\n') if x.strip()]
    head, rows = rows[0], rows[1:]
    return head, [[NAN if x in NA else x for x in r] +
                  [NAN] * (len(head) - len(r)) for r in rows]


def number(vs):
    """numbers for a column of numbers"""
    for ty in (int, Fraction):
        try:
            return [v if v is NAN else ty(v) for v in vs]
        except ValueError:
            pass
    return vs


def attributes(files, base, cols):
    """[(column, {value: {descendant: value}}, tree)]"""
    out = []
    for c in cols:
        name = base + '.' + c
        look, tree = None, (c, ())
        if name in files and name != base + '.item':
            head, rows = parse(files[name])
            sub = attributes(files, base, head[1:])
            look = {}
            for r in rows:
                v = {}
                for h, x, (_, lk, _) in zip(head[1:], r[1:], sub):
                    v[h] = x
                    v.update(follow(lk, x))
                look[r[0]] = v
            tree = (c, tuple(t for _, _, t in sub))
        out.append((c, look, tree))
    return out


def follow(look, x):
    if look is None:
        return {}
    names = {n for v in look.values() for n in v}
    v = look.get(x, {})
    return {n: v.get(n, NAN) for n in names}


def expected(name, files):
    base = name[:-5] if name.endswith('.item') else name
    head, rows = parse(files[base + '.item'])
    k = 3
    names = [head[k][1:]] + head[k + 1:]
    att = attributes(files, base, names)
    table, where = [], []
    for r in rows:
        v = {}
        for c, x, (_, look, _) in zip(names, r[k:], att):
            v[c] = x
            v.update(follow(look, x))
        table.append(v)
        where.append(dict(zip(('file', 'onset', 'offset'), r[:k])))
    for c in table[0] if table else ():
        for v, x in zip(table, number([v[c] for v in table])):
            v[c] = x
    for c in ('onset', 'offset'):
        for v, x in zip(where, number([v[c] for v in where])):
            v[c] = x
    return base, table, where, [t for _, _, t in att]


def same(a, b):
    if a is NAN or b is NAN:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a == b


class Load(object):
    def __init__(self, ck, name, files, info=True):
        it = Interp(ck.repo, opaque=set(), opaque_classes=OPAQUE_CLASSES,
                    exact=True)
        it.lib = self.lib = Lib(files)

        def add(it, args, kw, st, nd):
            for x in it.concrete_items(it.simp(args[1], st), st):
                it.call_method(args[0], 'addChild', [x], {}, st, nd)
            return NONE
        it.natives[TREE + '.addChildrenFromList'] = add
        ck.saw(it)
        self.it = it
        self.st, self.res = it.run(LOAD, [const(name)], {
            'features_info': const(info)})

    def frame(self, k):
        v = self.lib.py(self.it, self.it.getitem(
            self.res, const(k), self.st), self.st)
        if not isinstance(v, DF):
            raise Unknown('result %d' % k)
        return v

    def trees(self):
        def one(t):
            o = self.it.obj(self.st, t)
            n = o.data['name']
            return (n.args[0] if n.op == 'const' else '?',
                    tuple(sorted(map(one, self.it.concrete_items(
                        o.data['children'], self.st)))))
        v = self.it.getitem(self.res, ONE, self.st)
        return sorted(map(one, self.it.concrete_items(v, self.st)))


def norm(t):
    return (t[0], tuple(sorted(map(norm, t[1]))))


def judge(what, name, files, run):
    """None, or what is wrong with the tables"""
    base, table, where, trees = expected(name, files)
    keep = [i for i, v in enumerate(table) if NAN not in v.values()]
    db, feat = run.frame(0), run.frame(2)
    if len(set(db.labels)) < len(db.labels) or any(
            not isinstance(l, int) or l < 0 for l in db.labels):
        return 'the labels of the items are %s' % (db.labels,)
    if db.labels != feat.labels:
        return 'the attributes are labelled %s and the locations %s' % (
            db.labels, feat.labels)
    for tab, want, kind in ((db, table, 'attributes'),
                            (feat, where, 'locations')):
        cols = set(want[0]) if want else set(tab.cols)
        if set(tab.cols) != cols or len(tab.cols) != len(cols):
            return 'the columns of the %s are %s instead of %s' % (
                kind, tab.cols, sorted(cols))
        if len(tab.rows) != len(keep):
            return '%d items instead of %d' % (len(tab.rows), len(keep))
        for r, i in zip(tab.rows, keep):
            got = dict(zip(tab.cols, r))
            bad = [c for c in cols if not same(got[c], want[i][c])]
            if bad:
                c = sorted(bad)[0]
                return 'the item of line %d has %s = %r instead of %r' % (
                    i + 2, c, got[c], want[i][c])
    if run.trees() != sorted(map(norm, trees)):
        return 'the hierarchy of the columns is %s instead of %s' % (
            run.trees(), sorted(map(norm, trees)))
    return None


def removed(what, name, files, run):
    base, table, where, trees = expected(name, files)
    gone = [v for v in table if NAN in v.values()]
    w = run.lib.written
    if not gone:
        return 'the file %s is written' % w[0][0] if w else None
    if len(w) != 1 or w[0][0] != base + '-removed.item':
        return 'the files written are %s instead of %s-removed.item' % (
            [x[0] for x in w], base)
    f = w[0][1]
    own = [t[0] for t in trees]
    rows = [tuple(map(str, (dict(zip(f.cols, r)).get(c, '?') for c in own)))
            for r in f.rows]
    want = [tuple(str(v[c]) for c in own) for v in gone]
    if rows != want:
        return 'the items listed as removed are %s instead of %s' % (
            rows, want)
    return None


def loads(ck):
    ck.repo.lookup(LOAD)
    for rule, f in (('items', judge), ('removed', removed)):
        n = 0
        for what, name, files in CASES:
            try:
                bad = f(what, name, files, Load(ck, name, files))
            except LibError as e:
                bad = 'the loading fails: %s' % e
            except Unknown as e:
                ck.undecided(rule, LOAD, '%s: %s' % (what, e))
                break
            if bad:
                ck.violated(rule, LOAD, '%s: %s' % (what, bad))
                break
            n += 1
        else:
            ck.holds(rule, LOAD, '%d sets of model files' % n)


def short(ck):
    """without the locations the same items are returned"""
    for what, name, files in CASES:
        if what not in ('nested auxiliary files', 'a missing value',
                        'a plain item file'):
            continue
        try:
            a, b = Load(ck, name, files), Load(ck, name, files, False)
            x, y = a.frame(0), b.frame(0)
            bad = x.cols != y.cols or x.rows != y.rows or \
                x.labels != y.labels or a.trees() != b.trees()
        except LibError as e:
            bad = True
        except Unknown as e:
            ck.undecided('without locations', LOAD, '%s: %s' % (what, e))
            return
        if bad:
            ck.violated('without locations', LOAD, '%s: the items differ '
                        'when the locations are not asked for' % what)
            return
    ck.holds('without locations', LOAD, 'the same items are returned when '
             'the locations are not asked for')


def refusals(ck):
    n = 0
    for what, files in REFUSED:
        try:
            Load(ck, 'd.item', files)
        except LibError:
            n += 1
            continue
        except Unknown as e:
            ck.undecided('refused', LOAD, '%s: %s' % (what, e))
            return
        ck.violated('refused', LOAD, '%s is accepted' % what)
        return
    ck.holds('refused', LOAD, '%d malformed sets of files are refused' % n)


RULES = [loads, short, refusals, tree]
