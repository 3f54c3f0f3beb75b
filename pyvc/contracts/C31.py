"""a marker report that lost categories is repaired"""
from .common import *

MOD = 'klayout_pex.klayout.repair_rdb'
ASSUMPTIONS = ['category paths are texts as KLayout writes them: plain words or quoted texts, joined by dots, with backslash escapes for quote, backslash, newline, tab, return and three octal digits per other byte',
               'the bytes of such a path are UTF-8; str.encode, bytes and bytes.decode as documented',
               'xml.etree: find and findall give the children with that tag in order, findtext the text of the first one, SubElement appends a child, write writes the tree, parse reads it',
               'every category of the report has its list of subcategories, no category has two of one name, every item names its category',
               'gzip.open and open read the file as documented']
CH_S = z3.DeclareSort('Ch')
BY = z3.DeclareSort('Bytes')
TXT = z3.DeclareSort('Text')
Bo = z3.BoolSort()
CH = z3.Function('char', Z, CH_S)
ST = z3.Function('state', Z, Z)              # 0 plain, 1 quoted, 2 after a backslash, 3 / 4 after one / two octal digits
ACC = z3.Function('bytes_so_far', Z, BY)
COMP = z3.Function('components_so_far', Z, Z)
NAMEOF = z3.Function('name_of_component', Z, TXT)
CAT = z3.Function('cat', BY, BY, BY)
ENC = z3.Function('utf8', CH_S, BY)
BYTE = z3.Function('byte', Z, BY)
DEC = z3.Function('decoded', BY, TXT)
DIGIT = z3.Function('digit', CH_S, Z)
EMPTY = z3.Const('no_bytes', BY)
OCT = '01234567'


def utf8(I, a, k):
    e = (list(a) + [k.get('encoding', 'utf-8')])[0]
    if not isinstance(e, str) or len(a) > 1 or set(k) - {'encoding'}:
        raise Undecided('encoding')
    I.prove('names are UTF-8', z3.BoolVal(e.lower().replace('_', '-') in ('utf-8', 'utf8')))


class BytesV(Model):
    kind = 'Bytes'
    def __init__(self, z):
        super().__init__()
        self.z = z

    def binop(self, I, op, o, refl):
        if op != 'Add' or not isinstance(o, (bytes, BytesV)):
            raise Undecided('bytes operator')
        a, b = (zby(o), self.z) if refl else (self.z, zby(o))
        return BytesV(cat(a, b))

    def m_decode(self, I, *a, **k):
        utf8(I, a, k)
        return DEC(self.z)


def cat(a, b):
    if b.eq(EMPTY):
        return a
    return b if a.eq(EMPTY) else CAT(a, b)


def zby(x):
    if isinstance(x, BytesV):
        return x.z
    r = EMPTY
    for b in x:
        r = cat(r, BYTE(b))
    return r


class Code(Model):
    """the value of three octal digits"""
    kind = 'Code'
    def __init__(self, z):
        super().__init__()
        self.z = z


def chars(I):
    I.ghost['chars'] = {'Ch'}

    def lit(c):
        l = I.literal(c, CH_S)
        return l
    for c in "nrt.'\\" + OCT:
        l = lit(c)
        I.assume(ENC(l) == BYTE(ord(c)))
        if c in OCT:
            I.assume(DIGIT(l) == int(c))

    def attr(I, x, n):
        if n != 'encode':
            raise Undecided(f'{n} of a character')

        def enc(I, a, k):
            utf8(I, a, k)
            return BytesV(ENC(x))
        return Builtin(n, enc)
    I.ghost[('attr', 'Ch')] = attr

    def int_base(I, x, b):
        ps = list(x.parts) if isinstance(x, StrCat) else [x]
        if not all(is_sym(p) and p.sort() == CH_S for p in ps) or not isinstance(b, int):
            raise Undecided('number of a text')
        I.prove('octal codes are read as octal', z3.And(z3.BoolVal(b == 8), *[z3.Or(*[p == lit(c) for c in OCT]) for p in ps]))
        v = z3.IntVal(0)
        for p in ps:
            v = v * 8 + DIGIT(p)
        return v

    def byts(I, x):
        if not isinstance(x, ListVal):
            raise Undecided('bytes of something else')
        r = EMPTY
        for v in x.items:
            I.guard(z3.And(zint(v) >= 0, zint(v) < 256), 'ValueError')
            r = cat(r, BYTE(zint(v)))
        return BytesV(r)
    I.ghost['int_base'], I.ghost['bytes'] = int_base, byts
    return lit


def step(lit, k):
    """one character of a category path as KLayout writes it: what follows from it, and what KLayout never writes"""
    c, s, a = CH(k), ST(k), ACC(k)
    nxt = lambda st, acc, comp=None: z3.And(ST(k + 1) == st, ACC(k + 1) == acc, COMP(k + 1) == (COMP(k) if comp is None else comp))
    is_oct = lambda x: z3.Or(*[x == lit(d) for d in OCT])
    code = DIGIT(CH(k - 2)) * 64 + DIGIT(CH(k - 1)) * 8 + DIGIT(c)
    esc = z3.If(c == lit('n'), BYTE(10), z3.If(c == lit('t'), BYTE(9), z3.If(c == lit('r'), BYTE(13), ENC(c))))
    plain = z3.If(c == lit('.'), z3.And(nxt(0, EMPTY, COMP(k) + 1), NAMEOF(COMP(k)) == DEC(a)),
                  z3.If(c == lit("'"), nxt(1, a), z3.And(c != lit('\\'), nxt(0, CAT(a, ENC(c))))))
    quoted = z3.If(c == lit("'"), nxt(0, a), z3.If(c == lit('\\'), nxt(2, a), nxt(1, CAT(a, ENC(c)))))
    back = z3.If(is_oct(c), nxt(3, a), z3.And(z3.Or(*[c == lit(x) for x in "ntr'\\"]), nxt(1, CAT(a, esc))))
    return [s >= 0, s <= 4, COMP(k) >= 0, z3.If(s == 0, plain, z3.If(s == 1, quoted, z3.If(s == 2, back, z3.And(is_oct(c), z3.If(
        s == 3, nxt(4, a), z3.And(code >= 0, code < 256, nxt(1, CAT(a, BYTE(code)))))))))] + \
        [z3.Implies(s >= 3, z3.And(k >= 1, is_oct(CH(k - 1)))), z3.Implies(s == 4, z3.And(k >= 2, is_oct(CH(k - 2))))] + \
        [z3.Implies(c == lit(d), DIGIT(c) == int(d)) for d in OCT] + \
        [CAT(EMPTY, ENC(c)) == ENC(c), CAT(EMPTY, BYTE(code)) == BYTE(code), CAT(EMPTY, esc) == esc]


def parse(I):
    """parse_category_path: for every text KLayout writes for a path of categories (any characters in their names, any number), the list of exactly their names in order"""
    lit = chars(I)
    N = I.fresh('length', Z)
    I.assume(N >= 0, ST(0) == 0, ACC(0) == EMPTY, COMP(0) == 0, ST(N) == 0, COMP(N) >= 0, NAMEOF(COMP(N)) == DEC(ACC(N)))
    text = SymSeq('path', N, lambda I, i: CH(i))
    variant = getattr(I, 'variant', 0)

    class Chars(AppendLoop):
        def classify(self, L):
            g = L.ghost
            if 'roles' in g:
                return g['roles']
            r, bools = {}, []
            for n in sorted(L.carried()):
                v = L.env.lookup(n)
                if isinstance(v, bool) and v is False:
                    bools.append(n)
                elif isinstance(v, str) and v == '':
                    r[n] = 'digits'
                elif isinstance(v, (bytes, BytesV)):
                    r[n] = 'bytes'
                elif not isinstance(v, (ListVal, SymList)):
                    raise Undecided(f'state of the parser: {n}')
            if len(bools) != 2:
                raise Undecided('state of the parser')
            r[bools[variant]], r[bools[1 - variant]] = 'quoted', 'escape'
            g['roles'] = r
            return r

        def pre(self, I, L):
            super().pre(I, L)
            self.classify(L)

        def want(self, n, k):
            return {'quoted': ST(k) >= 1, 'escape': ST(k) >= 2}[n]

        def havoc(self, I, L, k):
            super().havoc(I, L, k)
            r = self.classify(L)
            for n, role in r.items():
                if role == 'bytes':
                    set_local(L, n, BytesV(ACC(k)))
                elif role == 'digits':
                    if I.branch(ST(k) == 4):
                        v = StrCat([CH(k - 2), CH(k - 1)])
                    elif I.branch(ST(k) == 3):
                        v = StrCat([CH(k - 1)])
                    else:
                        v = ''
                    set_local(L, n, v)
                else:
                    set_local(L, n, self.want(role, k))

        def inv(self, I, L, k):
            out = []
            for n, role in self.classify(L).items():
                v = L.env.lookup(n)
                if role == 'bytes':
                    if not isinstance(v, (bytes, BytesV)):
                        raise Undecided('bytes')
                    out.append(('the bytes of the name so far', zby(v) == ACC(k)))
                elif role == 'digits':
                    ps = [] if v == '' else list(v.parts) if isinstance(v, StrCat) else None
                    if ps is None or not all(is_sym(p) for p in ps):
                        raise Undecided('octal digits')
                    out.append(('the octal digits so far', z3.And(z3.If(ST(k) >= 3, ST(k) - 2, 0) == len(ps), *[p == CH(k - len(ps) + j) for j, p in enumerate(ps)])))
                else:
                    out.append((f'the state of the text ({role})', zbool(v) == self.want(role, k)))
            return out

        def facts(self, I, L, k): return step(lit, k)

    def appended(I, L, k, new):
        I.prove('each separator ends one name', COMP(k + 1) == COMP(k) + len(new))
        for j, x in enumerate(new):
            I.prove('the name is the text of its component', x == NAMEOF(COMP(k) + j) if is_sym(x) else z3.BoolVal(False))
    I.loop_specs = [Chars('characters', lambda I, it: it.base is text, lambda I, L, i: NAMEOF(i), appended, tag='names', count=lambda L, k: COMP(k))]
    r = I.call(I.repo(MOD, 'parse_category_path'), [text])
    if not isinstance(r, SymList) or len(r.tail) > 1:
        raise Undecided('another list')
    I.prove('all names, and no others', zint(r.length(I)) == COMP(N) + 1)
    for x in r.tail:
        I.prove('the name is the text of its component', x == NAMEOF(COMP(N)) if is_sym(x) else z3.BoolVal(False))


parse.variants = 2

# ---------------------------------------------------------------- the tree of categories
PATH = z3.DeclareSort('CategoryPath')
CTXT = z3.DeclareSort('CategoryText')
ROOT = z3.Const('root', PATH)
EXT = z3.Function('subcategory', PATH, TXT, PATH)
PLEN = z3.Function('path_length', CTXT, Z)
PN = z3.Function('path_name', CTXT, Z, TXT)
PFX = z3.Function('path_prefix', CTXT, Z, PATH)
ITEM = z3.Function('category_of_item', Z, CTXT)
TREE = z3.ArraySort(PATH, Bo)


def way(p):
    if not isinstance(p, str):
        raise Undecided('path in the tree')
    return p[2:] if p.startswith('./') else p


class Tree(Model):
    """which categories the report has"""
    kind = 'Tree'
    def __init__(self, ex):
        super().__init__()
        self.ex, self.new = ex, []
    def snapshot(self): return (self.ex, list(self.new))
    def restore(self, s): self.ex, self.new = s[0], list(s[1])


class El(Model):
    kind = 'Element'
    def a_tag(self, I): raise Undecided('tag')
    def truth(self, I): raise Undecided('truth of an element')
    def m_find(self, I, p): return self.find(I, way(p))
    def m_findtext(self, I, p): return self.find(I, way(p)).a_text(I)
    def m_iterfind(self, I, p): return self.m_findall(I, p)
    def find(self, I, p): raise Undecided(f'find {p}')
    def m_findall(self, I, p): raise Undecided(f'findall {p}')


class Text(El):
    kind = 'TextElement'
    def __init__(self, t):
        super().__init__()
        self.t = t
    def a_text(self, I): return self.t


class Category(El):
    """an element of the report: the report itself or a category that is there"""
    kind = 'CategoryElement'
    def __init__(self, tree, path, name=None):
        super().__init__()
        self.tree, self.p, self.name = tree, path, name
    def find(self, I, p):
        if p == 'categories':
            return Categories(self.tree, self.p)
        if p == 'name' and self.name is not None:
            return Text(self.name)
        raise Undecided(f'find {p}')
    def m_findall(self, I, p):
        p = way(p)
        if p == 'categories/category':
            return Categories(self.tree, self.p).children(I)
        if p == 'items/item/category' and self.p.eq(ROOT):
            return self.tree.items
        raise Undecided(f'findall {p}')


class Categories(El):
    """the list of subcategories"""
    kind = 'CategoriesElement'
    def __init__(self, tree, path):
        super().__init__()
        self.tree, self.p = tree, path
    def children(self, I):
        tree, p = self.tree, self.p
        n, w = I.fresh('children', Z), I.fresh('with_the_name', Z)
        cn = z3.Function(f'child_name_{n}', Z, TXT)
        I.assume(n >= 0)
        ex = tree.ex
        for c in I.ghost['current']:
            # a child is there if and only if there is one in the list
            I.assume(z3.Implies(z3.Select(ex, EXT(p, c)), z3.And(w >= 0, w < n, cn(w) == c)))
        I.ghost.setdefault('marks', []).append(w)

        def get(I, i):
            i = zint(i)
            I.assume(z3.Implies(z3.And(i >= 0, i < n), z3.Select(ex, EXT(p, cn(i)))))
            return Category(tree, EXT(p, cn(i)), cn(i))
        return SymSeq('children', n, get)
    def m_findall(self, I, p):
        if way(p) != 'category':
            raise Undecided(f'findall {p}')
        return self.children(I)
    def iterate(self, I): return self.children(I).iterate(I)


class NewCategory(El):
    """a category element the code adds"""
    kind = 'NewCategory'
    def __init__(self, tree, parent):
        super().__init__()
        self.tree, self.parent, self.name, self.sub = tree, parent, None, 0
    def path(self): return EXT(self.parent, self.name)
    def complete(self): return self.name is not None and self.sub == 1
    def find(self, I, p):
        if p == 'categories' and self.complete():
            return Categories(self.tree, self.path())
        if p == 'name' and self.name is not None:
            return Text(self.name)
        raise Undecided(f'find {p}')


class NewName(El):
    kind = 'NewName'
    def __init__(self, cat):
        super().__init__()
        self.cat = cat
    def setattr(self, I, n, v):
        c, tree = self.cat, self.cat.tree
        if n != 'text' or c.name is not None or not is_sym(v) or v.sort() != TXT:
            raise Undecided('name of a new category')
        c.name = v
        here = I.ghost.get('here')
        if here is None:
            raise Undecided('a category added elsewhere')
        t, m = here
        I.prove('only a category an item names is added, under its parent', z3.And(c.parent == PFX(t, m), v == PN(t, m)))
        I.prove('no category is added twice', z3.Not(z3.Select(tree.ex, c.path())))
        I.note_write(tree)
        tree.ex = z3.Store(tree.ex, c.path(), True)


def sub_element(I, a, k):
    if len(a) != 2 or k or not isinstance(a[1], str):
        raise Undecided('SubElement')
    p, tag = a
    if isinstance(p, Categories) and tag == 'category':
        r = NewCategory(p.tree, p.p)
        I.note_write(p.tree)
        p.tree.new = p.tree.new + [r]
        return r
    if isinstance(p, NewCategory) and tag == 'name':
        return NewName(p)
    if isinstance(p, NewCategory) and tag == 'categories':
        p.sub += 1
        return Categories(p.tree, p.path()) if p.name is not None else El()
    if isinstance(p, NewCategory) and tag in ('description', 'num-items'):
        return El()
    raise Undecided(f'SubElement {tag}')


class CatPath(SymSeq):
    kind = 'CatPath'


def xml(I):
    """repair_rdb_xml: the tree that is written has every category the report had, every category an item names with all its parents, and no others; each added one is under its
    parent, has its name and room for subcategories, and is added once.  Any tree, any items, any paths"""
    simple_contract_log(I)
    tree = Tree(I.fresh('there', TREE))
    I.roots = [tree]
    I.ghost['current'] = []
    I.ghost['marks'] = []
    I.ghost[('truth', 'CategoryText')] = lambda x: z3.BoolVal(True)
    ex0 = tree.ex
    ni = I.fresh('items', Z)
    # one arbitrary category that was there, one arbitrary item and one arbitrary prefix of its path
    g, i0, m0 = I.fresh('some_category', PATH), I.fresh('some_item', Z), I.fresh('some_prefix', Z)
    I.assume(ni >= 0, z3.Select(ex0, ROOT), m0 >= 0, m0 <= PLEN(ITEM(i0)), i0 >= 0, i0 < ni, PFX(ITEM(i0), 0) == ROOT)
    goal = PFX(ITEM(i0), m0)
    tree.items = SymSeq('items', ni, lambda I, i: Text(ITEM(zint(i))))
    report, out = I.fresh('file', z3.DeclareSort('File')), I.fresh('out', z3.DeclareSort('FileName'))
    wit = {}
    written = []

    class ET_(Model):
        kind = 'ElementTree'
        def m_getroot(self, I): return Category(tree, ROOT)
        def m_findall(self, I, p): return Category(tree, ROOT).m_findall(I, p)
        def m_find(self, I, p): return Category(tree, ROOT).m_find(I, p)
        def m_write(self, I, p, *a, **k):
            if a and isinstance(a[0], str):
                k['encoding'] = a[0]
            if set(k) - {'encoding', 'xml_declaration', 'short_empty_elements'} or len(a) > 1:
                raise Undecided('write')
            I.prove('the repaired report is the file asked for', p == out if is_sym(p) else z3.BoolVal(False))
            written.append(tree.ex)

    def read(I, a, k):
        I.prove('the report is what is repaired', a[0] == report if is_sym(a[0]) else z3.BoolVal(False))
        return ET_()
    I.externals['xml.etree.ElementTree.parse'] = Builtin('parse', read)
    I.externals['xml.etree.ElementTree.SubElement'] = Builtin('SubElement', sub_element)

    def as_set(I, it):
        if base_tag(it.tag) != 'items':
            raise Undecided('set of something else')
        unfiltered(I, it)
        n, w = I.fresh('texts', Z), I.fresh('text_of_the_item', Z)
        U, SRC = z3.Function(f'text_{n}', Z, CTXT), z3.Function(f'source_{n}', Z, Z)
        I.assume(n >= 0, w >= 0, w < n)
        v = it.elem(I, i0)
        if not is_sym(v) or v.sort() != CTXT:
            raise Undecided('set of something else')
        I.assume(U(w) == v)

        def get(I, i):
            i = zint(i)
            v = it.elem(I, SRC(i))
            I.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(SRC(i) >= 0, SRC(i) < ni, U(i) == v)))
            return U(i)
        tag = f'texts_{n}'
        wit[tag] = w
        return SymSeq(tag, n, get)

    def witness(t):
        while t not in wit:
            if t == 'items':
                return i0
            if not (isinstance(t, tuple) and len(t) == 2 and t[0] in ('comp', 'list')):
                return None
            t = t[1]
        return wit[t]

    def srt(I, it, key, reverse):
        w = witness(it.tag)
        if w is None:
            raise Undecided('sorted of something else')
        unfiltered(I, it)
        w2 = I.fresh('sorted_at', Z)
        P = z3.Function(f'order_{w2}', Z, Z)
        n = zint(it.n)
        I.assume(w2 >= 0, w2 < n, P(w2) == w)

        def get(I, i):
            i = zint(i)
            I.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n)))
            return it.elem(I, P(i))
        tag = f'sorted_{w2}'
        wit[tag] = w2
        return SymSeq(tag, n, get)
    I.ghost['set'], I.ghost['sorted'] = as_set, srt

    def parsed(I, a, k):
        t = (list(a) + list(k.values()))[0]
        if not is_sym(t) or t.sort() != CTXT:
            raise Undecided('path of something else')
        I.assume(PLEN(t) >= 1)
        r = CatPath(('names', t), PLEN(t), lambda I, i: PN(t, zint(i)))
        r.t = t
        return r
    I.contracts[f'{MOD}:parse_category_path'] = parsed
    base = lambda: [('the report', z3.Select(tree.ex, ROOT)), ('categories that are there stay', z3.Implies(z3.Select(ex0, g), z3.Select(tree.ex, g)))]

    def havoc(I, L, k):
        if tree in L.written:
            I.note_write(tree)
            tree.ex, tree.new = I.fresh('there', TREE), []
            mark_havoc(L, tree)

    class Paths(Spec):
        def __init__(self):
            super().__init__('paths', lambda I, it: not I.loop_stack and witness(it.tag) is not None)
        def pre(self, I, L): unfiltered(I, L.it)
        def havoc(self, I, L, k): havoc(I, L, k)
        def inv(self, I, L, k):
            w = witness(L.it.tag)
            return base() + [('the categories of the items so far', z3.Implies(w < k, z3.Select(tree.ex, goal)))]

    def elements(I, L):
        c = [n for n in L.carried() if isinstance(L.env.lookup(n), (Category, NewCategory))]
        return c

    class Names(Spec):
        def __init__(self):
            super().__init__('names', lambda I, it: isinstance(it.base, CatPath))

        def match(self, I, it):
            if not super().match(I, it):
                return False
            t = it.base.t
            get = it.elem

            def elem(I, k):
                k = zint(k)
                I.ghost['here'], I.ghost['current'] = (t, k), [PN(t, k)]
                I.assume(PFX(t, 0) == ROOT, PFX(t, k + 1) == EXT(PFX(t, k), PN(t, k)))
                return get(I, k)
            it.elem = elem
            return True

        def pre(self, I, L):
            L.ghost['t'] = t = L.it.base.t
            I.assume(PFX(t, 0) == ROOT)
            L.ghost['then'] = [f for _, f in self.outer(I)]
            L.ghost['el'] = elements(I, L)
            if len(L.ghost['el']) != 1:
                raise Undecided('the element of the path')

        def outer(self, I):
            # what the loop over the paths knows so far
            sp, it, k, _ = I.loop_stack[-2] if I.loop_stack and isinstance(I.loop_stack[-1][0], Names) else I.loop_stack[-1]
            w = witness(it.tag)
            return base() + [('the categories of the items so far', z3.Implies(w < k, z3.Select(tree.ex, goal)))]

        def havoc(self, I, L, k):
            havoc(I, L, k)
            t = L.ghost['t']
            for n in L.ghost['el']:
                set_local(L, n, Category(tree, PFX(t, k)))

        def inv(self, I, L, k):
            t = L.ghost['t']
            out = self.outer(I) + [('the category of the path so far is there', z3.Select(tree.ex, PFX(t, k))),
                                   ('the item\'s categories of the path so far', z3.Implies(z3.And(t == ITEM(i0), m0 <= k), z3.Select(tree.ex, goal)))]
            for n in L.ghost['el']:
                e = L.env.lookup(n)
                if isinstance(e, NewCategory):
                    out.append(('the path goes on from its category', e.path() == PFX(t, k) if e.complete() else z3.BoolVal(False)))
                elif isinstance(e, Category):
                    out.append(('the path goes on from its category', e.p == PFX(t, k)))
                else:
                    raise Undecided('the element of the path')
            return out

        def elem_done(self, I, L, k, ctx):
            for c in tree.new:
                I.prove('an added category has a name and room for subcategories', z3.BoolVal(c.complete()))
    I.loop_specs = [Names(), Paths()]
    I.call(I.repo(MOD, 'repair_rdb_xml'), [report, out])
    if len(written) > 1:
        raise Undecided('written more than once')
    I.prove('the repaired report is written', z3.BoolVal(len(written) == 1))
    for ex in written:
        I.prove('every category of an item is in the repaired report', z3.Select(ex, goal))
        I.prove('no category of the report is lost', z3.Implies(z3.Select(ex0, g), z3.Select(ex, g)))


def whole(I):
    """repair_rdb: the report (unpacked if its name ends in .gz) is repaired into a new file next to it that is then loaded; the report itself is only read"""
    simple_contract_log(I)
    FN, SFX = z3.DeclareSort('FileName'), z3.DeclareSort('Suffix')
    path = z3.Const('report', FN)
    suffix, stem = z3.Function('suffix', FN, SFX), z3.Function('stem', FN, FN)
    gz = I.literal('.gz', SFX)
    tr = Trace()
    I.roots = [tr]

    def splitext(I, a, k):
        if not (len(a) == 1 and is_sym(a[0]) and a[0].eq(path)):
            raise Undecided('suffix of something else')
        return (stem(path), suffix(path))
    I.externals['os.path.splitext'] = Builtin('splitext', splitext)
    I.ghost['strmethod'] = lambda I, o, n, a, k: suffix(path) == gz if n == 'endswith' and is_sym(o) and o.eq(path) and tuple(a) == ('.gz',) else _other(n)
    I.ghost[('attr', 'FileName')] = lambda I, x, n: Builtin(n, lambda I, a, k: I.ghost['strmethod'](I, x, n, a, k))

    class File(Model):
        kind = 'File'
        def __init__(self, name, packed):
            super().__init__()
            self.name, self.packed, self.open = name, packed, True
        def on_exit(self, I): self.open = False

    def opener(packed):
        def op(I, f, mode='rb' if packed else 'r', **k):
            if not isinstance(mode, str):
                raise Undecided('mode')
            I.prove('the report is only read', z3.BoolVal(not set(mode) & set('wax+')))
            if 'b' not in mode and (packed is False or 't' in mode):
                enc = k.get('encoding')
                I.prove('the report is read in the encoding it was written in', z3.BoolVal(isinstance(enc, str) and enc.lower().replace('_', '-') in ('utf-8', 'utf8')))
            I.prove('the report is what is read', f == path if is_sym(f) else z3.BoolVal(False))
            I.prove('a packed report is unpacked', suffix(path) == gz if packed else suffix(path) != gz)
            return File(f, packed)
        return op
    I.externals['gzip.open'] = Builtin('gzip.open', lambda I, a, k: opener(True)(I, *a, **k))
    I.ghost['open'] = opener(False)

    def new_name(what, x):
        ps = list(x.parts) if isinstance(x, StrCat) else [x]
        ps = [p.v if isinstance(p, Fmt) and p.spec is None else p for p in ps]
        if not (ps and is_sym(ps[0]) and ps[0].eq(path)):
            raise Undecided(f'{what}: another file')
        I.prove(what, z3.BoolVal(len(ps) > 1 and all(isinstance(p, str) and p for p in ps[1:]) and '/' not in ''.join(ps[1:])))
        return tuple(ps[1:])

    def repair(I, a, k):
        v = I.bind(I.repo(MOD, 'repair_rdb_xml'), a, k).vars
        f, out = list(v.values())
        if not isinstance(f, File):
            raise Undecided('repair of something else')
        I.prove('the report is open', z3.BoolVal(f.open))
        tr.emit(I, 'repaired', new_name('the repaired report is a new file next to it', out))
        return None
    I.contracts[f'{MOD}:repair_rdb_xml'] = repair
    broken = I.fresh('can_not_be_loaded', Bo)

    class Rdb(Model):
        kind = 'ReportDatabase'
        def m_load(self, I, p):
            tr.emit(I, 'loaded', new_name('the repaired report is what is loaded', p))
            if I.branch(broken):
                I.raise_('RuntimeError')
    I.externals['klayout.rdb.ReportDatabase'] = Builtin('ReportDatabase', lambda I, a, k: Rdb())
    I.call(I.repo(MOD, 'repair_rdb'), [path])
    ev = [e for e in tr.events]
    I.prove('the report is repaired once', z3.BoolVal([e[0] for e in ev].count('repaired') == 1))
    I.prove('the repaired report is loaded', z3.BoolVal([e[0] for e in ev] == ['repaired', 'loaded'] and ev[0][1] == ev[1][1]))


def _other(n): raise Undecided(f'{n} of a name')


HARNESSES = [('parse_category_path', parse), ('repair_rdb_xml', xml), ('repair_rdb', whole)]
