from .fcgen import *
from .C24 import blen, BLEN, DO, DI, tokens

ASSUMPTIONS = ['the interfaces of the model are its surfaces, their triangles have the normal towards the outside (C22)',
               'text formatting as documented: "%.12g" gives 12 significant digits', 'os.pathconf gives the longest file name (or there is none); the prefix leaves room for a hash',
               'md5 sums of different names are different, no net is called as another one with its hash; base64 of one has at most 24 characters, and no slash in its urlsafe form',
               'names of materials come from the technology and can be part of a file name', 'the outside and the inside of an interface are different materials']
NETS_OF, OUT_OF = z3.Function('cond_net_of', Z, NM), Opt('cond_outside')
SLASH = z3.Function('has_slash', NM, B)
CL = z3.Function('cond_triangles_of', Z, Z)
CX = [[z3.Function(f'c{i}{c}', Z, Z, R) for c in 'xyz'] for i in range(3)]


# ---------------------------------------------------------------- which triangles
def tri_of(I, fx, i, t):
    P, T = I.repo(GEN, 'Point'), I.repo(GEN, 'Triangle')
    return Obj(T, {f'p{j}': Obj(P, {c: fx[j][x](zint(i), zint(t)) for x, c in enumerate('xyz')}) for j in range(3)})


def listed_(I, i, ln, fx, tag):
    i = zint(i)
    I.assume(ln(i) >= 0)
    s = SymSeq(('tris', tag, str(i)), ln(i), lambda I, t: tri_of(I, fx, i, t))
    s.iface = (tag, i)
    return s


class Gather(Model):
    """the list that is collected"""
    kind = 'list of triangles'

    def m_extend(self, I, xs):
        I.note_write(self)
        self.ext.append(xs)

    def inplace(self, I, op, x):
        if op != 'Add':
            raise Undecided('list')
        self.m_extend(I, x)
        return self

    def length(self, I): raise Undecided('length')
    def snapshot(self): return (list(self.ext), list(self.done))


class Pick(Spec):
    """over the interfaces of the model: the triangles of some are collected"""

    def __init__(self, g):
        super().__init__('interfaces', lambda I, it: base_tag(it.tag) in ('diel', 'cond'))
        self.g = g

    def pre(self, I, L):
        L.ghost['tag'] = base_tag(L.it.tag)
        o = [x for x in L.written]
        if len(o) > 1 or o and not isinstance(o[0], Gather) and not (isinstance(o[0], ListVal) and not o[0].items):
            raise Undecided(f'{self.name}: writes {o}')
        L.ghost['o'] = o[0] if o else None

    def havoc(self, I, L, k):
        o = L.ghost['o']
        if o is not None:
            if isinstance(o, ListVal):
                o.__class__ = Gather
                o.__dict__.pop('items', None)
                o.done = []
            o.ext = []
            for x in L.carried():
                if x in L.assigned and L.env.lookup(x) is o:
                    set_local(L, x, o)
            mark_havoc(L, o)

    def elem_done(self, I, L, k, ctx):
        o, g, tag = L.ghost['o'], self.g, L.ghost['tag']
        ext = o.ext if o is not None else []
        nm = g['name']
        if tag == 'cond':
            want = [(NETS_OF(k) == nm, True)] if g['net'] else [(z3.And(OUT_OF.has(k), OUT_OF.nm(k) == nm), False)]
            ln, fx = CL, CX
        else:
            want = [(z3.And(DO.has(k), DO.nm(k) == nm), False), (z3.And(DI.has(k), DI.nm(k) == nm), True)]
            ln, fx = TLEN, FX
        any_ = z3.Or(*[c for c, _ in want])
        if not ext:
            I.prove('every interface of the solid is collected', z3.Not(z3.And(any_, ln(k) > 0)))
            return
        I.prove('each interface once', z3.BoolVal(len(ext) == 1))
        I.prove('only interfaces of the solid', any_)
        it = I.iterate(ext[0])
        if isinstance(it, list):
            raise Undecided('collected in another way')
        I.prove('all triangles', zint(it.n) == ln(k))
        unfiltered(I, it)
        t = I.fresh('some_triangle', Z)
        I.assume(t >= 0, t < ln(k))
        h = hull(I, it.elem(I, t))
        p = [[fx[j][x](k, t) for x in range(3)] for j in range(3)]
        I.prove('seen from the solid: its own ones turned round', z3.And(*[z3.Implies(c, is_triangle(h, p[::-1] if back else p)) for c, back in want]))

    def on_break(self, I, L, k): raise Undecided('interfaces are left out')

    def after(self, I, L):
        o = L.ghost['o']
        if o is not None:
            o.done.append((L.ghost['tag'], L.it.n))
            o.ext = []


def pick(I):
    """requires: the interfaces of a model. ensures: the triangles of a net are those of its interfaces, turned round; those of a material are those of the
    interfaces it is outside of, as they are, and of those it is inside of, turned round: each once - so that all look into the solid"""
    I.ghost[('truth', 'MName')] = lambda n: True
    nd, nc = I.fresh('ndiel', Z), I.fresh('ncond', Z)
    I.assume(nd >= 0, nc >= 0)
    net = bool(I.choose(2))
    g = dict(name=I.fresh('name', NM), net=net)
    HD, HC = I.repo(GEN, 'HDielKey'), I.repo(GEN, 'HCondKey')

    def dkey(I, i):
        i = zint(i)
        I.assume(z3.Or(DO.has(i), DI.has(i)), z3.Not(z3.And(DO.has(i), DI.has(i), DO.nm(i) == DI.nm(i))))
        return Obj(HD, dict(outside=DO.get(I, i), inside=DI.get(I, i)))

    def ckey(I, i):
        i = zint(i)
        return Obj(HC, dict(net_name=NETS_OF(i), outside=OUT_OF.get(I, i)))
    diel = SymDict('diel', nd, dkey, lambda I, i: listed_(I, i, TLEN, FX, 'diel'), unique=True)
    cond = SymDict('cond', nc, ckey, lambda I, i: listed_(I, i, CL, CX, 'cond'), unique=True)
    gen = generator(I, Trace(), diel_data=diel, cond_data=cond)
    I.roots = [gen]
    I.loop_specs = [Pick(g)]
    r = I.call(method(I, gen, '_collect_cond_tris' if net else '_collect_diel_tris'), [g['name']])
    if not isinstance(r, Gather):
        raise Undecided(f'result {r!r}')
    want = {'cond': nc} if net else {'diel': nd, 'cond': nc}
    I.prove('interfaces of the solid, each once', z3.BoolVal(sorted(t for t, _ in r.done) == sorted(want)))
    I.prove('nothing else', z3.BoolVal(not r.ext))
    for t, n in r.done:
        I.prove('all interfaces', zint(n) == want[t])


# ---------------------------------------------------------------- one file
PX = [[z3.Function(f'p{i}{c}', Z, R) for c in 'xyz'] for i in range(3)]


def facets(I):
    """ensures: without triangles no file. With: the file that is given has one facet per triangle, in the STL format, with its points to 12 digits in the
    reverse order (outwards), and nothing else"""
    tr = I.ghost['trace'] = Trace()
    install_out_file(I, tr)
    install_join(I)
    n = I.fresh('ntriangles', Z)
    I.assume(n >= 0)
    P, T = I.repo(GEN, 'Point'), I.repo(GEN, 'Triangle')

    def tri(I, k):
        k = zint(k)
        return Obj(T, {f'p{i}': Obj(P, {x: PX[i][c](k) for c, x in enumerate('xyz')}) for i in range(3)})

    def check(I, L, k, ev):
        if any(e[0] != 'w' for e in ev):
            raise Undecided('something else happens')
        t = tokens(StrCat([e[1] for e in ev]))
        nums = [x for x in t if not isinstance(x, str)]
        lit = ''.join(x if isinstance(x, str) else '%' for x in t)
        v = ['vertex', '%', '%', '%']
        I.prove('one facet', z3.BoolVal(lit.split() in (['facet', 'normal', '0', '0', '0', 'outer', 'loop'] + 3 * v + ['endloop', 'endfacet'],
                                                        ['facet', 'normal', '%', '%', '%', 'outer', 'loop'] + 3 * v + ['endloop', 'endfacet'])))
        I.prove('on lines of its own', z3.BoolVal(lit.endswith('\n') and [x.split()[0] for x in lit.splitlines() if x.split()] ==
                                                  ['facet', 'outer', 'vertex', 'vertex', 'vertex', 'endloop', 'endfacet']))
        if not all(isinstance(x, Fmt) for x in nums) or len(nums) not in (9, 12):
            raise Undecided('coordinates')
        if len(nums) == 12:
            raise Undecided('a normal is given')
        I.prove('12 digits', z3.BoolVal(all((digits_of(x.spec) or 0) >= 12 for x in nums)))
        p = [zreal(x.v) for x in nums]
        I.prove('its points, turned round', is_triangle([p[:3], p[3:6], p[6:]], [[PX[i][c](k) for c in range(3)] for i in (2, 1, 0)]))
    I.loop_specs = [TraceSpec('triangles', lambda I, it: base_tag(it.tag) == 'triangles', tr, check)]
    f = I.repo(GEN, 'FasterCapModelGenerator._write_as_stl')
    f = f[1] if isinstance(f, tuple) else f
    I.roots = [tr]
    path = I.fresh('path', NAME)
    I.call(f, [path, SymSeq('triangles', n, tri)])
    ev = list(tr.events)
    if not ev:
        I.prove('a solid with a surface has a file', n == 0)
        return
    I.prove('no file without a surface', n > 0)
    op = [e for e in ev if e[0] == 'open']
    I.prove('the file that is given', z3.BoolVal(len(op) == 1 and same_name(op[0][1], path)))
    at = [i for i, e in enumerate(ev) if e[0] == 'loop']
    I.prove('all triangles', z3.And(z3.BoolVal(len(at) == 1), zint(ev[at[0]][2].it.n) == n))
    a, b = [''.join(map(str, text_of(x))) for x in (ev[:at[0]], ev[at[0] + 1:])]
    if any('%' in x or '<' in x for x in (a, b)):
        raise Undecided('head')
    I.prove('head and end', z3.BoolVal(a.split()[:1] == ['solid'] and a.endswith('\n') and a.count('\n') == 1 and b.split() == ['endsolid'] + a.split()[1:]))


# ---------------------------------------------------------------- all files
class Txt(Model):
    """bytes of a text"""
    kind = 'bytes'

    def __init__(self, n, txt, ok, cut=False):
        super().__init__()
        self.n, self.txt, self.ok, self.cut = n, txt, ok, cut

    def length(self, I): return self.n

    def getitem(self, I, k):
        if isinstance(k, slice) and k.start in (0, None) and k.stop is not None and k.step is None:
            n = I.fresh('nbytes', Z)
            s = zint(k.stop)
            I.assume(n >= 0, n <= self.n, z3.Implies(s >= 0, n <= s))
            return Txt(n, self.txt, self.ok, True)
        raise Undecided('bytes')

    def m_decode(self, I, enc='utf-8', errors='strict'):
        if not self.cut:
            return self.txt
        if errors == 'strict':
            # the cut may be within a character
            I.guard(I.fresh('cut_between_characters', B), 'UnicodeDecodeError')
        t = I.fresh('text', NM)
        I.assume(BLEN(t) >= 0, BLEN(t) <= self.n, z3.Implies(self.ok, z3.Not(SLASH(t))))
        return t


class Sum(Model):
    kind = 'digest'
    def __init__(self, g, of):
        super().__init__()
        self.g, self.of = g, of

    def m_digest(self, I): return self
    def text(self, I, n, safe):
        t = I.fresh('hash', NM)
        I.assume(BLEN(t) >= 0, BLEN(t) <= n)
        if safe:
            I.assume(z3.Not(SLASH(t)))
        self.g['hashes'].append((t, self.of))
        return t

    def m_hexdigest(self, I): return self.text(I, 64, True)


class Base(Model):
    kind = 'base64'
    def __init__(self, s, safe):
        super().__init__()
        self.s, self.safe = s, safe

    def m_decode(self, I, *a): return self.s.text(I, 24, self.safe)


def install_text(I, g):
    def one(o):
        p = parts_of(o)
        return p[0] if len(p) == 1 else None

    def noslash(o): return z3.And(*[z3.BoolVal('/' not in p) if isinstance(p, str) else z3.Not(SLASH(p)) for p in parts_of(o)])

    def meth(I, o, name, a, k):
        if name == 'encode':
            return Txt(blen(I, o), o, noslash(o))
        x = one(o)
        if x is None or not is_sym(x):
            raise Undecided(f'text {name}')
        if name == 'replace' and len(a) == 2 and a[0] == '/' and isinstance(a[1], str) and '/' not in a[1]:
            t = I.fresh('text', NM)
            I.assume(BLEN(t) >= 0, z3.Not(SLASH(t)))
            if len(a[1].encode()) == 1:
                I.assume(BLEN(t) == BLEN(x))
            return t
        if name in ('rstrip', 'strip'):
            t = I.fresh('text', NM)
            I.assume(BLEN(t) >= 0, BLEN(t) <= BLEN(x), z3.Implies(z3.Not(SLASH(x)), z3.Not(SLASH(t))))
            for h, of in list(g['hashes']):
                if h is x and a == ['=']:
                    g['hashes'].append((t, of))
            return t
        raise Undecided(f'text {name}')
    I.ghost['strmethod'] = meth
    I.ghost[('attr', 'MName')] = lambda I, o, name: Builtin(name, lambda I, a, k: meth(I, o, name, a, k))
    I.ghost[('len', 'MName')] = lambda n: BLEN(n)
    I.ghost[('truth', 'MName')] = lambda n: True

    def within(I, o, x):
        if x == '/':
            return SLASH(o)
        raise Undecided(f'{x!r} in a name')
    I.ghost['contains', 'MName'] = within

    def md(I, a, k):
        x = a[0]
        if not isinstance(x, Txt):
            raise Undecided('hash')
        return Sum(g, None if x.cut else one(x.txt))
    for h in ('md5', 'sha1', 'sha256'):
        I.externals['hashlib.' + h] = Builtin(h, md)
    for h, safe in (('urlsafe_b64encode', True), ('b64encode', False)):
        I.externals['base64.' + h] = Builtin(h, lambda I, a, k, safe=safe: Base(a[0], safe) if isinstance(a[0], Sum) else undec('base64'))

    def pathconf(I, a, k):
        if I.branch(I.fresh('windows', B)):
            I.raise_('AttributeError')
        g['limited'].append(1)
        return g['max']
    I.externals['os.pathconf'] = Builtin('pathconf', pathconf)
    I.externals['os.fsencode'] = Builtin('fsencode', lambda I, a, k: Txt(blen(I, a[0]), a[0], noslash(a[0])))


def files(I):
    """ensures: each material and each net is written once, its own triangles into a file of its own: the name of the file tells the solid, has no slash, and is
    short enough for the file system"""
    tr = I.ghost['trace'] = Trace()
    g = dict(hashes=[], limited=[], max=I.fresh('longest_name', Z), dir=I.fresh('output_dir', NM), prefix=I.fresh('prefix', NM))
    install_text(I, g)
    install_join(I)
    nm, nn = I.fresh('nmaterials', Z), I.fresh('nnets', Z)
    I.assume(nm >= 0, nn >= 0, BLEN(g['prefix']) >= 0, g['max'] >= 120 + BLEN(g['prefix']), z3.Not(SLASH(g['prefix'])))

    class Solid(Model):
        kind = 'triangles of a solid'
        def __init__(self, what, name):
            super().__init__()
            self.what, self.name = what, name

        def length(self, I): return LEN[self.what](self.name)
        def truth(self, I): return self.length(I) > 0
    LEN = {w: z3.Function(f'triangles_of_{w}', NM, Z) for w in ('net', 'material')}

    def collect(what):
        def con(I, a, k):
            x = (a[1:] + list(k.values()))[0]
            x = parts_of(x)[0]
            I.assume(LEN[what](x) >= 0)
            return Solid(what, x)
        return con
    I.contracts[GEN + ':FasterCapModelGenerator._collect_diel_tris'] = collect('material')
    I.contracts[GEN + ':FasterCapModelGenerator._collect_cond_tris'] = collect('net')

    def write(I, a, k):
        d = dict(zip(('file_name', 'tris'), [x for x in a if not (isinstance(x, Obj) or x is None)]))
        d.update(k)
        tr.emit(I, 'stl', d['file_name'], d['tris'])
    I.contracts[GEN + ':FasterCapModelGenerator._write_as_stl'] = write
    MATS = SymDict('materials', nm, lambda I, i: MATNM(zint(i)), lambda I, i: I.fresh('k', R), unique=True)
    NETS = SymSeq('nets', nn, lambda I, i: NETNM(zint(i)))
    heads = I.__dict__.setdefault('heads', {})      # of all paths

    def check(I, L, k, ev):
        tag = base_tag(L.it.tag)
        what, name = ('material', MATNM(k)) if tag == 'materials' else ('net', NETNM(k))
        if any(e[0] != 'stl' for e in ev):
            raise Undecided('something else happens')
        if not ev:
            I.prove('a solid with a surface is written', LEN[what](name) <= 0)
            return
        I.prove('once', z3.BoolVal(len(ev) == 1))
        _, path, t = ev[0]
        if not isinstance(t, Solid):
            raise Undecided('triangles')
        I.prove('its own triangles', z3.And(z3.BoolVal(t.what == what), t.name == name))
        p = parts_of(path)
        if len(p) < 3 or not (is_sym(p[0]) and same_name(p[0], g['dir'])) or p[1] != '/' and not str(p[1]).startswith('/'):
            raise Undecided(f'path {path!r}')
        fn = ([p[1][1:]] if p[1] != '/' else []) + p[2:]
        if fn and is_sym(fn[0]) and same_name(fn[0], g['prefix']):
            fn = fn[1:]
        if len(fn) < 2 or not isinstance(fn[0], str) or not isinstance(fn[-1], str):
            raise Undecided(f'file name {fn!r}')
        I.prove('an STL file', z3.BoolVal(fn[-1].endswith('.stl')))
        syms = [x for x in fn if not isinstance(x, str)]
        if not all(is_sym(x) and x.sort() == NM for x in syms):
            raise Undecided(f'file name {fn!r}')
        own = [x for x in syms if same_name(x, name)]
        hashed = [x for x in syms if any(h is x and of is not None and same_name(of, name) for h, of in g['hashes'])]
        I.prove('different solids have different files', z3.BoolVal(bool(own and len(syms) == 1 or hashed)))
        if hashed and syms[-1] is not hashed[-1]:
            raise Undecided('hash in front')
        heads.setdefault(what, set()).add(fn[0])
        for x in heads.get('net' if what == 'material' else 'material', ()):
            I.prove('materials and nets have different files', z3.BoolVal(not x.startswith(fn[0]) and not fn[0].startswith(x)))
        if what == 'material':
            return
        for x in syms:
            I.prove('no slash in the file name', z3.Not(SLASH(x)))
        if any('/' in x for x in fn if isinstance(x, str)):
            raise Undecided('a folder')
        if g['limited']:
            I.prove('the file system takes the name', blen(I, StrCat([g['prefix']] + fn)) <= g['max'])
    I.loop_specs = [TraceSpec('solids', lambda I, it: base_tag(it.tag) in ('materials', 'nets'), tr, check)]
    gen = generator(I, tr, materials=MATS, net_names=NETS)
    I.roots = [tr]
    I.call(method(I, gen, 'dump_stl'), [], dict(output_dir_path=g['dir'], prefix=g['prefix']))
    ls = [e[2] for e in tr.events if e[0] == 'loop']
    if len(ls) != len(tr.events):
        raise Undecided('something else happens')
    I.prove('materials and nets', z3.BoolVal(sorted(base_tag(L.it.tag) for L in ls) == ['materials', 'nets']))
    for L in ls:
        I.prove('all of them', zint(L.it.n) == (nm if base_tag(L.it.tag) == 'materials' else nn))


HARNESSES = [('pick', pick), ('facets', facets), ('files', files)]
