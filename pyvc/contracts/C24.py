from .fc import *

ASSUMPTIONS = ['text formatting as documented: "%.12g" gives 12 significant digits, an f-string the text of an int or a name',
               'os.pathconf gives the longest file name (or there is none); the prefix leaves room for a hash',
               'str.replace and str.encode give some text with some length, base64 of an md5 sum at most 24 characters',
               'names in the keys of the interfaces are materials of the model (C22); triangles have an area', 'floats treated as exact']
BLEN = z3.Function('bytes_of', NAME, Z)
DIG = z3.Function('digits', Z, Z)
KOF = z3.Function('k_of', NAME, R)


def parts_of(x):
    ps = x.parts if isinstance(x, StrCat) else (x,)
    out = []
    for p in ps:
        while isinstance(p, Fmt) and p.spec is None and (is_sym(p.v) or isinstance(p.v, (Fmt, StrCat))):
            p = p.v
        if isinstance(p, StrCat):
            out += parts_of(p)
        else:
            out.append(p)
    return out


def blen(I, x):
    n = z3.IntVal(0)
    for p in parts_of(x):
        if isinstance(p, str):
            n = n + len(p.encode('utf-8'))
        elif is_sym(p) and p.sort() == NAME:
            I.assume(BLEN(p) >= 0)
            n = n + BLEN(p)
        elif is_sym(p) and p.sort() == Z:
            I.assume(DIG(p) >= 1)
            n = n + DIG(p)
        else:
            raise Undecided(f'length of {p!r}')
    return n


class Bytes(Model):
    kind = 'Bytes'

    def __init__(self, n, txt=None):
        super().__init__()
        self.n, self.txt = n, txt

    def length(self, I): return self.n

    def getitem(self, I, k):
        if isinstance(k, slice) and k.start in (0, None) and k.stop is not None and k.step is None:
            n = I.fresh('nbytes', Z)
            s = zint(k.stop)
            I.assume(n >= 0, n <= self.n, z3.Implies(s >= 0, n <= s))
            return Bytes(n)
        raise Undecided('bytes')

    def m_decode(self, I, enc='utf-8', errors='strict'):
        if self.txt is not None:
            return self.txt
        t = I.fresh('text', NAME)
        I.assume(BLEN(t) >= 0, BLEN(t) <= self.n)
        return t


class Digest(Model):
    kind = 'Digest'
    def m_digest(self, I): return self
    def m_hexdigest(self, I): return hashed(I, 32)
    def m_decode(self, I, *a): return hashed(I, 24)


def hashed(I, n):
    t = I.fresh('hash', NAME)
    I.assume(BLEN(t) >= 0, BLEN(t) <= n)
    return t


def text_methods(I):
    def meth(I, o, name, a, k):
        if name == 'encode':
            return Bytes(blen(I, o), o)
        if name in ('replace', 'translate', 'rstrip', 'strip'):
            t = I.fresh('text', NAME)
            I.assume(BLEN(t) >= 0)
            if name == 'rstrip' and is_sym(o):
                I.assume(BLEN(t) <= BLEN(o))
            return t
        raise Undecided(f'text {name}')
    I.ghost['strmethod'] = meth
    I.ghost[('attr', 'MName')] = lambda I, o, name: Builtin(name, lambda I, a, k: meth(I, o, name, a, k))
    I.ghost[('len', 'MName')] = lambda n: BLEN(n)
    I.ghost[('truth', 'MName')] = lambda n: True
    for h in ('md5', 'sha1', 'sha256'):
        I.externals['hashlib.' + h] = Builtin(h, lambda I, a, k: Digest())
    for h in ('urlsafe_b64encode', 'b64encode'):
        I.externals['base64.' + h] = Builtin(h, lambda I, a, k: Digest())

    def pathconf(I, a, k):
        if I.branch(I.fresh('windows', B)):
            I.raise_('AttributeError')
        return I.ghost['maxname']
    I.externals['os.pathconf'] = Builtin('pathconf', pathconf)
    I.externals['os.fsencode'] = Builtin('fsencode', lambda I, a, k: Bytes(blen(I, a[0]), a[0]))


class Opt:
    """the (outside, inside, net) names of interface i: a material or none"""
    def __init__(self, w):
        self.has, self.nm = z3.Function(f'has_{w}', Z, B), z3.Function(f'{w}_of', Z, NAME)

    def get(self, I, i): return self.nm(i) if I.branch(self.has(i)) else None


DO, DI, CO = Opt('diel_outside'), Opt('diel_inside'), Opt('cond_outside')
NETOF = z3.Function('net_of', Z, NAME)
DLEN, CLEN = z3.Function('diel_triangles', Z, Z), z3.Function('cond_triangles', Z, Z)
NF = z3.Function('files_so_far', Z, Z)
GN, GS, GNET, GE = z3.Function('group_size', Z, Z), z3.Function('groups_before', Z, Z), z3.Function('group_net', Z, NAME), z3.Function('group_elem', Z, Z, Z)


class Tris(SymSeq):
    def __init__(self, what, i):
        self.what, self.i = what, zint(i)
        super().__init__(('triangles', what), (DLEN if what == 'diel' else CLEN)(self.i), lambda I, t: undec('triangles are looked at'))

    def eq(self, I, o): return self is o


def tris(I, what, i):
    t = Tris(what, i)
    I.assume(t.n >= 0)
    return t


def undec(t): raise Undecided(t)


class KTable(Model):
    kind = 'materials'
    def getitem(self, I, nm):
        if not (is_sym(nm) and nm.sort() == NAME):
            raise Undecided(f'material {nm!r}')
        return KOF(nm)

    def m_get(self, I, nm, d=None): return self.getitem(I, nm)
    def contains(self, I, nm): return True


class Grouped(Model):
    """defaultdict(list) filled by one pass over the conductor interfaces"""
    kind = 'Grouped'

    def __init__(self, g):
        super().__init__()
        self.g, self.new, self.full = g, [], False

    def getitem(self, I, k): return GroupRef(self, k)

    def m_items(self, I):
        if not self.full:
            raise Undecided('not grouped')
        return SymSeq('groups', self.g['ng'], lambda I, j: (GNET(zint(j)), group(I, self.g, zint(j))))

    def snapshot(self): return list(self.new)


def group(I, g, j):
    I.assume(GN(j) >= 1, GS(j) >= 0)

    def elem(I, t):
        i = GE(j, zint(t))
        I.assume(i >= 0, i < g['nc'], CLEN(i) > 0, NETOF(i) == GNET(j))
        return (CO.get(I, i), Tris('cond', i))
    s = SymSeq('group', GN(j), elem)
    s.group = j
    return s


class GroupRef(Model):
    kind = 'GroupRef'

    def __init__(self, o, k):
        super().__init__()
        self.o, self.k = o, k

    def m_append(self, I, x):
        I.note_write(self.o)
        self.o.new.append((self.k, x))


class Grouping(Spec):
    def __init__(self, g):
        super().__init__('grouping', lambda I, it: base_tag(it.tag) == 'cond')
        self.g = g

    def pre(self, I, L):
        L.ghost['d'] = next((o for o in L.written if isinstance(o, Grouped)), None)
        if len(L.written) != (L.ghost['d'] is not None):
            raise Undecided(f'{self.name}: writes {L.written}')

    def havoc(self, I, L, k):
        d = L.ghost['d']
        if d is not None:
            d.new = []
            mark_havoc(L, d)

    def elem_done(self, I, L, k, ctx):
        new = L.ghost['d'].new if L.ghost['d'] is not None else []
        if not new:
            I.prove('an interface with triangles belongs to a group', CLEN(k) <= 0)
            return
        if len(new) != 1:
            raise Undecided('several groups')
        nm, x = new[0]
        nm = parts_of(nm)[0]
        if not is_sym(nm) or nm.sort() != NAME or not isinstance(x, tuple) or len(x) != 2 or not isinstance(x[1], Tris):
            raise Undecided('something else is grouped')
        I.prove('only interfaces with triangles', CLEN(k) > 0)
        I.prove('grouped by net', nm == NETOF(k))
        I.prove('with its triangles', z3.BoolVal(x[1].what == 'cond') if same(x[1].i, k) else x[1].i == k)
        I.prove('and what is outside', z3.Not(CO.has(k)) if x[0] is None else z3.And(CO.has(k), x[0] == CO.nm(k)))

    def after(self, I, L):
        if L.ghost['d'] is not None:
            L.ghost['d'].full = True


class Files(Spec):
    """a pass that writes one file and one line for every interface: the counters are formulas of the position"""

    def __init__(self, g, tr):
        super().__init__('files', lambda I, it: base_tag(it.tag) in ('diel', 'groups', 'group'))
        self.g, self.tr = g, tr

    def pre(self, I, L):
        gh = L.ghost
        gh['tag'] = base_tag(L.it.tag)
        gh['lists'] = [o for o in L.written if isinstance(o, (ListVal, SymList))]
        gh['traced'] = self.tr in L.written
        if len(gh['lists']) + gh['traced'] != len(L.written) or len(gh['lists']) > 1:
            raise Undecided(f'{self.name}: writes {L.written}')
        if gh['lists']:
            o = gh['lists'][0]
            if self.g.setdefault('list', o) is not o:
                raise Undecided('two lists')
            if isinstance(o, ListVal):
                if gh['tag'] != 'diel':
                    raise Undecided('the list starts late')
                self.g['head'] = list(o.items)
        gh['ints'] = [x for x in L.carried() if x in L.assigned and is_num(L.env.lookup(x))]
        gh['role'] = {}
        for x in gh['ints']:
            v = L.env.lookup(x)
            for role in ('file', 'cond'):
                f = self.count(I, L, z3.IntVal(0), role)
                if f is not None and x not in gh['role']:
                    if (x in self.g['roles'] and self.g['roles'][x] == role) or (x not in self.g['roles']):
                        gh['role'][x] = role
            if x not in gh['role']:
                raise Undecided(f'counter {x}')
        if gh['tag'] == 'groups' and len(gh['ints']) == 2:
            # which of the two counts files?  the one the inner loop counts too
            a = set(self.inner_names(L))
            for x in gh['ints']:
                gh['role'][x] = 'file' if x in a else 'cond'
        I.assume(NF(0) == 0, GS(0) == 0)

    def inner_names(self, L):
        import ast
        for n in ast.walk(L.stmt):
            if isinstance(n, ast.For) and n is not L.stmt:
                return [x.target.id for x in ast.walk(n) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)]
        return []

    def outer(self, I): return next((x[2] for x in reversed(I.loop_stack) if x[0] is self and base_tag(x[1].tag) == 'groups'), None)

    def count(self, I, L, k, role):
        g, t = self.g, L.ghost['tag']
        if t == 'diel':
            return NF(k) if role == 'file' else None
        if t == 'groups':
            return g['nfd'] + GS(k) if role == 'file' else g['nfd'] + k
        j = self.outer(I)
        return g['nfd'] + GS(j) + k if role == 'file' else None

    def havoc(self, I, L, k):
        gh = L.ghost
        for x in gh['ints']:
            set_local(L, x, I.fresh(x, Z))
        for o in gh['lists']:
            n = I.fresh('nlines', Z)
            I.assume(n >= 0)
            become_symlist(o, n, lambda I, i: undec('the list is read'), 'lines so far')
        if gh['traced']:
            gh['before'] = list(self.tr.events)
            self.tr.events = [('sofar', self.name)]
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        return [(f'{"files" if r == "file" else "conductors"} are numbered one after the other', zint(L.env.lookup(x)) == self.count(I, L, k, r))
                for x, r in L.ghost['role'].items()]

    def facts(self, I, L, k):
        t = L.ghost['tag']
        if t == 'diel':
            return [NF(k + 1) == NF(k) + z3.If(DLEN(k) > 0, 1, 0), NF(k) >= 0, NF(k + 1) <= self.g['nfd'], NF(k + 1) >= 0]
        if t == 'groups':
            return [GS(k + 1) == GS(k) + GN(k), GN(k) >= 1]
        return []

    def exit_facts(self, I, L, k): return [NF(k) == self.g['nfd']] if L.ghost['tag'] == 'diel' else []

    def elem_done(self, I, L, k, ctx):
        gh, g, t = L.ghost, self.g, L.ghost['tag']
        ev = self.tr.events[1:] if gh['traced'] else []
        if t == 'groups':
            if len(ev) != 1 or ev[0][0] != 'loop' or ev[0][2].ghost['tag'] != 'group' or gh['lists'] and gh['lists'][0].tail:
                raise Undecided('conductors are written in another way')
            I.prove('every interface of the net is written', zint(ev[0][2].it.n) == GN(k))
            I.prove('the loop is over the interfaces of this net', z3.BoolVal(same(getattr(ev[0][2].it, 'group', k), k)))
            return
        lines = gh['lists'][0].tail if gh['lists'] else []
        if t == 'diel':
            if not ev and not lines:
                I.prove('an interface with triangles is written', DLEN(k) <= 0)
                return
            I.prove('only interfaces with triangles', DLEN(k) > 0)
            i, what, num, last = k, 'diel', NF(k) + 1, False
        else:
            j = self.outer(I)
            i, what, num, last = GE(j, k), 'cond', g['nfd'] + j + 1, k == GN(j) - 1
        if [e[0] for e in ev] != ['geo'] or len(lines) != 1:
            I.prove('one file and one line', z3.BoolVal(len([e for e in ev if e[0] == 'geo']) == 1 and len(lines) == 1))
            raise Undecided('written in another way')
        _, path, data, number, name, rename = ev[0]
        p = parts_of(path)
        if len(p) < 3 or not (is_sym(p[0]) and same_name(p[0], g['dir'])) or p[1] != '/' and not str(p[1]).startswith('/'):
            raise Undecided(f'path {path!r}')
        fn = ([p[1][1:]] if p[1] != '/' else []) + p[2:]
        I.prove('the triangles of this interface', z3.And(z3.BoolVal(isinstance(data, Tris) and data.what == what), zint(getattr(data, 'i', -1)) == i))
        I.prove('files carry their number, conductors one number per net', zint(number) == num)
        fileno = NF(k) + 1 if what == 'diel' else g['nfd'] + GS(self.outer(I)) + k + 1
        okname = len(fn) >= 3 and same_name(fn[0], g['prefix']) and is_sym(fn[1]) and fn[1].sort() == Z and isinstance(fn[2], str) and fn[2][:1] in '_- .' \
            and isinstance(fn[-1], str) and fn[-1].endswith('.geo')
        if not okname:
            raise Undecided(f'file name {fn!r}')
        I.prove('file names differ: they have the number of the file', fn[1] == fileno)
        I.prove('the file system takes the name', z3.Or(z3.Not(g['limited']()), blen(I, StrCat(fn)) <= I.ghost['maxname']))
        if what == 'diel':
            I.prove('dielectrics have no name', z3.BoolVal(name is None))
        else:
            nm = parts_of(name)[0] if name is not None else None
            I.prove('the conductor has the name of its net', nm == GNET(self.outer(I)) if is_sym(nm) else z3.BoolVal(False))
            I.prove('the last file of a conductor names it', (I.truth_expr(rename) if not is_sym(rename) else rename) == last)
        line = [x for x in tokens(lines[0])]
        want = ['D ' if what == 'diel' else 'C ', *fn]
        if not (isinstance(line[0], str) and line[0][:2] == want[0] and len(line) > len(fn)):
            raise Undecided(f'line {line!r}')
        line = ([line[0][2:]] if line[0][2:] else []) + line[1:]
        got, rest = line[:len(fn)], line[len(fn):]
        got[-1], tail = got[-1][:got[-1].find('.geo') + 4] if isinstance(got[-1], str) else got[-1], got[-1][got[-1].find('.geo') + 4:] if isinstance(got[-1], str) else ''
        I.prove('the line names the file', z3.BoolVal(len(got) == len(fn) and all(same_name(a, b) for a, b in zip(got, fn))))
        rest = [x for x in tokens(StrCat([tail] + rest)) if x != '']
        ks = [x for x in rest if isinstance(x, Fmt)]
        lit = ''.join(x if isinstance(x, str) else '%' for x in rest).split()
        both = [(DO, 'k of the outside'), (DI, 'k of the inside')] if what == 'diel' else [(CO, 'k of the outside')]
        if len(ks) != len(both):
            raise Undecided(f'line {rest!r}')
        for f, (o, t) in zip(ks, both):
            I.prove(f'{t} to 12 digits', z3.And(z3.BoolVal((digits_of(f.spec) or 0) >= 12),
                                                zreal(f.v) == z3.If(o.has(i), KOF(o.nm(i)), g['void'])))
        if what == 'diel':
            I.prove('offset and reference point', z3.BoolVal(lit == ['%', '%'] + ['0'] * 6))
        else:
            I.prove('offset, and + iff the conductor goes on', z3.And(z3.BoolVal(lit in (['%', '0', '0', '0'], ['%', '0', '0', '0', '+'])), z3.BoolVal(lit[-1] == '+') == z3.Not(last)))

    def after(self, I, L):
        if L.ghost['traced']:
            self.tr.events = L.ghost['before'] + [('loop', self.name, L)]


def same_name(a, b):
    if is_sym(a) and is_sym(b):
        return a.sort() == b.sort() and z3.is_true(z3.simplify(a == b))
    return isinstance(a, str) and a == b


def tokens(x):
    return list(parts_of(x if isinstance(x, StrCat) else StrCat([x])))


def lists(I):
    """requires: interfaces with any numbers of triangles. ensures: for each with triangles exactly one geometry file and one line that names it, with the k
    values of its sides; the interfaces of a net share one number, different nets and files have different ones, a net is joined by + and named in its last
    file; file names are different and not too long"""
    tr = I.ghost['trace'] = Trace()
    g = dict(nd=I.fresh('ndiel', Z), nc=I.fresh('ncond', Z), ng=I.fresh('ngroups', Z), nfd=I.fresh('dielectric_files', Z), void=I.fresh('k_void', R),
             prefix=I.fresh('prefix', NAME), dir=I.fresh('output_dir', NAME), roles={})
    I.assume(g['nd'] >= 0, g['nc'] >= 0, g['ng'] >= 0, g['nfd'] >= 0)
    mx = I.ghost['maxname'] = I.fresh('longest_name', Z)
    lim = []
    g['limited'] = lambda: z3.BoolVal(bool(lim))
    text_methods(I)
    inner = I.externals['os.pathconf']
    I.externals['os.pathconf'] = Builtin('pathconf', lambda I, a, k: (lambda r: (lim.append(1), r)[1])(inner.fn(I, a, k)))
    # room for the prefix, the number, the outside and a hash
    def room(x):
        I.assume(mx >= 120 + BLEN(g['prefix']) + DIG(x))
    install_out_file(I, tr)
    install_join(I)
    gen_cls = I.repo(GEN, 'FasterCapModelGenerator')
    I.ghost['defaultdict'] = lambda I, f: Grouped(g)

    def dkey(I, i):
        i = zint(i)
        return Obj(I.repo(GEN, 'HDielKey'), dict(outside=DO.get(I, i), inside=DI.get(I, i)))

    def ckey(I, i):
        i = zint(i)
        return Obj(I.repo(GEN, 'HCondKey'), dict(net_name=NETOF(i), outside=CO.get(I, i)))
    diel = SymDict('diel', g['nd'], dkey, lambda I, i: tris(I, 'diel', i), unique=True)
    cond = SymDict('cond', g['nc'], ckey, lambda I, i: tris(I, 'cond', i), unique=True)

    def geo(I, a, kw):
        d = dict(zip(('output_path', 'data', 'cond_number', 'cond_name', 'rename_conductor'), [x for x in a if not isinstance(x, Obj)]))
        d.update(kw)
        # short parts: what the file system can take at all
        fn = parts_of(d['output_path'])
        for p in fn:
            if is_sym(p) and p.sort() == Z:
                room(p)
            elif is_sym(p) and p.sort() == NAME and p.num_args() == 1 and str(p.decl()) in ('cond_outside_of', 'diel_outside_of', 'diel_inside_of'):
                I.assume(BLEN(p) <= 20)
        tr.emit(I, 'geo', *[d[x] for x in ('output_path', 'data', 'cond_number', 'cond_name', 'rename_conductor')])
    I.contracts[GEN + ':FasterCapModelGenerator._write_fastercap_geo'] = geo
    I.roots = [tr]
    gen = Obj(gen_cls, dict(dbu=I.fresh('dbu', R), k_void=g['void'], materials=KTable(), diel_data=diel, cond_data=cond))
    I.loop_specs = [Grouping(g), Files(g, tr)]
    f = I.repo(GEN, 'FasterCapModelGenerator.write_fastcap')
    r = I.call(BoundMethod(f[1] if isinstance(f, tuple) else f, gen), [], dict(output_dir_path=g['dir'], prefix=g['prefix']))
    ev = list(tr.events)
    ls = [e[2].ghost['tag'] for e in ev if e[0] == 'loop']
    I.prove('dielectrics, then conductors', z3.BoolVal(ls == ['diel', 'groups']))
    L = [e[2] for e in ev if e[0] == 'loop']
    I.prove('all interfaces', z3.And(zint(L[0].it.n) == g['nd'], zint(L[1].it.n) == g['ng']))
    op = [e for e in ev if e[0] == 'open']
    I.prove('the list is what is returned', z3.BoolVal(len(op) == 1 and len(parts_of(op[0][1])) == len(parts_of(r)) and
                                                     all(same_name(a, b) for a, b in zip(parts_of(op[0][1]), parts_of(r)))))
    t = text_of([e for e in ev if e[0] == 'w'])
    j = [x for x in t if isinstance(x, Joined)]
    I.prove('the list has the lines', z3.BoolVal(len(j) == 1 and j[0].sep == '\n' and j[0].it.base is g.get('list') and t[-1] == '\n'))
    I.prove('it starts with a comment', z3.BoolVal(len(g['head']) == 1 and str(tokens(g['head'][0])[0]).startswith('*')))


# ---------------------------------------------------------------- geometry files
PX = [[z3.Function(f'p{i}{c}', Z, R) for c in 'xyz'] for i in range(3)]


def geo(I):
    """requires: triangles with an area. ensures: one T line per triangle, in order, with its number, its points and a reference point, to 12 digits;
    the reference point lies on the side the normal points to; N line iff a name is given and this is the file that renames"""
    tr = I.ghost['trace'] = Trace()
    install_out_file(I, tr)
    install_join(I)
    n = I.fresh('ntriangles', Z)
    I.assume(n >= 0)
    num = I.fresh('number', Z)
    P, T = I.repo(GEN, 'Point'), I.repo(GEN, 'Triangle')

    def cross(k):
        q = [[PX[i][c](k) for c in range(3)] for i in range(3)]
        u, v = [[q[i][c] - q[0][c] for c in range(3)] for i in (1, 2)]
        return q, (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])

    def tri(I, k):
        k = zint(k)
        _, c = cross(k)
        I.ghost['sq'] = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
        return Obj(T, {f'p{i}': Obj(P, {x: PX[i][c](k) for c, x in enumerate('xyz')}) for i in range(3)})

    def check(I, L, k, ev):
        t = tokens(StrCat([e[1] for e in ev if e[0] == 'w']))
        lit = ''.join(x if isinstance(x, str) else '%' for x in t)
        nums = [x for x in t if not isinstance(x, str)]
        I.prove('one T line', z3.BoolVal(lit.split(' ') == ['T'] + ['%'] * 12 + ['%\n'] or lit.split() == ['T'] + ['%'] * 13 and lit.endswith('\n') and lit.count('\n') == 1))
        if len(nums) != 13:
            raise Undecided('line')
        I.prove('its number', zint(nums[0] if not isinstance(nums[0], Fmt) else nums[0].v) == num)
        if not all(isinstance(x, Fmt) for x in nums[1:]):
            raise Undecided('coordinates')
        I.prove('12 digits', z3.BoolVal(all((digits_of(x.spec) or 0) >= 12 for x in nums[1:])))
        q, c = cross(k)
        I.prove('its points', z3.And(*[zreal(x.v) == y for x, y in zip(nums[1:10], q[0] + q[1] + q[2])]))
        r = [zreal(x.v) for x in nums[10:]]
        sq = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
        roots = [x for x in I.ghost.get('roots', [])]
        if len(roots) != 1:
            raise Undecided('normal')
        s = roots[0][1]
        for x, y, z in zip(r, q[0], c):
            I.prove('the reference point is one unit from the triangle along its normal', (x - y) * s == z)
    I.ghost['roots'] = []

    def sqrt(I, a, k):
        x, s = zreal(a[0]), I.fresh('root', R)
        if 'sq' in I.ghost:     # of a triangle with an area
            d = z3.simplify(x - I.ghost['sq'], som=True)
            if not (z3.is_rational_value(d) and d.as_fraction() == 0):
                I.prove('the length of the normal', x == I.ghost['sq'])
            I.assume(s > 0)
        else:
            I.assume(s >= 0, s * s == x, (s > 0) == (x > 0))
        I.ghost['roots'].append((x, s))
        return s
    I.externals['math.sqrt'] = Builtin('sqrt', sqrt)
    named = I.branch(I.fresh('named', B))
    name = I.fresh('name', NAME) if named else None
    I.ghost[('truth', 'MName')] = lambda n: True
    ren = I.fresh('rename', B)
    I.loop_specs = [TraceSpec('triangles', lambda I, it: base_tag(it.tag) == 'triangles', tr, check)]
    f = I.repo(GEN, 'FasterCapModelGenerator._write_fastercap_geo')
    f = f[1] if isinstance(f, tuple) else f
    I.roots = [tr]
    path = I.fresh('path', NAME)
    I.call(f, [], dict(output_path=path, data=SymSeq('triangles', n, tri), cond_number=num, cond_name=name, rename_conductor=ren))
    ev = list(tr.events)
    at = [i for i, e in enumerate(ev) if e[0] == 'loop']
    op = [e for e in ev if e[0] == 'open']
    I.prove('writes the file it was given', z3.BoolVal(len(op) == 1 and same_name(op[0][1], path)))
    I.prove('all triangles', z3.And(z3.BoolVal(len(at) == 1), zint(ev[at[0]][2].it.n) == n))
    I.prove('header', z3.BoolVal(''.join(map(str, text_of(ev[:at[0]]))) == '0 GEO File\n'))
    t = tokens(StrCat(text_of(ev[at[0] + 1:])))
    if not t or t == ['']:
        I.prove('a conductor is named in its last file', z3.Not(z3.And(z3.BoolVal(named), ren)))
    else:
        I.prove('only a conductor is named, in its last file', z3.And(z3.BoolVal(named), ren))
        I.prove('the rule gives number and name', z3.BoolVal(len(t) == 5 and t[0] == 'N ' and t[2] == ' ' and t[4] == '\n' and named and same_name(t[1], num) and same_name(t[3], name)))



HARNESSES = [('lists', lists), ('geo', geo)]
