"""contracts for the FasterCap model: what is put in, how surfaces become triangles"""
from .fc import *
from .C24 import Opt, parts_of, same_name

NM = NAME


def undec(t): raise Undecided(t)


class Bags(Model):
    """dict from keys to growing lists (or regions); may hold anything before.  What is added goes to the trace: (event, key, how, what)"""
    kind = 'Bags'

    def __init__(self, name, tr, sig, fresh_value):
        super().__init__()
        self.name, self.tr, self.sig, self.fresh_value, self.known = name, tr, sig, fresh_value, []

    def entry(self, I, k):
        s = self.sig(k)
        for t, b in self.known:
            if sig_same(s, t):
                return b
        for t, b in self.known:
            if sig_may(I, s, t):
                raise Undecided('two keys that may be the same')
        b = Bag(self, k, s, I.fresh('there', B))
        self.known.append((s, b))
        return b

    def contains(self, I, k):
        b = self.entry(I, k)
        return True if b.made else b.there

    def getitem(self, I, k):
        b = self.entry(I, k)
        if not b.made:
            I.guard(b.there, 'KeyError')
        return b

    def m_get(self, I, k, d=None):
        b = self.entry(I, k)
        if b.made or I.branch(b.there):
            return b
        return d

    def setitem(self, I, k, v):
        b = self.entry(I, k)
        if v is b:
            return
        if not self.fresh_value(v):
            raise Undecided(f'{self.name}: {v!r} is stored')
        I.note_write(self)
        I.prove('nothing that is there is lost', z3.Not(zbool(b.made or b.there)))
        b.made = True
        if isinstance(v, ListVal):
            for x in v.items:
                self.tr.emit(I, self.name, b, 'one', x)

    def m_setdefault(self, I, k, d=None):
        b = self.entry(I, k)
        if not b.made and not I.branch(b.there):
            self.setitem(I, k, d)
        return b

    def snapshot(self): return [(s, b, b.made) for s, b in self.known]


class Bag(Model):
    """a list or region in a dict: only grows"""
    kind = 'Bag'

    def __init__(self, o, key, sig, there):
        super().__init__()
        self.o, self.key, self.sig, self.there, self.made = o, key, sig, there, False

    def m_append(self, I, x): self.o.tr.emit(I, self.o.name, self, 'one', x)
    def m_insert(self, I, x): self.o.tr.emit(I, self.o.name, self, 'one', x)

    def m_extend(self, I, xs):
        it = I.iterate(xs)
        if isinstance(it, list):
            for x in it:
                self.m_append(I, x)
        else:
            self.o.tr.emit(I, self.o.name, self, 'all', xs)

    def inplace(self, I, op, x):
        if op != 'Add':
            raise Undecided(f'{op} on a list')
        self.m_extend(I, x)
        return self

    def eq(self, I, o): return self is o


def sig_same(a, b):
    return type(a) is type(b) and (all(sig_same(x, y) for x, y in zip(a, b)) and len(a) == len(b) if isinstance(a, tuple) else
                                   (a.sort() == b.sort() and z3.is_true(z3.simplify(a == b))) if is_sym(a) else
                                   same_name(a, b) if isinstance(a, str) else a is b or a == b)


def sig_may(I, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(sig_may(I, x, y) for x, y in zip(a, b))
    if is_sym(a) and is_sym(b):
        return a.sort() == b.sort() and I._check(a == b) != z3.unsat
    if is_sym(a) or is_sym(b):
        return True
    return a == b if isinstance(a, (str, type(None))) else a is b


def keysig(k):
    """HDielKey / HCondKey / VKey / names as comparable tuples"""
    if isinstance(k, Obj):
        return (k.cls.name,) + tuple(keysig(k.fields[f]) for f in ('net_name', 'outside', 'inside', 'kk', 'p0', 'de') if f in k.fields)
    if isinstance(k, Fmt):
        return keysig(k.v)
    if isinstance(k, StrCat):
        return tuple(keysig(x) for x in parts_of(k))
    if isinstance(k, DVec):
        return (k.kind, k.x, k.y)
    return k


# ---------------------------------------------------------------- points and vectors of KLayout
class DVec(Model):
    """kdb.Point / DPoint / Vector / DVector with exact coordinates; operations of the integer classes round their operands"""

    def __init__(self, kind, x, y):
        super().__init__()
        self.kind, self.x, self.y = kind, x, y

    def __repr__(self): return f'<{self.kind} {self.x},{self.y}>'
    def a_x(self, I): return self.x
    def a_y(self, I): return self.y

    def getattr(self, I, name):
        if name in ('x', 'y'):
            return getattr(self, name)
        return super().getattr(I, name)

    @property
    def real(self): return self.kind[0] == 'D'
    @property
    def point(self): return self.kind.endswith('Point')

    def as_int(self, o):
        """operand of an integer class: rounded"""
        if not o.real:
            return o
        return DVec(o.kind[1:], z3.ToInt(zreal(o.x) + z3.RealVal('1/2')), z3.ToInt(zreal(o.y) + z3.RealVal('1/2')))

    def binop(self, I, op, o, refl):
        if op == 'Mult' and not isinstance(o, DVec):
            if not self.real and not is_intlike(o):
                # kdb.Vector * float is a DVector, kdb.Point * float a DPoint
                return DVec('D' + self.kind, zreal(self.x) * zreal(o), zreal(self.y) * zreal(o))
            f = zreal if self.real else zint
            return DVec(self.kind, f(self.x) * f(o), f(self.y) * f(o))
        if not isinstance(o, DVec) or refl:
            raise Undecided(f'{self.kind} {op}')
        if not self.real:
            o = self.as_int(o)
        f = zreal if self.real else zint
        d = 'D' if self.real else ''
        if op == 'Add' and not (self.point and o.point):
            return DVec(d + ('Point' if self.point or o.point else 'Vector'), f(self.x) + f(o.x), f(self.y) + f(o.y))
        if op == 'Sub' and (self.point or not o.point):
            return DVec(d + ('Vector' if self.point == o.point else 'Point'), f(self.x) - f(o.x), f(self.y) - f(o.y))
        raise Undecided(f'{self.kind} {op} {o.kind}')

    def m_sprod(self, I, o):
        if not isinstance(o, DVec):
            raise Undecided('sprod')
        if not self.real:
            o = self.as_int(o)
        f = zreal if self.real else zint
        return f(self.x) * f(o.x) + f(self.y) * f(o.y)

    def m_vprod(self, I, o):
        if not isinstance(o, DVec):
            raise Undecided('vprod')
        if not self.real:
            o = self.as_int(o)
        f = zreal if self.real else zint
        return f(self.x) * f(o.y) - f(self.y) * f(o.x)

    def m_sq_length(self, I): return self.x * self.x + self.y * self.y
    def m_to_dtype(self, I, dbu=1): return DVec('D' + self.kind, zreal(self.x) * zreal(dbu), zreal(self.y) * zreal(dbu))
    def eq(self, I, o): return isinstance(o, DVec) and z3.And(self.x == o.x, self.y == o.y)


def install_points(I):
    for kind in ('Point', 'DPoint', 'Vector', 'DVector'):
        def ctor(I, a, k, kind=kind):
            f = zreal if kind[0] == 'D' else zint
            if not a:
                return DVec(kind, f(0), f(0))
            if len(a) == 2:
                return DVec(kind, f(a[0]), f(a[1]))
            if len(a) == 1 and isinstance(a[0], DVec):
                v = a[0] if kind[0] == 'D' else a[0].as_int(a[0])
                return DVec(kind, f(v.x), f(v.y))
            raise Undecided(kind)
        I.externals['klayout.db.' + kind] = Builtin(kind, ctor)


# ---------------------------------------------------------------- triangles
TX = [[z3.Function(f't{i}{c}', Z, Z) for c in 'xy'] for i in range(3)]


class Cover(Model):
    """a Region to be cut into triangles"""
    kind = 'Region'

    def __init__(self, tr, n):
        super().__init__()
        self.tr, self.n = tr, n

    def m_delaunay(self, I, *a, **k):
        if len(a) != 2:
            raise Undecided('delaunay')
        self.tr.emit(I, 'delaunay', self, *a)

        def tri(I, i):
            i = zint(i)

            class Tri(Model):
                kind = 'Polygon'
                def m_each_point_hull(self, I): return ListVal([DVec('Point', TX[j][0](i), TX[j][1](i)) for j in range(3)])
                def m_each_point(self, I): return self.m_each_point_hull(I)
            return Tri()
        return SymSeq('cut', self.n, tri)

    def m_dup(self, I): return self
    def m_merged(self, I): return self
    def m_is_empty(self, I): return self.n == 0


def hull(I, o):
    """the 3 x 3 coordinates of a Triangle object"""
    if not (isinstance(o, Obj) and o.cls.name == 'Triangle'):
        raise Undecided(f'no triangle: {o!r}')
    return [[zreal(o.fields[f'p{i}'].fields[c]) for c in 'xyz'] for i in range(3)]


def is_triangle(got, want):
    """the same triangle, seen from the same side: the points in this order, starting with any"""
    return z3.Or(*[z3.And(*[a == b for i in range(3) for a, b in zip(got[(i + s) % 3], want[i])]) for s in range(3)])


class Cutting(Spec):
    """over the triangles of a region: each gives one triangle of the model"""

    def __init__(self, tr, want, ok):
        super().__init__('triangles', lambda I, it: base_tag(it.tag) == 'cut')
        self.tr, self.want, self.ok = tr, want, ok

    def pre(self, I, L):
        # the triangles go straight into the model, or into a list (or several) first
        L.ghost['lists'] = [o for o in L.written if isinstance(o, ListVal)]
        if any(o is not self.tr and o not in L.ghost['lists'] for o in L.written) or len(L.ghost['lists']) > 1:
            raise Undecided(f'{self.name}: writes {L.written}')
        if any(o.items for o in L.ghost['lists']):
            raise Undecided('a list that is not empty')

    def havoc(self, I, L, k):
        L.ghost['before'] = list(self.tr.events)
        self.tr.events = [('sofar', self.name)]
        for o in L.ghost['lists']:
            become_symlist(o, k, lambda I, i: undec('the list is read'), ('triangles of', id(L.it)))
        mark_havoc(L, *L.written)

    def elem_done(self, I, L, k, ctx):
        ev = self.tr.events[1:]
        for o in L.ghost['lists']:
            ev += [('list', o, 'one', x) for x in o.tail]
        I.prove('one triangle of the model for each', z3.BoolVal(len(ev) == 1 and ev[0][2] == 'one'))
        if ev[0][0] != 'list':
            self.ok(I, ev[0])
        I.prove('its points, in real coordinates, and its normal', is_triangle(hull(I, ev[0][3]), self.want(I, k)))

    def on_break(self, I, L, k): raise Undecided('triangles are left out')

    def after(self, I, L):
        self.tr.events = L.ghost['before']
        if L.ghost['lists']:
            o = L.ghost['lists'][0]
            become_symlist(o, zint(L.it.n), lambda I, i: undec('the list is read'), ('triangles of', id(L.it)))
            o.cut = True
        else:
            self.tr.emit(I, 'loop', self.name, L)


def surface_of(I, tr, n, want, ok):
    """afterwards: the region has been cut once and every triangle is in the model, once"""
    ev = list(tr.events)
    cuts = [e for e in ev if e[0] == 'delaunay']
    I.prove('the surface is cut into triangles once', z3.BoolVal(len(cuts) == 1))
    rest = [e for e in ev if e[0] != 'delaunay']
    I.prove('its triangles go into the model once', z3.BoolVal(len(rest) == 1))
    e = rest[0]
    if e[0] == 'loop':
        I.prove('all of them', zint(e[2].it.n) == n)
    elif e[2] == 'all':
        ok(I, e)
        I.prove('all of them', zint(unfiltered(I, I.iterate(e[3])).n) == n)
        if not getattr(e[3], 'cut', False):
            k = I.fresh('some_triangle', Z)
            I.assume(k >= 0, k < n)
            I.prove('its points, in real coordinates, and its normal', is_triangle(hull(I, I.iterate(e[3]).elem(I, k)), want(I, k)))
    else:
        raise Undecided(f'{e}')
    return cuts[0]


def generator(I, tr, **fields):
    g = dict(dbu=I.fresh('dbu', R), z=I.fresh('z', R), zz=I.fresh('zz', R), delaunay_amax=I.fresh('amax', R), delaunay_b=I.fresh('b', R), k_void=I.fresh('k_void', R))
    I.assume(g['dbu'] > 0)
    g.update(fields)
    return Obj(I.repo(GEN, 'FasterCapModelGenerator'), g)


def method(I, gen, name):
    f = I.repo(GEN, 'FasterCapModelGenerator.' + name)
    f = f[1] if isinstance(f, tuple) else f
    return BoundMethod(f, gen)


def some_name(I, what):
    """a name, or none"""
    return I.fresh(what, NM) if I.branch(I.fresh('has_' + what, B)) else None


def names_eq(a, b): return (a is None and b is None) or (a is not None and b is not None and same_name(parts_of(a)[0], parts_of(b)[0]))


def key_is(k, cls, **f): return isinstance(k, Obj) and k.cls.name == cls and all(names_eq(k.fields[x], v) for x, v in f.items())


def parameters(I, gen, cut):
    g = gen.fields
    I.prove('the maximum area is in square units of the layout', zreal(cut[2]) * g['dbu'] * g['dbu'] == g['delaunay_amax'])
    I.prove('the minimum angle is as set', zreal(cut[3]) == g['delaunay_b'])


def horizontal(I):
    """requires: a horizontal surface at the current height. ensures: every triangle it is cut into is in the model once, filed under what is below and above,
    at that height, in real coordinates, its normal downwards (dielectrics, bottoms) or upwards (tops); what was there stays"""
    tr = I.ghost['trace'] = Trace()
    I.ghost[('truth', 'MName')] = lambda n: True
    which = I.choose(3)
    fn, kind, bag = [('generate_hdiel', 'HDielKey', 'diel_data'), ('generate_hcond_in', 'HCondKey', 'cond_data'), ('generate_hcond_out', 'HCondKey', 'cond_data')][which]
    data = Bags(bag, tr, keysig, lambda v: isinstance(v, ListVal))
    gen = generator(I, tr, **{bag: data})
    g = gen.fields
    n = I.fresh('ntriangles', Z)
    I.assume(n >= 0)
    layer = Cover(tr, n)
    I.roots = [tr, data, gen]
    a, b = some_name(I, 'below'), some_name(I, 'above')
    net = I.fresh('net', NM)
    kw = [dict(below=a, above=b), dict(net_name=net, below=a), dict(net_name=net, above=b)][which]
    want_key = [dict(outside=a, inside=b), dict(net_name=net, outside=a), dict(net_name=net, outside=b)][which]

    def want(I, k):
        p = [[zreal(TX[i][0](k)) * g['dbu'], zreal(TX[i][1](k)) * g['dbu'], zreal(g['z'])] for i in range(3)]
        return p[::-1] if which == 2 else p

    def ok(I, e):
        I.prove('filed under what is on its sides', z3.BoolVal(e[0] == bag and key_is(e[1].key, kind, **want_key)))
    I.loop_specs = [Cutting(tr, want, ok)]
    I.call(method(I, gen, fn), [], dict(kw, layer=layer))
    parameters(I, gen, surface_of(I, tr, n, want, ok))


def lifted(I, p0, de, dbu, x, y):
    """the point (x along the wall, y up) of a vertical plane"""
    return [(p0.x + de.x * zreal(x)) * dbu, (p0.y + de.y * zreal(x)) * dbu, zreal(y) * dbu]


def upright(I):
    """ensures: triangulate gives every triangle of a vertical surface once: its points carried over from the plane (along the direction from the origin of the
    plane, and up), in real coordinates, in their order - so that the normal is on the left of the direction"""
    tr = I.ghost['trace'] = Trace()
    install_points(I)
    gen = generator(I, tr)
    n = I.fresh('ntriangles', Z)
    I.assume(n >= 0)
    reg = Cover(tr, n)
    data = Bag(Bags('data', tr, keysig, lambda v: False), None, None, z3.BoolVal(True))
    I.roots = [tr, gen]
    p0, de = DVec('DPoint', I.fresh('x0', R), I.fresh('y0', R)), DVec('DVector', I.fresh('dx', R), I.fresh('dy', R))

    def want(I, k): return [lifted(I, p0, de, gen.fields['dbu'], TX[i][0](k), TX[i][1](k)) for i in range(3)]

    def ok(I, e): I.prove('into the list that was given', z3.BoolVal(e[1] is data))
    I.loop_specs = [Cutting(tr, want, ok)]
    I.call(method(I, gen, 'triangulate'), [], dict(p0=p0, de=de, region=reg, data=data))
    parameters(I, gen, surface_of(I, tr, n, want, ok))


class EdgeM(Model):
    kind = 'Edge'

    def __init__(self, p1, p2, degenerate=None):
        super().__init__()
        self.p1, self.p2, self.deg = p1, p2, degenerate

    def getattr(self, I, name):
        if name in ('p1', 'p2'):
            return getattr(self, name)
        if name in ('x1', 'y1', 'x2', 'y2'):
            return getattr(getattr(self, 'p' + name[1]), name[0])
        return super().getattr(I, name)

    def m_d(self, I): return DVec('Vector', self.p2.x - self.p1.x, self.p2.y - self.p1.y)
    def m_dx(self, I): return self.p2.x - self.p1.x
    def m_dy(self, I): return self.p2.y - self.p1.y
    def m_sq_length(self, I): return self.m_d(I).m_sq_length(I)
    def m_is_degenerate(self, I): return self.deg if self.deg is not None else z3.And(self.p1.x == self.p2.x, self.p1.y == self.p2.y)


class Rect(Model):
    kind = 'Box'

    def __init__(self, c):
        super().__init__()
        self.c = c


def wall(I):
    """requires: an edge of some length, a level below and this one. ensures: the wall is the rectangle from the start to the end of the edge (to the grid) and
    between the heights of both levels, in the vertical plane through the edge: origin plus direction times distance gives the ends of the edge"""
    I.ghost['trace'] = Trace()
    I.ghost[('truth', 'MName')] = lambda n: True
    install_points(I)
    c = [I.fresh(x, Z) for x in ('x1', 'y1', 'x2', 'y2')]
    e = EdgeM(DVec('Point', c[0], c[1]), DVec('Point', c[2], c[3]))
    dx, dy = zreal(c[2] - c[0]), zreal(c[3] - c[1])
    I.assume(z3.Or(c[0] != c[2], c[1] != c[3]))
    el, u, v = [I.fresh(x, R) for x in ('length', 'u', 'v')]
    I.assume(el > 0, u * el == dx, v * el == dy, u * u + v * v == 1)
    gen = generator(I, None)
    g = gen.fields
    I.roots = [gen]

    def sqrt(I, a, k):
        x = zreal(a[0])
        d = z3.simplify(x - (dx * dx + dy * dy), som=True)
        if not (z3.is_rational_value(d) and d.as_fraction() == 0):
            raise Undecided('square root of something else')
        return el
    I.externals['math.sqrt'] = Builtin('sqrt', sqrt)
    I.externals['klayout.db.Box'] = Builtin('Box', lambda I, a, k: Rect(list(a)) if len(a) == 4 else undec('box'))
    div = {}
    kk = Obj(I.repo(GEN, 'HDielKey'), dict(outside=None, inside=I.fresh('inside', NM)))
    # division by the length of the edge gives its unit direction
    arith = I.arith

    def ar(op, a, b):
        if op == 'Div' and b is el:
            x = zreal(a)
            for s in (1, -1):
                for d, w in ((dx, u), (dy, v)):
                    z = z3.simplify(x - s * d, som=True)
                    if z3.is_rational_value(z) and z.as_fraction() == 0:
                        return w * s
        return arith(op, a, b)
    I.arith = ar
    try:
        r = I.call(method(I, gen, 'generate_v_surface'), [], dict(kk=kk, edge=e))
    finally:
        I.arith = arith
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], Obj) and r[0].cls.name == 'VKey' and isinstance(r[1], Rect)):
        raise Undecided('result')
    k, box = r
    I.prove('filed under what is on its sides', z3.BoolVal(k.fields['kk'] is kk))
    p0, de = k.fields['p0'], k.fields['de']
    if not (isinstance(p0, DVec) and p0.kind == 'DPoint' and isinstance(de, DVec) and de.kind == 'DVector'):
        raise Undecided('plane')
    I.prove('the direction is that of the edge', z3.And(de.x == u, de.y == v))
    half = z3.RealVal('1/2')
    for i, (x, y) in enumerate(((c[0], c[1]), (c[2], c[3]))):
        x, y = zreal(x), zreal(y)
        # the distance of the end of the edge along the direction, from the origin of the plane
        along = x * u + y * v
        off = p0.x * u + p0.y * v
        at = zreal(box.c[2 * i])
        name = ('start', 'end')[i]
        for a, b, w in ((p0.x, x, u), (p0.y, y, v)):
            I.prove(f'the {name} of the edge is in the plane', lin(I, a + w * (along - off) - b, [(u, v, dx, dy, el, c)]))
        cl = closest(I, at, along - off)
        I.prove(f'the wall reaches from start to end of the edge (to half a unit): {name}', cl)
    for i, z in ((1, 'z'), (3, 'zz')):
        h = zreal(g[z]) / g['dbu']
        I.prove(f'and from the level before to this one (to half a unit): {z}', z3.And(zreal(box.c[i]) - h <= half, h - zreal(box.c[i]) <= half))


def poly_zero(x):
    d = z3.simplify(x, som=True)
    return z3.is_rational_value(d) and d.as_fraction() == 0


def lin(I, x, ctx):
    """x == 0, given u*u + v*v == 1, u*el == x2 - x1 and v*el == y2 - y1 (as one identity of polynomials)"""
    (u, v, dx, dy, el, c), = ctx
    one = u * u + v * v
    # x is homogeneous of degree 2 in (u, v) but for the coordinates: give those the missing degree
    x1, y1 = zreal(c[0]), zreal(c[1])
    x2, y2 = x1 + u * el, y1 + v * el
    y = z3.substitute(x, (zreal(c[2]), x2), (zreal(c[3]), y2))
    for t in (zreal(0), x1, y1, x2, y2, -x1, -y1, -x2, -y2):
        if poly_zero(y + t - t * one) or poly_zero(y):
            # y == t * (u*u + v*v - 1)
            return z3.BoolVal(True)
    return x == 0


def closest(I, at, want):
    """|at - want| <= 1/2; at is floor(y + 1/2) with y equal to want as a polynomial"""
    half = z3.RealVal('1/2')
    t = at
    if t.decl().kind() == z3.Z3_OP_TO_REAL:
        t = t.arg(0)
    if t.decl().kind() == z3.Z3_OP_TO_INT and poly_zero(t.arg(0) - half - want):
        w = I.fresh('along', R)
        return z3.Implies(zreal(z3.ToInt(w + half)) == zreal(z3.ToInt(w + half)), z3.And(zreal(z3.ToInt(w + half)) - w <= half, w - zreal(z3.ToInt(w + half)) <= half))
    return z3.And(at - want <= half, want - at <= half)


def side(I):
    """ensures: generate_vdiel / generate_vcond add the wall of an edge once to the surface in its plane, filed under what is inside and outside; edges without
    length have none; what was there stays"""
    tr = I.ghost['trace'] = Trace()
    I.ghost[('truth', 'MName')] = lambda n: True
    install_points(I)
    which = I.choose(2)
    fn, kind, bag = [('generate_vdiel', 'HDielKey', 'diel_vdata'), ('generate_vcond', 'HCondKey', 'cond_vdata')][which]

    class Empty(Model):
        kind = 'Region'
    I.externals['klayout.db.Region'] = Builtin('Region', lambda I, a, k: Empty() if not a or isinstance(a[0], ListVal) and not a[0].items else undec('region'))
    data = Bags(bag, tr, keysig, lambda v: isinstance(v, Empty))
    gen = generator(I, tr, **{bag: data})
    I.roots = [tr, data, gen]
    deg = I.fresh('no_length', B)
    e = EdgeM(None, None, deg)
    plane = (DVec('DPoint', I.fresh('x0', R), I.fresh('y0', R)), DVec('DVector', I.fresh('dx', R), I.fresh('dy', R)))
    surf = Rect(None)

    def con(I, a, kw):
        d = dict(zip(('kk', 'edge'), a[1:]))
        d.update(kw)
        I.prove('the wall of this edge', z3.BoolVal(d['edge'] is e))
        I.prove('which has a length', z3.Not(deg))
        return (Obj(I.repo(GEN, 'VKey'), dict(kk=d['kk'], p0=plane[0], de=plane[1])), surf)
    I.contracts[GEN + ':FasterCapModelGenerator.generate_v_surface'] = con
    o = some_name(I, 'outside')
    i = some_name(I, 'inside') if which == 0 else I.fresh('net', NM)
    kw = [dict(outside=o, inside=i), dict(net_name=i, outside=o)][which]
    I.call(method(I, gen, fn), [], dict(kw, edge=e))
    ev = list(tr.events)
    if not ev:
        I.prove('only edges without length have no wall', deg)
        return
    I.prove('one wall', z3.And(z3.Not(deg), z3.BoolVal(len(ev) == 1 and ev[0][0] == bag and ev[0][2] == 'one' and ev[0][3] is surf)))
    k = ev[0][1].key
    I.prove('in its plane, filed under what is on its sides',
            z3.BoolVal(isinstance(k, Obj) and k.cls.name == 'VKey' and key_is(k.fields['kk'], kind, **kw) and k.fields['p0'] is plane[0] and k.fields['de'] is plane[1]))


# ---------------------------------------------------------------- the model is complete
DO, DI = Opt('diel_outside'), Opt('diel_inside')
TLEN = z3.Function('triangles_of', Z, Z)
FX = [[z3.Function(f'f{i}{c}', Z, Z, R) for c in 'xyz'] for i in range(3)]
REV = z3.Function('reverse_of', Z, Z)


def which_key(k):
    """(index of the interface, seen from the other side?) of an HDielKey"""
    if not (isinstance(k, Obj) and k.cls.name == 'HDielKey'):
        raise Undecided(f'key {k!r}')
    for f, back in (('outside', False), ('inside', True)):
        x = k.fields[f]
        if x is None:
            continue
        x = parts_of(x)[0]
        if is_sym(x) and x.num_args() == 1 and str(x.decl()) in ('diel_outside_of', 'diel_inside_of'):
            o = str(x.decl()) == 'diel_outside_of'
            return x.arg(0), o == back
    raise Undecided(f'key {k!r}')


class Tri(Model):
    """triangle t of interface i"""
    kind = 'Triangle'


def tri_obj(I, i, t):
    P, T = I.repo(GEN, 'Point'), I.repo(GEN, 'Triangle')
    return Obj(T, {f'p{j}': Obj(P, {c: FX[j][x](zint(i), zint(t)) for x, c in enumerate('xyz')}) for j in range(3)})


def listed(I, i):
    i = zint(i)
    I.assume(TLEN(i) >= 0)
    s = SymSeq(('tris', str(i)), TLEN(i), lambda I, t: tri_obj(I, i, t))
    s.iface = i
    return s


class Combined(Model):
    """the dictionary of dielectric interfaces that is put together: of two that are the reverse of each other one stays"""
    kind = 'Combined'

    def __init__(self, tr, m):
        super().__init__()
        self.tr, self.m, self.has, self.new = tr, m, lambda i: z3.BoolVal(False), []

    def there(self, i):
        r = self.has(i)
        for j in self.new:
            r = z3.Or(r, i == j)
        return r

    def contains(self, I, k):
        i, back = which_key(k)
        if back:
            return z3.And(REV(i) >= 0, self.there(REV(i)))
        return self.there(i)

    def setitem(self, I, k, v):
        if isinstance(v, CombinedRef) and v.o is self and same_key(v.k, k):
            return
        if not (isinstance(v, ListVal) and not v.items):
            raise Undecided('something is stored')
        i, back = which_key(k)
        I.note_write(self)
        if back:
            I.prove('an interface of the model', REV(i) >= 0)
            i = REV(i)
        I.prove('nothing that is there is lost', z3.Not(self.there(i)))
        self.new.append(i)

    def getitem(self, I, k):
        I.guard(self.contains(I, k), 'KeyError')
        return CombinedRef(self, k)

    def m_setdefault(self, I, k, v=None):
        if not I.branch(self.contains(I, k)):
            self.setitem(I, k, v)
        return CombinedRef(self, k)

    def snapshot(self): return (self.has, list(self.new))


def same_key(a, b): return sig_same(keysig(a), keysig(b))


class CombinedRef(Model):
    kind = 'list of triangles'

    def __init__(self, o, k):
        super().__init__()
        self.o, self.k = o, k

    def m_extend(self, I, xs): self.o.tr.emit(I, 'tris', self.k, xs)

    def m_append(self, I, x): self.o.tr.emit(I, 'tri', self.k, x)

    def inplace(self, I, op, x):
        if op != 'Add':
            raise Undecided('list')
        self.m_extend(I, x)
        return self


class Finish(Spec):
    """over planes (of vertical surfaces) or interfaces"""

    def __init__(self, g, tr):
        super().__init__('finish', lambda I, it: base_tag(it.tag) in ('diel_vdata', 'cond_vdata', 'diel'))
        self.g, self.tr = g, tr

    def pre(self, I, L):
        gh = L.ghost
        gh['tag'] = base_tag(L.it.tag)
        gh['dk'] = [o for o in L.written if isinstance(o, Combined)]
        gh['raw'] = [o for o in L.written if isinstance(o, DictVal)]
        gh['bags'] = [o for o in L.written if isinstance(o, Bags)]
        gh['traced'] = self.tr in L.written
        if len(gh['dk']) + len(gh['raw']) + len(gh['bags']) + gh['traced'] != len(L.written) or len(gh['dk']) + len(gh['raw']) > 1:
            raise Undecided(f'{self.name}: writes {L.written}')
        for o in gh['raw']:
            if o.pairs or gh['tag'] != 'diel':
                raise Undecided('a dictionary')
        if gh['tag'] == 'diel' and gh['bags']:
            raise Undecided('the model changes')

    def dict(self, L): return (L.ghost['dk'] + L.ghost['raw'] + [None])[0]

    def stays(self, i, k): return z3.And(i >= 0, i < k, z3.Not(z3.And(REV(i) >= 0, REV(i) < i)))

    def havoc(self, I, L, k):
        gh = L.ghost
        o = self.dict(L)
        if o is not None:
            if isinstance(o, DictVal):
                o.__class__ = Combined
                o.__dict__.pop('pairs', None)
                o.__dict__.pop('default', None)
                o.tr, o.m = self.tr, self.g['m']
            gh['keeps'] = True
            o.has, o.new = (lambda i: self.stays(i, k)), []
        for b in gh['bags']:
            b.known = []
        if gh['traced']:
            gh['before'] = list(self.tr.events)
            self.tr.events = [('sofar', self.name)]
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        o = self.dict(L)
        if not isinstance(o, Combined):
            return []
        i = L.ghost.setdefault('some', I.fresh('some_interface', Z))
        return [('of two interfaces that are the reverse of each other the first stays', z3.Implies(z3.And(i >= 0, i < self.g['m']), o.there(i) == self.stays(i, k)))]

    def facts(self, I, L, k):
        m = self.g['m']
        out = []
        for i in [k, L.ghost.get('some')]:
            if i is not None:
                out += [REV(i) < m, z3.Implies(REV(i) >= 0, z3.And(REV(REV(i)) == i, REV(i) != i))]
        return out if L.ghost['tag'] == 'diel' else []

    def elem_done(self, I, L, k, ctx):
        gh, g = L.ghost, self.g
        ev = self.tr.events[1:] if gh['traced'] else []
        if gh['tag'] != 'diel':
            if [e[0] for e in ev] != ['triangulate']:
                I.prove('every vertical surface is cut once', z3.BoolVal(len([e for e in ev if e[0] == 'triangulate']) == 1))
                raise Undecided('something else happens')
            d = ev[0][1]
            f = g['planes'][gh['tag']]
            I.prove('in its plane', z3.BoolVal(isinstance(d['p0'], Record) and d['p0'].name == 'p0' and isinstance(d['de'], Record) and d['de'].name == 'de' and
                                               isinstance(d['region'], Record) and d['region'].fields['of'] == gh['tag']))
            I.prove('the surface of this plane', z3.And(*[x.ident == k for x in (d['p0'], d['de'], d['region'])]))
            b = d['data']
            bag = gh['tag'].replace('v', '')
            I.prove('its triangles are filed under what is on its sides', z3.BoolVal(isinstance(b, Bag) and b.o.name == bag and same_key(b.key, f(I, k)) and (b.made or True)))
            return
        if not ev:
            if gh['traced']:
                I.prove('an interface with triangles is filed', TLEN(k) <= 0)
            return
        if len(ev) != 1 or ev[0][0] != 'tris':
            raise Undecided('triangles are filed in another way')
        i, back = which_key(ev[0][1])
        it = I.iterate(ev[0][2])
        I.prove('the triangles of this interface go to it, or to its reverse', i == k)
        t = I.fresh('some_triangle', Z)
        I.assume(t >= 0, t < TLEN(k))
        I.prove('all of them', z3.BoolVal(False) if isinstance(it, list) else zint(it.n) == TLEN(k))
        p = [[FX[j][x](k, t) for x in range(3)] for j in range(3)]
        if not isinstance(it, list):
            unfiltered(I, it)
        I.prove('turned round iff filed under the reverse', is_triangle(hull(I, it.elem(I, t)), p[::-1] if back else p))

    def on_break(self, I, L, k): raise Undecided('interfaces are left out')

    def after(self, I, L):
        if L.ghost['traced']:
            self.tr.events = L.ghost['before'] + [('loop', self.name, L)]


def finalize(I):
    """ensures: every vertical surface is cut into triangles once, filed under what is on its sides; of two dielectric interfaces that are the reverse of each
    other one remains, with all triangles of both, those of the other turned round; conductor interfaces stay"""
    tr = I.ghost['trace'] = Trace()
    I.ghost[('truth', 'MName')] = lambda n: True
    g = dict(m=I.fresh('ndiel', Z))
    I.assume(g['m'] >= 0)
    HD, HC, VK = [I.repo(GEN, x) for x in ('HDielKey', 'HCondKey', 'VKey')]

    def planes(tag):
        n = I.fresh('n' + tag, Z)
        I.assume(n >= 0)
        o, i = Opt(tag + '_outside'), Opt(tag + '_inside')
        net = z3.Function(tag + '_net', Z, NM)

        def kk(I, k):
            k = zint(k)
            if tag == 'diel_vdata':
                return Obj(HD, dict(outside=o.get(I, k), inside=i.get(I, k)))
            return Obj(HC, dict(net_name=net(k), outside=o.get(I, k)))
        cache = {}

        def key(I, k):
            k = zint(k)
            return Obj(VK, dict(kk=kk(I, k), p0=Record('p0', {}, ident=k), de=Record('de', {}, ident=k)))
        d = SymDict(tag, n, key, lambda I, k: Record('surface', dict(of=tag), ident=zint(k)), unique=True)
        return d, kk
    dv, dkk = planes('diel_vdata')
    cv, ckk = planes('cond_vdata')
    g['planes'] = dict(diel_vdata=dkk, cond_vdata=ckk)

    class DielBags(Bags):
        """after the vertical surfaces are in: interfaces 0 .. m-1, in any order"""
        def seq(self, I, what):
            done = [e[2].ghost['tag'] for e in tr.events if e[0] == 'loop']
            I.prove('all vertical surfaces are in before interfaces are combined', z3.BoolVal('diel_vdata' in done))

            def key(I, i):
                i = zint(i)
                # both sides differ, so at least one is a material
                I.assume(z3.Or(DO.has(i), DI.has(i)))
                return Obj(HD, dict(outside=DO.get(I, i), inside=DI.get(I, i)))
            return IterSpec((what, 'diel'), g['m'], {'keys': key, 'values': listed, 'items': lambda I, i: (key(I, i), listed(I, i))}[what], base=self)

        def m_keys(self, I): return self.seq(I, 'keys')
        def m_values(self, I): return self.seq(I, 'values')
        def m_items(self, I): return self.seq(I, 'items')
        def iterate(self, I): return self.seq(I, 'keys')
    data = DielBags('diel_data', tr, keysig, lambda v: isinstance(v, ListVal) and not v.items)
    cond = Bags('cond_data', tr, keysig, lambda v: isinstance(v, ListVal) and not v.items)
    gen = generator(I, tr, diel_vdata=dv, cond_vdata=cv, diel_data=data, cond_data=cond)
    I.roots = [tr, data, cond, gen]

    def tri(I, a, kw):
        d = dict(zip(('p0', 'de', 'region', 'data'), a[1:]))
        d.update(kw)
        tr.emit(I, 'triangulate', d)
    I.contracts[GEN + ':FasterCapModelGenerator.triangulate'] = tri
    I.loop_specs = [Finish(g, tr)]
    I.call(method(I, gen, 'finalize'), [])
    ls = [e[2] for e in tr.events if e[0] == 'loop']
    if len(ls) != len(tr.events):
        raise Undecided('something happens outside of the loops')
    tags = [L.ghost['tag'] for L in ls]
    I.prove('vertical surfaces of both kinds, once; then the interfaces are combined, once', z3.BoolVal(sorted(tags) == ['cond_vdata', 'diel', 'diel_vdata']))
    for L in ls:
        I.prove('all of them', zint(L.it.n) == {'diel': g['m'], 'diel_vdata': dv.n, 'cond_vdata': cv.n}[L.ghost['tag']])
    r = gen.fields['diel_data']
    I.prove('the combined interfaces are those of the model', z3.BoolVal(isinstance(r, Combined)))
    i = I.fresh('some_interface', Z)
    I.assume(i >= 0, i < g['m'], REV(i) < g['m'], z3.Implies(REV(i) >= 0, z3.And(REV(REV(i)) == i, REV(i) != i)))
    I.prove('every interface or its reverse is there, not both', z3.Xor(r.there(i), z3.And(REV(i) >= 0, r.there(REV(i)))))
    I.prove('conductors stay', z3.BoolVal(gen.fields['cond_data'] is cond))


# ---------------------------------------------------------------- what is put in
class NoRegion(Model):
    """kdb.Region given by the caller, or a new one"""
    kind = 'Region'

    def __init__(self, of=()):
        super().__init__()
        self.of = tuple(of)

    def join(self, I, o):
        if not isinstance(o, NoRegion):
            raise Undecided('region operand')
        I.note_write(self)
        self.of = self.of + o.of
        return self

    def inplace(self, I, op, o):
        if op not in ('Add', 'BitOr'):
            raise Undecided(f'region {op}')
        return self.join(I, o)

    def binop(self, I, op, o, refl):
        if op not in ('Add', 'BitOr') or not isinstance(o, NoRegion):
            raise Undecided(f'region {op}')
        return NoRegion(self.of + o.of)

    def m_insert(self, I, o): return self.join(I, o)
    def m_dup(self, I): return NoRegion(self.of)
    def getattr(self, I, name):
        if name == 'data':
            I.raise_('AttributeError')
        return super().getattr(I, name)

    def snapshot(self): return self.of


def sheets(I):
    """ensures: add_in / add_out add the sheet (a copy of it) once to those that come / go under its name; all others stay"""
    tr = I.ghost['trace'] = Trace()
    I.ghost[('truth', 'MName')] = lambda n: True
    which = I.choose(2)
    fn, bag, other = [('add_in', 'layers_in', 'layers_out'), ('add_out', 'layers_out', 'layers_in')][which]
    data = Bags(bag, tr, keysig, lambda v: isinstance(v, ListVal))
    rest = Bags(other, tr, keysig, lambda v: isinstance(v, ListVal))
    I.externals['klayout.db.Region'] = Builtin('Region', lambda I, a, k: NoRegion() if not a or isinstance(a[0], ListVal) and not a[0].items else
                                               NoRegion(a[0].of) if isinstance(a[0], NoRegion) else undec('region'))
    gen = generator(I, tr, **{bag: data, other: rest})
    layer = NoRegion(('sheet',))
    name = I.fresh('name', NM)
    I.roots = [tr, data, rest, gen]
    I.call(method(I, gen, fn), [], dict(name=name, layer=layer))
    ev = list(tr.events)
    I.prove('one sheet more', z3.BoolVal(len(ev) == 1 and ev[0][0] == bag and ev[0][2] == 'one'))
    I.prove('under its name', z3.BoolVal(names_eq(ev[0][1].key, name)))
    x = ev[0][3]
    I.prove('it is the sheet', z3.BoolVal(isinstance(x, NoRegion) and x.of == ('sheet',)))
    I.prove('the sheet of the caller stays as it is', z3.BoolVal(layer.of == ('sheet',)))


def put(I):
    """requires: a sheet from z to z + height, both within a ten-millionth of a unit of a multiple of the database unit. ensures: it is recorded once, under its
    name, with exactly those multiples; a dielectric of an unknown material is refused, and nothing else changes; add_material records k"""
    tr = I.ghost['trace'] = Trace()
    I.ghost[('truth', 'MName')] = lambda n: True
    B_ = I.repo(GEN, 'FasterCapModelBuilder')
    which = I.choose(3)
    bags = {b: Bags(b, tr, keysig, lambda v: isinstance(v, ListVal)) for b in ('clayers', 'dlayers')}
    known = I.fresh('known', B)
    name = I.fresh('name', NM)
    dbu, a, b, e, f, z, h = [I.fresh(x, s) for x, s in (('dbu', R), ('start', Z), ('stop', Z), ('e', R), ('f', R), ('z', R), ('height', R))]
    tiny = z3.RealVal('1/10000000')

    class Mats(Model):
        kind = 'materials'
        def contains(self, I, k):
            if not names_eq(k, name):
                raise Undecided('another name')
            return known

        def setitem(self, I, k, v): tr.emit(I, 'material', k, v)
    # z = (start + e) * dbu
    q, w = I.fresh('z_in_units', R), I.fresh('height_in_units', R)
    I.assume(dbu > 0, z == q * dbu, h == w * dbu, q == zreal(a) + e, q + w == zreal(b) + f, e <= tiny, e >= -tiny, f <= tiny, f >= -tiny)
    bld = Obj(B_, dict(dbu=dbu, k_void=I.fresh('k_void', R), delaunay_amax=I.fresh('amax', R), delaunay_b=I.fresh('b', R), materials=Mats(), **bags))
    I.roots = [tr, bld, *bags.values()]
    arith = I.arith

    def ar(op, x, y):
        if op == 'Div' and y is dbu:
            for s, t in ((z, q), (h, w), (z + h, q + w)):
                if poly_zero(zreal(x) - s):
                    return t
        return arith(op, x, y)

    def call(fn, **kw):
        m = I.repo(GEN, 'FasterCapModelBuilder.' + fn)
        I.call(BoundMethod(m[1] if isinstance(m, tuple) else m, bld), [], kw)
    if which == 2:
        k = I.fresh('k', R)
        call('add_material', name=name, k=k)
        ev = list(tr.events)
        I.prove('the material has its k', z3.BoolVal(len(ev) == 1 and ev[0][0] == 'material' and names_eq(ev[0][1], name) and ev[0][2] is k))
        return
    layer = NoRegion(('sheet',))
    if I.branch(I.fresh('wrapped', B)):
        inner = layer

        class Wrapped(Model):
            kind = 'layer'
            def has_attr(self, I, nm): return nm == 'data'

            def getattr(self, I, nm):
                if nm == 'data':
                    return inner
                return super().getattr(I, nm)
        layer = Wrapped()
    I.arith = ar
    refused = False
    try:
        if which == 0:
            call('add_conductor', net_name=name, layer=layer, z=z, height=h)
        else:
            call('add_dielectric', material_name=name, layer=layer, z=z, height=h)
    except PyRaise as x:
        if x.exc.cls != 'ValueError':
            raise
        refused = True
    finally:
        I.arith = arith
    ev = list(tr.events)
    if refused:
        I.prove('only dielectrics of unknown materials are refused', z3.And(z3.BoolVal(which == 1), z3.Not(known)))
        I.prove('nothing is recorded', z3.BoolVal(not ev))
        return
    if which == 1:
        I.prove('dielectrics of unknown materials are refused', known)
    I.prove('one sheet more', z3.BoolVal(len(ev) == 1 and ev[0][0] == ('clayers', 'dlayers')[which] and ev[0][2] == 'one'))
    I.prove('under its name', z3.BoolVal(names_eq(ev[0][1].key, name)))
    x = ev[0][3]
    if not (isinstance(x, tuple) and len(x) == 3):
        raise Undecided('what is recorded')
    I.prove('it is the sheet', z3.BoolVal(isinstance(x[0], NoRegion) and x[0].of == ('sheet',)))
    I.prove('from its start', zint(x[1]) == a)
    I.prove('to its end', zint(x[2]) == b)


NSH = {d: z3.Function(d + '_sheets', Z, Z) for d in ('clayers', 'dlayers')}
LO = {d: z3.Function(d + '_start', Z, Z, Z) for d in ('clayers', 'dlayers')}
HI = {d: z3.Function(d + '_stop', Z, Z, Z) for d in ('clayers', 'dlayers')}
LEVEL = z3.Function('level_height', Z, Z)


class Heights(SymList):
    """the list of heights while (after) it is collected"""
    kind = 'Heights'


def to_heights(I, o):
    n = I.fresh('nheights', Z)
    I.assume(n >= 0)
    full = getattr(o, 'full', [])
    become_symlist(o, n, lambda I, i: undec('heights are read'), 'heights')
    o.__class__ = Heights
    o.full = list(full)
    return o


class Collect(Spec):
    """over names and sheets: the starts and stops of all sheets are collected"""

    def __init__(self, g):
        super().__init__('heights', lambda I, it: base_tag(it.tag) in ('clayers', 'dlayers', 'sheets') and not any(x[0].name == 'levels' for x in I.loop_stack))
        self.g = g

    def pre(self, I, L):
        o = [x for x in L.written if isinstance(x, (ListVal, SymList))]
        if len(o) != len(L.written) or len(o) > 1:
            raise Undecided(f'{self.name}: writes {L.written}')
        L.ghost['o'] = o[0] if o else None
        L.ghost['tag'] = base_tag(L.it.tag)

    def havoc(self, I, L, k):
        o = L.ghost['o']
        if o is not None:
            to_heights(I, o)
            L.ghost['full'] = list(o.full)
            mark_havoc(L, o)

    def elem_done(self, I, L, k, ctx):
        o = L.ghost['o']
        tail = o.tail if o is not None else []
        if L.ghost['tag'] == 'sheets':
            d, i = L.it.base.d, L.it.base.i
            for w, f in (('start', LO), ('stop', HI)):
                I.prove(f'the {w} of every sheet is collected', z3.Or(*[zint(x) == f[d](i, k) for x in tail]) if tail else z3.BoolVal(False))
            return
        if tail:
            raise Undecided('other heights')
        I.prove('all sheets of the name', z3.BoolVal(o is not None and ('sheets', L.ghost['tag']) in
                                                     [f[:2] for f in o.full if len(f) == 3 and same(f[2], k)]))

    def on_break(self, I, L, k): raise Undecided('sheets are left out')

    def after(self, I, L):
        o = L.ghost['o']
        if o is None:
            return
        if L.ghost['tag'] == 'sheets':
            I.prove('all of them', zint(L.it.n) == NSH[L.it.base.d](L.it.base.i))
            o.full = L.ghost['full'] + [('sheets', L.it.base.d, L.it.base.i)]
        else:
            o.full = L.ghost['full'] + [('names', L.ghost['tag'])]


class SheetSeq(SymSeq):
    def __init__(self, I, d, i):
        self.d, self.i = d, zint(i)
        I.assume(NSH[d](self.i) >= 0)
        super().__init__('sheets', NSH[d](self.i), lambda I, t: (Record('region', dict(of=d), ident=(self.i, zint(t))), LO[d](self.i, zint(t)), HI[d](self.i, zint(t))))


class Levels(Spec):
    def __init__(self, g, tr):
        super().__init__('levels', lambda I, it: base_tag(it.tag) == 'levels')
        self.g, self.tr = g, tr

    def pre(self, I, L):
        if any(o is not self.tr for o in L.written):
            raise Undecided(f'{self.name}: writes {L.written}')
        L.ghost['traced'] = self.tr in L.written

    def havoc(self, I, L, k):
        if L.ghost['traced']:
            L.ghost['before'] = list(self.tr.events)
            self.tr.events = [('sofar', self.name)]
            mark_havoc(L, self.tr)

    def elem_done(self, I, L, k, ctx):
        ev = self.tr.events[1:] if L.ghost['traced'] else []
        kinds = [e[0] for e in ev]
        I.prove('a level begins, its sheets come and go, it ends', z3.BoolVal(len(kinds) >= 2 and kinds[0] == 'next_z' and kinds[-1] == 'finish_z' and
                                                                          all(x == 'loop' for x in kinds[1:-1])))
        I.prove('at its height', zreal(ev[0][1]) == zreal(LEVEL(k)) * self.g['dbu'])
        ls = [e[2] for e in ev[1:-1]]
        I.prove('sheets of conductors and of dielectrics', z3.BoolVal(sorted(base_tag(x.it.tag) for x in ls) == ['clayers', 'dlayers']))
        for x in ls:
            I.prove('of all names', zint(x.it.n) == self.g[base_tag(x.it.tag)].n)

    def on_break(self, I, L, k): raise Undecided('levels are left out')

    def after(self, I, L):
        if L.ghost['traced']:
            self.tr.events = L.ghost['before'] + [('loop', self.name, L)]


class AtLevel(Spec):
    """over names, and over the sheets of one: those come that are above the level, those go that are below"""

    def __init__(self, g, tr):
        super().__init__('at a level', lambda I, it: base_tag(it.tag) in ('clayers', 'dlayers', 'sheets') and any(x[0].name == 'levels' for x in I.loop_stack))
        self.g, self.tr = g, tr

    pre, havoc, on_break, after = Levels.pre, Levels.havoc, Levels.on_break, Levels.after

    def elem_done(self, I, L, k, ctx):
        ev = self.tr.events[1:] if L.ghost['traced'] else []
        tag = base_tag(L.it.tag)
        if tag != 'sheets':
            I.prove('all sheets of the name', z3.BoolVal(len(ev) == 1 and ev[0][0] == 'loop' and base_tag(ev[0][2].it.tag) == 'sheets'))
            s = ev[0][2].it
            I.prove('of this name', z3.And(z3.BoolVal(s.base.d == tag), s.base.i == k, zint(s.n) == NSH[tag](k)))
            return
        d, i = L.it.base.d, L.it.base.i
        z = LEVEL(next(x[2] for x in I.loop_stack if x[0].name == 'levels'))
        nm = (NETNM if d == 'clayers' else MATNM)(i)
        lo, hi = LO[d](i, k), HI[d](i, k)
        if any(e[0] not in ('add_in', 'add_out') for e in ev):
            raise Undecided('something else happens')
        for w, c in (('add_in', z3.And(lo <= z, z < hi)), ('add_out', z3.And(lo < z, z <= hi))):
            x = [e for e in ev if e[0] == w]
            I.prove({'add_in': 'a sheet comes iff it is above the level', 'add_out': 'a sheet goes iff it is below the level'}[w],
                    z3.If(c, 1, 0) == len(x))
            for e in x:
                I.prove('as a net or a material, under its name', z3.BoolVal(parts_are(e[1], '+' if d == 'clayers' else '-', nm)))
                I.prove('it is the sheet', z3.And(e[2].ident[0] == i, e[2].ident[1] == k) if isinstance(e[2], Record) and e[2].fields['of'] == d else z3.BoolVal(False))


def parts_are(x, sign, nm):
    p = parts_of(x)
    return len(p) == 2 and p[0] == sign and same_name(p[1], nm)


def build(I):
    """requires: sheets with heights as put records them. ensures: the levels are the starts and stops of all sheets, each once, from the bottom; at each, the
    sheets above it come and the sheets below it go, under their names, between its begin and its end; then the model is completed"""
    tr = I.ghost['trace'] = Trace()
    I.ghost[('truth', 'MName')] = lambda n: True
    g = dict(dbu=I.fresh('dbu', R))
    I.assume(g['dbu'] > 0)
    for d, nmf in (('clayers', NETNM), ('dlayers', MATNM)):
        n = I.fresh('n' + d, Z)
        I.assume(n >= 0)
        g[d] = SymDict(d, n, lambda I, i, nmf=nmf: nmf(zint(i)), lambda I, i, d=d: SheetSeq(I, d, i), unique=True)
    nz = I.fresh('nlevels', Z)
    I.assume(nz >= 0)
    mats = Record('materials', {})
    bld = Obj(I.repo(GEN, 'FasterCapModelBuilder'), dict(dbu=g['dbu'], k_void=I.fresh('k_void', R), delaunay_amax=I.fresh('amax', R), delaunay_b=I.fresh('b', R),
                                                         materials=mats, clayers=g['clayers'], dlayers=g['dlayers']))
    I.roots = [tr, bld]
    state = dict(unique=False, sorted=False)

    def complete(o):
        I.prove('the heights of all sheets are levels', z3.BoolVal(isinstance(o, Heights) and {('names', 'clayers'), ('names', 'dlayers')} <= {f[:2] for f in o.full if len(f) == 2}))

    class Levelled(SymSeq):
        pass

    def as_set(I, it):
        if not isinstance(it.base, Heights):
            raise Undecided('set of something else')
        complete(it.base)
        return Levelled('heights once', nz, lambda I, i: undec('order'))

    def srt(I, it, key, reverse):
        if key is not None or reverse not in (False, None):
            raise Undecided('sorted in another way')
        b = it.base
        if isinstance(b, Heights):
            complete(b)
            I.prove('every level once', z3.BoolVal(False))
        if not isinstance(b, Levelled):
            raise Undecided('sorted')
        return SymSeq('levels', nz, lambda I, i: LEVEL(zint(i)))
    I.ghost['set'], I.ghost['sorted'] = as_set, srt
    objs = []
    for f, ps in (('next_z', ('z',)), ('add_in', ('name', 'layer')), ('add_out', ('name', 'layer')), ('finish_z', ()), ('finalize', ())):
        def con(I, a, kw, f=f, ps=ps):
            d = dict(zip(ps, a[1:]))
            d.update(kw)
            objs.append(a[0])
            tr.emit(I, f, *[d[p] for p in ps])
        I.contracts[f'{GEN}:FasterCapModelGenerator.{f}'] = con
    I.loop_specs = [Levels(g, tr), AtLevel(g, tr), Collect(g)]
    m = I.repo(GEN, 'FasterCapModelBuilder.generate')
    r = I.call(BoundMethod(m[1] if isinstance(m, tuple) else m, bld), [])
    ev = list(tr.events)
    if r is None:
        I.prove('there is a model unless there are no sheets', z3.And(nz <= 0, z3.BoolVal(not ev)))
        return
    if not isinstance(r, Obj):
        raise Undecided('result')
    I.prove('all levels, then it is completed', z3.BoolVal([e[0] for e in ev] == ['loop', 'finalize'] and ev[0][2].it.tag == 'levels'))
    I.prove('all of them', zint(ev[0][2].it.n) == nz)
    I.prove('on the model that is returned', z3.BoolVal(all(o is r for o in objs)))
    f, b = r.fields, bld.fields
    for x in ('dbu', 'k_void', 'delaunay_amax', 'delaunay_b'):
        I.prove(f'it has the {x} of the builder', zreal(f[x]) == zreal(b[x]))
    I.prove('and its materials', z3.BoolVal(f['materials'] is mats))
    it = I.iterate(f['net_names'])
    if not isinstance(it, list):
        unfiltered(I, it)
    i = I.fresh('some_net', Z)
    I.assume(i >= 0, i < g['clayers'].n)
    I.prove('and its nets', z3.BoolVal(False) if isinstance(it, list) else z3.And(zint(it.n) == g['clayers'].n, it.elem(I, i) == NETNM(i)))
    for x in ('layers_in', 'layers_out', 'state', 'current', 'diel_data', 'diel_vdata', 'cond_data', 'cond_vdata'):
        v = f.get(x)
        if not isinstance(v, DictVal):
            raise Undecided(f'{x}: {v!r}')
        I.prove('it starts empty', z3.BoolVal(not v.pairs))
    I.prove('without a level', z3.BoolVal(f['z'] is None))


__all__ = [n for n in globals() if not n.startswith('__')]
