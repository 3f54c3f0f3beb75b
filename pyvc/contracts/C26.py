from .C18 import *
from .C18 import Pb, Rep

MOD = 'klayout_pex.klayout.shapes_pb2_converter'
ASSUMPTIONS = ['kdb.Polygon(points) is the polygon with this hull; resolved_holes() is a polygon of the same area without holes, each_point_hull() its points',
               'the property "net" of a shape is a text or missing', 'protobuf messages are records; an unset text is empty',
               'coordinates fit the 32 bit of a KLayout coordinate']
LEN = z3.Function('text_length', NAME, Z)
PN, NP = z3.Function('n_points', Z, Z), z3.Int('n_polygons')
PX, PY = z3.Function('point_x', Z, Z, Z), z3.Function('point_y', Z, Z, Z)
NET, HAS = z3.Function('net_of', Z, NAME), z3.Function('has_net', Z, B)


class Shape(Model):
    """a KLayout shape that was constructed"""
    kind = 'Shape'

    def __init__(self, what, data, props=None):
        super().__init__()
        self.what, self.data, self.props = what, data, props

    def a_x(self, I): return self.data[0]
    def a_y(self, I): return self.data[1]


class RegionOut(Model):
    kind = 'RegionOut'

    def __init__(self, tr):
        super().__init__()
        self.tr = tr

    def m_insert(self, I, s): self.tr.emit(I, 'insert', s)
    def inplace(self, I, op, o): raise Undecided('region operator')


class Given(Model):
    """polygon p of a region"""
    kind = 'Given'

    def __init__(self, p, resolved=False):
        super().__init__()
        self.p, self.resolved = p, resolved

    def m_property(self, I, key):
        if self.resolved or key != 'net':
            raise Undecided('property')
        return NET(self.p) if I.branch(HAS(self.p)) else None

    def m_resolved_holes(self, I): return Given(self.p, True)

    def m_each_point_hull(self, I):
        p, pre = self.p, '' if self.resolved else 'unresolved '
        fx, fy, n = (z3.Function(pre + f.name(), *[f.domain(i) for i in range(f.arity())], Z) for f in (PX, PY, PN))
        n = n(p)
        I.assume(n >= 0)
        return SymSeq((pre + 'hull', p), n, lambda I, i: Record('point', dict(x=fx(p, zint(i)), y=fy(p, zint(i)))))

    def m_num_points_hull(self, I):
        n = (PN if self.resolved else z3.Function('unresolved n_points', Z, Z))(self.p)
        I.assume(n >= 0)
        return n
    m_each_point = m_each_point_hull


def setup(I, check=None):
    tr = Trace('shapes')
    I.auto_loop = lambda it: AutoTrace('shapes', tr, check or (lambda *a: None))
    def length(n):
        I.assume(LEN(n) >= 0, (LEN(n) == 0) == (n == I.literal('', NAME)))
        return LEN(n)
    I.ghost['len', NAME.name()] = length
    I.ghost['truth', NAME.name()] = lambda n: length(n) > 0
    length(NET(0))
    args = lambda a, k: list(a) + list(k.values())

    def point(I, a, k):
        x = args(a, k)
        if len(x) != 2:
            raise Undecided('other constructor of a point')
        return Shape('point', [zint(v) for v in x])

    def poly(I, a, k):
        x = args(a, k)
        if len(x) != 1:
            raise Undecided('other constructor of a polygon')
        return Shape('polygon', x[0])

    def box(I, a, k):
        x = args(a, k)
        if len(x) == 2 and all(isinstance(p, Shape) and p.what == 'point' for p in x):
            x = x[0].data + x[1].data
        if len(x) != 4:
            raise Undecided('other constructor of a box')
        return Shape('box', [zint(v) for v in x])

    def with_props(what):
        def f(I, a, k):
            s, d = args(a, k)
            if not (isinstance(s, Shape) and s.what == what and isinstance(d, DictVal)):
                raise Undecided('other constructor of a shape with properties')
            return Shape(what, s.data, d.pairs)
        return f
    for n, f in (('Point', point), ('Polygon', poly), ('Box', box), ('PolygonWithProperties', with_props('polygon')), ('BoxWithProperties', with_props('box')),
                 ('Region', lambda I, a, k: RegionOut(tr) if not a else undecided('region of something'))):
        I.externals['klayout.db.' + n] = Builtin(n, f)
    return Obj(I.repo(MOD, 'ShapesConverter'), dict(dbu=I.fresh('dbu', R))), tr


def undecided(m): raise Undecided(m)


def pb_point(p):
    return lambda I, i: Record('Point', dict(x=PX(p, zint(i)), y=PY(p, zint(i)), net=z3.Function('point_net', Z, Z, NAME)(p, zint(i))), ident=(p, i))


def pb_polygon(I, p):
    p = zint(p)
    I.assume(PN(p) >= 0)
    return Record('Polygon', dict(hull_points=SymSeq(('hull', p), PN(p), pb_point(p)), net=NET(p)), ident=p)


def net_kept(I, s, net):
    """the shape has the property net exactly if there is one"""
    I.ghost['len', NAME.name()](net)
    if s.props is None:
        I.prove('a net is kept as property', LEN(net) == 0)
    else:
        d = s.props
        ok = len(d) == 1 and d[0][0] == 'net' and is_sym(d[0][1])
        I.prove('the property net is the net', z3.And(z3.BoolVal(ok), d[0][1] == net) if ok else z3.BoolVal(False))
        I.prove('no net, no property', LEN(net) > 0)


def is_polygon(I, s, p):
    """s is polygon p: its points, in order"""
    if not isinstance(s, Shape) or s.what != 'polygon':
        I.prove('a polygon', z3.BoolVal(False))
        return
    pts = s.data
    if isinstance(pts, ListVal) and isinstance(getattr(pts, 'items', None), list):
        I.prove('all points of the hull', PN(p) == len(pts.items))
        for i, x in enumerate(pts.items):
            I.prove('the points of the hull, in order', z3.And(zint(x.data[0]) == PX(p, i), zint(x.data[1]) == PY(p, i)))
    else:
        it = unfiltered(I, I.iterate(pts))
        n = I.fresh('index', Z)
        I.prove('all points of the hull', zint(it.n) == PN(p))
        I.assume(n >= 0, n < PN(p))
        x = it.elem(I, n)
        ok = isinstance(x, Shape) and x.what == 'point'
        I.prove('the points of the hull, in order', z3.And(x.data[0] == PX(p, n), x.data[1] == PY(p, n)) if ok else z3.BoolVal(False))
    net_kept(I, s, NET(p))


def point(I):
    """ensures: klayout_point has the coordinates of the message"""
    me, _ = setup(I)
    p = pb_point(z3.IntVal(0))(I, 0)
    s = I.call(I.getattr(me, 'klayout_point'), [p], {})
    ok = isinstance(s, Shape) and s.what == 'point'
    I.prove('the coordinates of the point', z3.And(s.data[0] == PX(0, 0), s.data[1] == PY(0, 0)) if ok else z3.BoolVal(False))


def polygon(I):
    """ensures: klayout_polygon has exactly the points of the message in their order, for any number of them, and its net as property if any"""
    me, _ = setup(I)
    p = z3.Int('p')
    is_polygon(I, I.call(I.getattr(me, 'klayout_polygon'), [pb_polygon(I, p)], {}), p)


def box(I):
    """ensures: klayout_box has the corners of the message, and its net as property if any"""
    me, _ = setup(I)
    c = [z3.Int(n) for n in ('left', 'bottom', 'right', 'top')]
    b = Record('Box', dict(lower_left=Record('Point', dict(x=c[0], y=c[1])), upper_right=Record('Point', dict(x=c[2], y=c[3])), net=NET(0)))
    s = I.call(I.getattr(me, 'klayout_box'), [b], {})
    ok = isinstance(s, Shape) and s.what == 'box'
    I.prove('the corners of the box', z3.And(*[x == y for x, y in zip(s.data, c)]) if ok else z3.BoolVal(False))
    if ok:
        net_kept(I, s, NET(0))


def ix(t):
    """the index of the element the loop with this tag is about"""
    return t[1] if isinstance(t, tuple) and len(t) == 2 else None


def region(I):
    """ensures: klayout_region has exactly the polygons of the message, each once, with its points and its net"""
    def check(I, L, k, ev):
        if base_tag(L.it.tag) != 'polygons':
            raise Undecided('other loop')
        I.prove('every polygon once', z3.BoolVal(len(ev) == 1 and ev[0][0] == 'insert'))
        if len(ev) == 1:
            is_polygon(I, ev[0][1], zint(k))
    me, tr = setup(I, check)
    I.assume(NP >= 0)
    r = Record('Region', dict(polygons=SymSeq('polygons', NP, pb_polygon)))
    s = I.call(I.getattr(me, 'klayout_region'), [r], {})
    I.prove('a region', z3.BoolVal(isinstance(s, RegionOut)))
    I.prove('nothing but the polygons', z3.BoolVal(len(tr.events) == 1 and tr.events[0][0] == 'loop'))


def msg_point(I, what, m, x, y):
    gx, gy = m.get('x'), m.get('y')
    I.prove(what, z3.And(zint(gx) == x, zint(gy) == y) if gx is not None and gy is not None else z3.BoolVal(False))


def point_to_pb(I):
    """ensures: klayout_point_to_pb stores both coordinates"""
    me, tr = setup(I)
    m = Pb(tr, {}, ('point',))
    I.call(I.getattr(me, 'klayout_point_to_pb'), [Record('p', dict(x=PX(0, 0), y=PY(0, 0))), m], {})
    msg_point(I, 'the coordinates of the point', m, PX(0, 0), PY(0, 0))


POLY = dict(hull_points=[{}])


def polygon_filled(I, m, p, loops):
    """message m was filled with polygon p"""
    net = m.f.get('net')
    I.ghost['len', NAME.name()](NET(p))
    if net is None or isinstance(net, str) and not net:
        I.prove('the net is kept', z3.Or(z3.Not(HAS(p)), LEN(NET(p)) == 0))
    else:
        I.prove('the net of the polygon', z3.And(HAS(p), net == NET(p)) if is_sym(net) else z3.BoolVal(False))
    I.prove('the points come from one walk over the hull', z3.BoolVal(len(loops) == 1))
    I.prove('nothing else is filled', z3.BoolVal(set(m.f) <= {'net', 'hull_points'}))


def hull_loop(I, L, k, ev):
    t = base_tag(L.it.tag)
    if not (isinstance(t, tuple) and t[0] in ('hull', 'unresolved hull')):
        raise Undecided('other loop')
    p = t[1]
    I.prove('holes are part of the shape', z3.BoolVal(t[0] == 'hull'))
    I.prove('a point of the hull, one point of the message', z3.BoolVal(len(ev) == 1 and isinstance(ev[0][0], tuple) and ev[0][0][-1] == 'hull_points'))
    I.prove('the hull in its order', z3.BoolVal(not tag_has(L.it.tag, 'reversed')))
    if len(ev) == 1 and isinstance(ev[0][1], Pb):
        msg_point(I, 'the point of the hull', ev[0][1], PX(p, zint(k)), PY(p, zint(k)))


def polygon_to_pb(I):
    """ensures: klayout_polygon_to_pb stores all points of the polygon without holes, in order, and its net if any"""
    me, tr = setup(I, hull_loop)
    p = z3.Int('p')
    m = Pb(tr, POLY, ('polygon',))
    I.call(I.getattr(me, 'klayout_polygon_to_pb'), [Given(p), m], {})
    polygon_filled(I, m, p, tr.events)


def region_to_pb(I):
    """ensures: klayout_region_to_pb stores every polygon of the region once, in order"""
    def check(I, L, k, ev):
        if base_tag(L.it.tag) != 'given':
            return hull_loop(I, L, k, ev)
        I.prove('the polygons in their order', z3.BoolVal(not tag_has(L.it.tag, 'reversed')))
        I.prove('every polygon once', z3.BoolVal(len(ev) >= 1 and ev[0][0] == ('region', 'polygons') and sum(e[0] == ('region', 'polygons') for e in ev) == 1))
        if ev and isinstance(ev[0][1], Pb):
            lp = [e for e in ev[1:] if e[0] == 'loop']
            polygon_filled(I, ev[0][1], zint(k), lp)
            for e in lp:
                t = base_tag(e[2].it.tag)
                I.prove('the points of this polygon', t[1] == zint(k) if ix(t) is not None else z3.BoolVal(False))
    me, tr = setup(I, check)
    I.assume(NP >= 0)
    seq = SymSeq('given', NP, lambda I, i: Given(zint(i)))
    m = Pb(tr, dict(polygons=[POLY]), ('region',))
    rg = Record('region', dict(each=Builtin('each', lambda I, a, k: seq)))
    rg.iterate = lambda I: I.iterate(seq)
    I.call(I.getattr(me, 'klayout_region_to_pb'), [rg, m], {})
    I.prove('nothing but the polygons', z3.BoolVal(len(tr.events) == 1 and tr.events[0][0] == 'loop'))


HARNESSES = [('point', point), ('polygon', polygon), ('box', box), ('region', region), ('point_to_pb', point_to_pb), ('polygon_to_pb', polygon_to_pb), ('region_to_pb', region_to_pb)]
