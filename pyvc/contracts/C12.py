from .edges import *

ASSUMPTIONS = ['KLayout edge neighborhood operation: hands every edge (rotated onto the x axis) its intervals with the polygons of '
               'each child within the distance, each interval and child once',
               'the nearest edge of a clipped polygon lies on its bounding box (boxes only, as the code warns)',
               'floats treated as exact']


def sidewall(I, doc=False):
    """requires: an edge interval and the nearest polygon at distance d > 0.  ensures: exactly one sidewall capacitance
    length * spec / (distance + offset) / 2 / 1000 under (layer, net of the edge, net of the polygon) iff nets differ and the
    layer has a specification"""
    install_region(I)
    dbu = I.fresh('dbu', R)
    x1, x2, y1, y2 = [I.fresh(n, R) for n in ('x1', 'x2', 'y1', 'y2')]
    n1, n2, ly = I.fresh('net1', NAME), I.fresh('net2', NAME), I.fresh('layer', NAME)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    ti = tech(I)
    off = z3.Function('sidewall.offset', NAME, R)(ly)
    cap = z3.Function('sidewall.capacitance', NAME, R)(ly)
    has = z3.Function('has_sidewall', NAME, B)(ly)
    I.assume(dbu > 0, x2 > x1, y1 > 0, y2 >= y1, off >= 0)
    v = visitor(I, visitor_class(I), dict(dbu=dbu, tech_info=ti, results=Sink(tr, {'add_sidewall_cap': 'cap'}), report=Docs(tr, 'output_sidewall') if doc else Sink(tr, {}, ignore=True)))
    box = Record('box', dict(p1=Record('pt', dict(y=y1)), p2=Record('pt', dict(y=y2)), bottom=y1, top=y2))
    p = Poly(I.fresh('poly', Reg.SORT), net=n2, bbox=Builtin('bbox', lambda I, a, k: box))
    e = Poly(Reg.EMPTY, net=n1)
    facing = Record('edge', {})
    I.contracts[f'{UTIL}:nearest_edge'] = lambda I, a, k: facing if (list(a) + list(k.values()))[0] is p else Record('edge', {})
    t = Placing()
    gr = restorer(I, t) if doc else Sink(tr, {}, ignore=True)
    I.call(BoundMethod(m(I, 'emit_sidewall'), v), [], dict(layer_name=ly, edge=e, edge_interval=(x1, x2), polygon=p, geometry_restorer=gr))
    if doc:
        for d in documented(I, tr.events, 'sidewall_cap'):
            interval_edge(I, 'inside edge', d['inside_edge'], t, x1, x2)
            in_place(I, 'outside edge', d['outside_edge'], t, facing)
        return
    caps = [ev[1] for ev in tr.events if ev[0] == 'cap']
    want = z3.And(n1 != n2, has)
    if len(caps) > 1:
        I.prove('one sidewall capacitance', z3.BoolVal(False))
    elif not caps:
        I.prove('nothing is left out', z3.Not(want))
    else:
        I.prove('only between different nets of a specified layer', want)
        k = key_of(caps[0], 'SidewallKey')
        if k is None:
            raise Undecided('recorded something else')
        I.prove('under its layer and nets', z3.And(lay(I, k.fields['layer']) == ly, k.fields['net1'] == n1, k.fields['net2'] == n2))
        I.prove('value: half of length * spec / (distance + offset)',
                zreal(caps[0].fields['cap_value']) * (2000 * (y1 * dbu + off)) == (x2 - x1) * dbu * cap)


def extract(I):
    """ensures: one edge neighborhood operation per layer with the visitor of that layer, child idx = other shapes of the
    layer, reaching at least the side halo, without end extensions"""
    def check(I, k, kids, v, kw, n, dbu, ti):
        halo = I.getattr(I.getattr(I.getattr(ti, 'tech'), 'process_parasitics'), 'side_halo')
        j = I.fresh('child', Z)
        c = I.getitem(kids, k)
        I.prove('other shapes of the layer are child <index of the layer>', z3.BoolVal(isinstance(c, Record) and c.name == 'node:foreign'))
        geometry(I, kw, dbu, halo)
    I.ghost['int_of'] = lambda I, x: floor_of(I, x)
    set_up(I, MOD, 'SidewallAndFringeExtractor', 'edge_neighborhood', more=dict(scale_ratio_to_fit_halo=I.fresh('scale', B)), check=check)


def nearest(I):
    """requires: at least one polygon.  ensures: the polygon returned is one of them, with its distance, and none is nearer"""
    n = I.fresh('n', Z)
    I.assume(n >= 1)
    DIST = z3.Function('dist', Z, R)
    ps = SymSeq('polygons', n, lambda I, i: poly_at(i))
    def poly_at(i):
        p = Poly(Reg.EMPTY)
        p.i = zint(i)
        return p
    def dist(I, a, k):
        d = DIST((list(a) + list(k.values()))[0].i)
        I.assume(d >= 0)
        return d
    I.contracts[f'{UTIL}:nearest_edge_distance'] = dist
    g = I.fresh('any', Z)
    I.assume(g >= 0, g < n)
    def st(L): return [x for x in L.carried() if isinstance(L.env.lookup(x), tuple)]
    def pre(I, L):
        if len(st(L)) != 1:
            raise Undecided('search loop')
        L.ghost['n'] = st(L)[0]
    def havoc(I, L, k):
        if I.branch(k == 0):
            set_local(L, L.ghost['n'], L.env.lookup(L.ghost['n']))
        else:
            j = I.fresh('best', Z)
            set_local(L, L.ghost['n'], (DIST(j), poly_at(j)))
    def inv(I, L, k):
        d, p = L.env.lookup(L.ghost['n'])
        if not is_sym(d):
            return [('nothing seen', k == 0), ('starts with a polygon', z3.And(p.i >= 0, p.i < n))]
        return [('the best so far', z3.And(d == DIST(p.i), p.i >= 0, p.i < n, z3.Implies(g < k, d <= DIST(g))))]
    I.loop_specs = [Spec('search', lambda I, it: base_tag(it.tag) == 'polygons', pre=pre, havoc=havoc, inv=inv)]
    f = I.repo(UTIL, 'find_polygon_with_nearest_edge')
    r = I.call(f, [ps])
    if not (isinstance(r, tuple) and len(r) == 2 and hasattr(r[1], 'i')):
        raise Undecided('result')
    I.prove('one of the polygons, with its distance', z3.And(r[1].i >= 0, r[1].i < n, zreal(r[0]) == DIST(r[1].i)))
    I.prove('none is nearer', zreal(r[0]) <= DIST(g))


def distance(I):
    """ensures: the distance of a polygon is the lower end of its bounding box, at least 0"""
    y1, y2 = I.fresh('y1', Z), I.fresh('y2', Z)
    I.assume(y2 >= y1)
    box = Record('box', dict(p1=Record('pt', dict(y=y1)), p2=Record('pt', dict(y=y2)), bottom=y1, top=y2))
    p = Poly(Reg.EMPTY, bbox=Builtin('bbox', lambda I, a, k: box), is_box=Builtin('is_box', lambda I, a, k: I.fresh('is_box', B)))
    r = I.call(I.repo(UTIL, 'nearest_edge_distance'), [p])
    I.prove('lower end of the bounding box, at least 0', zreal(r) == z3.If(y1 < 0, z3.RealVal(0), z3.ToReal(y1)))


def box_edge(I):
    """requires: a box, its hull as KLayout keeps it (clockwise from the lower left corner).  ensures: its nearest edge is the lower one, with the net of the polygon"""
    x1, x2, y1, y2 = [I.fresh(n, Z) for n in ('x1', 'x2', 'y1', 'y2')]
    I.assume(x2 > x1, y2 > y1)
    net = I.fresh('net', NAME)
    pt = lambda x, y: Record('pt', dict(x=x, y=y))
    def ed(a, b):
        d = pt(b[0] - a[0], b[1] - a[1])
        return Record('edge', dict(p1=pt(*a), p2=pt(*b), d=Builtin('d', lambda I, a_, k: d), x1=a[0], y1=a[1], x2=b[0], y2=b[1]))
    c = [(x1, y1), (x1, y2), (x2, y2), (x2, y1)]
    es = [ed(c[i], c[(i + 1) % 4]) for i in range(4)]
    p = Poly(Reg.EMPTY, net=net, each_edge=Builtin('each_edge', lambda I, a, k: ListVal(es)))
    I.externals['klayout.db.EdgeWithProperties'] = Builtin('EdgeWithProperties', lambda I, a, k: Record('ewp', dict(e=a[0], p=k.get('properties', a[1] if len(a) > 1 else None))))
    r = I.call(I.repo(UTIL, 'nearest_edge'), [p])
    e = r.fields['e'].fields
    I.prove('the lower edge, from right to left', z3.And(e['x1'] == x2, e['x2'] == x1, e['y1'] == y1, e['y2'] == y1))
    I.prove('with the net', I.getitem(r.fields['p'], 'net') == net)


HARNESSES = [('on_edge', lambda I: on_edge(I, 'emit_sidewall')), ('sidewall', sidewall), ('extract', extract), ('nearest', nearest),
             ('distance', distance), ('box_edge', box_edge),
             ('recorded', recorded('add_sidewall_cap', 'sidewall_table', 'SidewallKey'))]
