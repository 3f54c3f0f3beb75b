from .edges import *
from ..builtins_ import ATAN

ASSUMPTIONS = ['KLayout edge neighborhood operation: hands every edge (rotated onto the x axis) its intervals with the polygons of '
               'each child within the distance, each interval and child once',
               'kdb.Region -, each and bbox: set difference, the parts of it, their bounding boxes',
               'a dictionary of lists filled with append is a partition of what was appended by key',
               'floats treated as exact; math.atan an unknown function']
NP = z3.Function('n_parts', Reg.SORT, Z)
BY = z3.Function('part_y', Reg.SORT, Z, Z, R)             # region, part, end -> y of the bounding box
FC = z3.Function('fringe_cap', R, R, R, R, R, R)
GN = z3.Function('group_size', Z, Z)
GNET = z3.Function('group_net', Z, NAME)
GY = z3.Function('group_y', Z, Z, Z, R)


def part(y1, y2, v, net=None, x=(0, 1)):
    pt = lambda a, y: Record('pt', dict(x=a, y=y))
    box = Record('box', dict(p1=pt(x[0], y1), p2=pt(x[1], y2), bottom=y1, top=y2, left=x[0], right=x[1]))
    p = Poly(v, net=net, bbox=Builtin('bbox', lambda I, a, k: box), is_box=Builtin('is_box', lambda I, a, k: I.fresh('is_box', B)))
    p.y = (y1, y2)
    return p


class PartReg(Reg):
    """region that knows its parts"""
    def m_each(self, I):
        v = self.v
        I.assume(NP(v) >= 0, (NP(v) == 0) == (v == Reg.EMPTY))

        def elem(I, i):
            i = zint(i)
            I.assume(BY(v, i, 0) <= BY(v, i, 1))
            p = part(BY(v, i, 0), BY(v, i, 1), I.fresh('part', Reg.SORT))
            p.part = (v, i)
            return p
        return SymSeq(('parts', v), NP(v), elem)

    def binop(self, I, op, other, refl): return PartReg(super().binop(I, op, other, refl).v)

    def iterate(self, I): return self.m_each(I).iterate(I)


class Groups(Model):
    kind = 'Groups'

    def __init__(self, trace, n):
        super().__init__()
        self.trace, self.n = trace, n

    def getitem(self, I, net):
        g = self
        class Group(Model):
            def m_append(self, I, p): g.trace.emit(I, 'group', net, p)
        return Group()

    def m_items(self, I): return self.seq('items')
    def m_values(self, I): return self.seq('values')

    def seq(self, what):
        def elem(I, g):
            g = zint(g)
            I.assume(GN(g) >= 1)

            def mem(I, i):
                i = zint(i)
                I.assume(GY(g, i, 0) <= GY(g, i, 1))
                return part(GY(g, i, 0), GY(g, i, 1), I.fresh('part', Reg.SORT), net=GNET(g))
            s = SymSeq(('members', g), GN(g), mem)
            return (GNET(g), s) if what == 'items' else s
        return SymSeq('groups', self.n, elem)


def emit(I, doc=False):
    """requires: an edge interval, the polygons of another layer, the shield.  ensures: iff the pair of layers is specified:
    every polygon of another net, less the shield, is looked at part by part, and a part between near and far (clamped at 0)
    gives exactly one capacitance fringe_cap(length, near, far) iff it exceeds the threshold, under both layers and nets"""
    install_region(I)
    I.externals['klayout.db.Region'] = Builtin('Region', lambda I, a, k: PartReg(a[0].v if a else None))
    dbu = I.fresh('dbu', R)
    x1, x2 = I.fresh('x1', R), I.fresh('x2', R)
    n = I.fresh('n_polygons', Z)
    li, lo, n1 = I.fresh('inside', NAME), I.fresh('outside', NAME), I.fresh('net', NAME)
    ng = I.fresh('n_groups', Z)
    I.assume(dbu > 0, x2 > x1, n >= 0, ng >= 0)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    ti = tech(I)
    vs = I.literal('VSUBS', NAME)
    P = z3.Function('outside_polygon', Z, Reg.SORT)
    NET = z3.Function('outside_net', Z, NAME)
    Y = z3.Function('outside_y', Z, Z, R)
    neti = z3.If(li == vs, vs, n1)
    def neto(j): return z3.If(lo == vs, vs, NET(j))

    def elem(I, j):
        j = zint(j)
        I.assume(Y(j, 0) <= Y(j, 1), P(j) != Reg.EMPTY)
        p = part(Y(j, 0), Y(j, 1), P(j), net=NET(j), x=(I.fresh('bx1', R), I.fresh('bx2', R)))
        return p
    ps = SymSeq('outside', n, elem)
    SH = I.fresh('shield', Reg.SORT)
    I.externals['klayout.db.PolygonWithProperties'] = Builtin('PolygonWithProperties', with_props)
    I.ghost['defaultdict'] = lambda I, f: Groups(tr, ng) if isinstance(f, Builtin) and f.name == 'list' else None

    def fc(I, a, k):
        env = I.bind(m(I, 'fringe_cap'), a, k).vars
        for q in ('overlap_cap_spec', 'sideoverlap_cap_spec'):
            if not isinstance(env[q], Record):
                raise Undecided('specification')
        return FC(zreal(env['edge_interval_length']), zreal(env['distance_near']), zreal(env['distance_far']),
                  zreal(env['overlap_cap_spec'].fields['capacitance']), zreal(env['sideoverlap_cap_spec'].fields['capacitance']))
    I.contracts[f'{MOD}:{VIS}.fringe_cap'] = fc
    v = visitor(I, visitor_class(I), dict(dbu=dbu, tech_info=ti, results=Sink(tr, {'add_sideoverlap_cap': 'cap'}), report=Docs(tr, 'output_sideoverlap') if doc else Sink(tr, {}, ignore=True)))
    hov, hvo, hso = has2(I, 'overlap', li, lo), has2(I, 'overlap', lo, li), has2(I, 'sideoverlap', li, lo)
    ov = z3.If(hov, val2(I, 'overlap', 'capacitance', li, lo), val2(I, 'overlap', 'capacitance', lo, li))
    so = val2(I, 'sideoverlap', 'capacitance', li, lo)
    spec = z3.And(z3.Or(hov, hvo), hso)
    I.ghost['log_names'] = None

    t = Placing()
    lat = Poly(I.fresh('lateral', Reg.SORT)) if doc and I.branch(I.fresh('shielded', B)) else None

    def part_ok(I, ev, net, y1, y2):
        if doc:
            for d in documented(I, ev, 'sideoverlap_cap'):
                interval_edge(I, 'inside edge', d['inside_edge'], t, x1, x2)
                p = in_place(I, 'outside polygon', d['outside_polygon'], t)
                if p is not None:
                    I.prove('outside polygon: the part it is about', z3.And(p.y[0] == y1, p.y[1] == y2) if hasattr(p, 'y') else z3.BoolVal(False))
                if lat is None:
                    I.prove('no lateral shield', z3.BoolVal(d['lateral_shield'] is None))
                else:
                    in_place(I, 'lateral shield', d['lateral_shield'], t, lat)
            return
        near, far = z3.If(y1 < 0, z3.RealVal(0), y1), z3.If(y2 < 0, z3.RealVal(0), y2)
        c = FC(x2 - x1, near, far, ov, so)
        want = z3.And(far != near, c > z3.Q(1, 10000))
        caps = [e[1] for e in ev if e[0] == 'cap']
        if len(caps) > 1:
            I.prove('one capacitance per part', z3.BoolVal(False))
        elif not caps:
            I.prove('no part above the threshold is left out', z3.Not(want))
        else:
            I.prove('recorded only above the threshold', want)
            k = key_of(caps[0], 'SideOverlapKey')
            if k is None:
                raise Undecided('recorded something else')
            I.prove('under both layers and nets', z3.And(lay(I, k.fields['layer_inside']) == li, lay(I, k.fields['net_inside']) == neti,
                    lay(I, k.fields['layer_outside']) == lo, lay(I, k.fields['net_outside']) == net))
            I.prove('value: fringe capacitance of the part', zreal(caps[0].fields['cap_value']) == c)

    def grouped(I, ev, j, y1, y2, whole):
        g = [e for e in ev if e[0] == 'group']
        if g:
            if len(g) > 1 or len(ev) > 1:
                I.prove('every part is looked at once', z3.BoolVal(False))
                return
            _, net, p = g[0]
            if not hasattr(p, 'y'):
                raise Undecided('grouped something else')
            I.prove('the part is filed under the net of its polygon', z3.And(lay(I, net) == neto(j), p.y[0] == y1, p.y[1] == y2))
        else:
            part_ok(I, ev, neto(j), y1, y2)

    def check(I, L, k, ev):
        t = base_tag(L.it.tag)
        if t == 'outside':
            I.ghost['j'] = k
            if not ev:
                I.prove('a polygon is left out only if it is of the same net or wholly shielded',
                        z3.Or(neto(k) == neti, Reg.minus(P(k), SH) == Reg.EMPTY))
                return
            I.prove('polygons of the same net do not count', neto(k) != neti)
            loops = [e for e in ev if e[0] == 'loop']
            if loops:
                I.prove('the parts of the polygon that are not shielded', z3.And(z3.BoolVal(len(ev) == 1 and base_tag(loops[0][2].it.tag)[0] == 'parts'),
                        zset_eq(base_tag(loops[0][2].it.tag)[1], Reg.minus(P(k), SH)), zint(loops[0][2].it.n) == NP(Reg.minus(P(k), SH))))
            else:
                I.prove('a whole polygon counts only without shield', z3.Or(SH == Reg.EMPTY))
                grouped(I, ev, k, Y(k, 0), Y(k, 1), True)
        elif isinstance(t, tuple) and t[0] == 'parts':
            j = I.loop_stack[-1][2] if I.loop_stack else None
            if j is None:
                raise Undecided('parts outside the loop over polygons')
            grouped(I, ev, j, BY(t[1], k, 0), BY(t[1], k, 1), False)
        elif isinstance(t, tuple) and t[0] == 'members':
            part_ok(I, ev, GNET(t[1]), GY(t[1], k, 0), GY(t[1], k, 1))
        elif t == 'groups':
            if not (len(ev) == 1 and ev[0][0] == 'loop'):
                raise Undecided('groups')
            I.prove('all parts of a net', z3.And(base_tag(ev[0][2].it.tag)[1] == k, zint(ev[0][2].it.n) == GN(k)))
        else:
            raise Undecided(f'loop over {t}')
    I.auto_loop = lambda it: AutoTrace(str(base_tag(it.tag))[:20], tr, check)
    I.call(BoundMethod(m(I, 'emit_fringe'), v), [], dict(inside_layer_name=li, outside_layer_name=lo, edge=Poly(Reg.EMPTY, net=n1),
           edge_interval=(x1, x2), outside_polygons=ps, shield=PartReg(SH), lateral_shield=lat, geometry_restorer=restorer(I, t) if doc else Sink(tr, {}, ignore=True)))
    loops = [(base_tag(e[2].it.tag), e[2]) for e in tr.events if e[0] == 'loop']
    tags = [t for t, _ in loops]
    if not tr.events:
        I.prove('nothing only without specification', z3.Not(spec))
        return
    I.prove('only with specification', spec)
    if len(loops) != len(tr.events) or tags not in (['outside', 'groups'], ['outside']):
        raise Undecided(f'events {tags}')
    I.prove('all polygons are looked at', zint(loops[0][1].it.n) == n)
    if len(loops) > 1:
        I.prove('all nets are looked at', zint(loops[1][1].it.n) == ng)


def zset_eq(a, b): return a == b


def with_props(I, a, k):
    p = a[0]
    net = I.getitem(a[1] if len(a) > 1 else k['properties'], 'net')
    q = Poly(p.v, net=net, **p.attrs)
    for x in ('y', 'part'):
        if hasattr(p, x):
            setattr(q, x, getattr(p, x))
    return q


def cap(I):
    """ensures: 2/pi * (atan(a*far) - atan(a*near)) [/ its value at the halo, if scaling and the halo is above 0] * length * spec / 1000, a = overlap / 50"""
    dbu, ln, near, far, ov, so, halo = [I.fresh(x, R) for x in ('dbu', 'length', 'near', 'far', 'ov', 'so', 'halo')]
    scale = I.fresh('scale', B)
    pi = z3.Real('pi')
    I.assume(dbu > 0, ln > 0, near >= 0, far > near, ov > 0, so >= 0, halo >= 0, pi > 3)
    ti = tech(I, tech=Record('technology', dict(process_parasitics=Record('pp', dict(side_halo=halo)))))
    v = visitor(I, visitor_class(I), dict(dbu=dbu, tech_info=ti, scale_ratio_to_fit_halo=scale))
    # requires of math.atan: positive above 0 and 0 at 0
    a = z3.Q(2, 100) * ov
    A = lambda x: ATAN(x)
    I.assume(z3.If(halo > 0, A(a * halo) > 0, A(a * halo) == 0))
    r = I.call(BoundMethod(m(I, 'fringe_cap'), v), [], dict(edge_interval_length=ln, distance_near=near, distance_far=far,
               overlap_cap_spec=Record('ov', dict(capacitance=ov)), sideoverlap_cap_spec=Record('so', dict(capacitance=so))))
    full = 2 / pi * A(a * halo)
    frac = 2 / pi * A(a * (far * dbu)) - 2 / pi * A(a * (near * dbu))
    val = frac * (ln * dbu) * so / 1000
    I.prove('value', z3.If(z3.And(scale, halo > 0, full < 1), zreal(r) * full == val, zreal(r) == val))


def extract(I):
    """ensures: one edge neighborhood operation per layer with the visitor of that layer; child i is layer i except the layer
    itself (other shapes of it), followed by the polygon itself"""
    sc = I.fresh('scale', B)

    def check(I, k, kids, v, kw, n, dbu, ti):
        halo = I.getattr(I.getattr(I.getattr(ti, 'tech'), 'process_parasitics'), 'side_halo')
        I.prove('as many children as layers and the polygon itself', count_of(I, kids) == n + 1)
        j = I.fresh('child', Z)
        I.assume(j >= 0, j < n, j != k)
        I.prove('child i is layer i', is_layer_node(I, I.getitem(kids, j), j))
        c, p = I.getitem(kids, k), I.getitem(kids, n)
        I.prove('other shapes of the layer are child <index of the layer>', z3.BoolVal(isinstance(c, Record) and c.name == 'node:foreign'))
        I.prove('the polygon itself is the last child', z3.BoolVal(isinstance(p, Record) and p.name == 'node:primary'))
        I.prove('scaling is passed on', z3.BoolVal(v.get('scale_ratio_to_fit_halo') is sc))
        geometry(I, kw, dbu, halo)
    I.ghost['int_of'] = lambda I, x: floor_of(I, x)
    set_up(I, MOD, 'SidewallAndFringeExtractor', 'edge_neighborhood', more=dict(scale_ratio_to_fit_halo=sc), check=check)


HARNESSES = [('on_edge', lambda I: on_edge(I, 'emit_fringe')), ('emit', emit), ('cap', cap), ('extract', extract),
             ('recorded', recorded('add_sideoverlap_cap', 'sideoverlap_table', 'SideOverlapKey'))]
