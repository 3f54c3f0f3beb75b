from .rcx import *

MOD = 'klayout_pex.rcx25.c.overlap_extractor'
ASSUMPTIONS = ['kdb.Region &, -, insert and area() are set intersection, difference, union and a function of the covered points',
               'KLayout hands every polygon of a layer once, with all polygons of other layers that overlap it (polygon neighborhood operation)',
               'floats treated as exact']
POLY = z3.Function('poly_above', Z, Z, Reg.SORT)
NET = z3.Function('net_above', Z, Z, NAME)
NP = z3.Function('n_above', Z, Z)
HAS = z3.Function('has_layer', Z, B)
SHL = z3.Function('shield_below_layer', Z, Reg.SORT)
SH = z3.Function('shield_before', Z, Z, Reg.SORT)


class Hood(Model):
    """PolygonNeighborhood: layer index -> polygons"""
    kind = 'Hood'

    def polys(self, I, l):
        I.assume(NP(l) >= 0)
        return SymSeq(('above', l), NP(l), lambda I, j: Poly(POLY(l, zint(j)), net=NET(l, zint(j))))

    def m_get(self, I, l, default=None):
        l = zint(l)
        if I.branch(HAS(l)):
            return self.polys(I, l)
        return default

    def getitem(self, I, l):
        l = zint(l)
        I.guard(HAS(l), 'KeyError')
        return self.polys(I, l)

    def contains(self, I, l): return HAS(zint(l))


def neighbors(I, doc=False):
    """requires: polygon of layer number s and its neighborhood.  ensures: for every polygon above, in the order of layers,
    exactly one overlap capacitance (or none if it is zero) iff its net differs and the pair of layers is specified:
    area of the common part minus every polygon of the layers passed * dbu^2 * spec / 1000, with both layers and nets"""
    install_region(I)
    nl, s = I.fresh('nlayers', Z), I.fresh('inside', Z)
    I.assume(nl >= 1, s >= 0, s < nl)
    dbu = I.fresh('dbu', R)
    bot, bnet = I.fresh('bottom', Reg.SORT), I.fresh('bottom_net', NAME)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    ti = tech(I)
    vs = I.literal('VSUBS', NAME)
    netb = z3.If(LN(s) == vs, vs, bnet)
    cls = I.repo(MOD, 'OverlapExtractor.PEXPolygonNeighborhoodVisitor')
    cls = cls[1] if isinstance(cls, tuple) else cls
    v = visitor(I, cls, {'layer_names': Layers(I, nl), 'inside_layer_index': s, 'dbu': dbu, 'tech_info': ti,
                  'results': Sink(tr, {'add_overlap_cap': 'cap'}), 'report': Docs(tr, 'output_overlap') if doc else Sink(tr, {}, ignore=True)})

    def layer(L, k):
        e = L.it.elem(I, k)
        return zint(e[0] if isinstance(e, tuple) else e)

    def in_layer(it): return isinstance(base_tag(it.tag), tuple) and base_tag(it.tag)[0] == 'above'
    def lidx(L): return base_tag(L.it.tag)[1]

    def inner_facts(L, k):
        l = lidx(L)
        return [SH(l, 0) == SHL(l), SH(l, k + 1) == Reg.union(SH(l, k), POLY(l, k))]

    def outer_facts(L, k):
        l = layer(L, k)
        return [SHL(s + 1) == Reg.EMPTY, SHL(l + 1) == z3.If(HAS(l), SH(l, NP(l)), SHL(l)), SH(l, 0) == SHL(l)]

    def check(I, L, k, ev):
        l = lidx(L)
        if doc:
            for d in documented(I, ev, 'overlap_cap'):
                ok = isinstance(d['top_polygon'], Poly) and isinstance(d['overlap_area'], Reg)
                I.prove('with the polygon it is about', z3.And(z3.BoolVal(d['bottom_polygon'] is poly), d['top_polygon'].v == POLY(l, k)) if ok else z3.BoolVal(False))
                I.prove('with the common area that counts', d['overlap_area'].v == Reg.minus(Reg.inter(POLY(l, k), bot), SH(l, k)) if ok else z3.BoolVal(False))
            return
        top = LN(l)
        bl = LN(s)
        area = Reg.AREA(Reg.minus(Reg.inter(POLY(l, k), bot), SH(l, k)))
        cap = area * dbu * dbu * val2(I, 'overlap', 'capacitance', top, bl) / 1000
        want = z3.And(NET(l, k) != netb, has2(I, 'overlap', top, bl), cap > 0)
        caps = [e[1] for e in ev if e[0] == 'cap']
        if len(ev) != len(caps) or len(caps) > 1:
            I.prove('at most one capacitance per polygon above', z3.BoolVal(False))
            return
        if not caps:
            I.prove('a specified, visible overlap with another net is recorded', z3.Not(want))
            return
        c = caps[0]
        I.prove('recorded only for a specified, visible overlap with another net', want)
        kk = key_of(c, 'OverlapKey')
        if kk is None:
            raise Undecided('recorded something else')
        for f, exp in (('layer_top', top), ('net_top', NET(l, k)), ('layer_bot', bl), ('net_bot', netb)):
            I.prove(f'recorded with its {f}', lay(I, kk.fields[f]) == exp)
        I.prove('value: visible common area times specified capacitance', zreal(c.fields['cap_value']) == cap)

    def outer_check(I, L, k, ev):
        l = layer(L, k)
        loops = [e[2] for e in ev if e[0] == 'loop']
        if len(loops) != len(ev) or len(loops) > 1:
            raise Undecided('events outside the loop over polygons')
        if not loops:
            I.prove('a layer is skipped only when it has no polygons above', z3.Or(z3.Not(HAS(l)), NP(l) <= 0))
        else:
            I.prove('all polygons of the layer are looked at', z3.And(lidx(loops[0]) == l, zint(loops[0].it.n) == NP(l)))
    inner = RegionLoop('polygons above', lambda I, it: in_layer(it), lambda L, k: SH(lidx(L), k), inner_facts, tr, check)
    outer = RegionLoop('layers above', lambda I, it: not in_layer(it) and it.n is not None,
                       lambda L, k: SHL(layer(L, k)), outer_facts, tr, outer_check)
    I.assume(SHL(s + 1) == Reg.EMPTY)
    I.loop_specs = [inner, outer]
    poly = Poly(bot, net=bnet)
    m = I.repo(MOD, 'OverlapExtractor.PEXPolygonNeighborhoodVisitor.neighbors')
    I.call(BoundMethod(m[1] if isinstance(m, tuple) else m, v), [Record('layout', {}), Record('cell', {}), poly, Hood()])
    loops = [e[2] for e in tr.events if e[0] == 'loop']
    I.prove('one pass over the layers', z3.BoolVal(len(loops) == len(tr.events) == 1))
    if len(loops) == 1:
        L = loops[0]
        j = I.fresh('layer', Z)
        I.assume(j > s, j < nl)
        I.prove('every layer above is visited', z3.And(layer(L, j - s - 1) == j, zint(L.it.n) == nl - s - 1))


def extract(I):
    """requires: the layers in stack order.  ensures: for every layer one neighborhood operation on its shapes, with the
    visitor of that layer, and as children all layers, child i being layer i"""
    def check(I, k, kids, v, kw, n, dbu, ti):
        I.prove('only true overlaps are looked at', z3.BoolVal(all(x in ('dist', 'd') and y == 0 for x, y in kw.items())))
        j = I.fresh('child', Z)
        I.assume(j >= 0, j < n)
        I.prove('as many children as layers', count_of(I, kids) == n)
        I.prove('child i is layer i', is_layer_node(I, I.getitem(kids, j), j))
    set_up(I, MOD, 'OverlapExtractor', 'polygon_neighborhood', check=check)


HARNESSES = [('neighbors', neighbors), ('extract', extract),
             ('recorded', recorded('add_overlap_cap', 'overlap_table', 'OverlapKey'))]
