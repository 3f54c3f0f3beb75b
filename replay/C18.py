"""resistance extraction: the technology and the request handed to the solver, and its network as result"""
RULE = ('random technologies (split layers, MOS and MIM parts, contacts, vias; some resistances, contacts or via entries missing) and layouts as real LVS '
        'databases: conductors, vias, pins, terminals and shapes of the request compared with the technology and the extracted layers; the solver is '
        'observed and the result compared with its network, with every pin / terminal carrying a net name of its own; non-trivial: a network with elements')
N = 60
BUDGET_S = 75
from .lvs import *
import collections
PR = {}


class Skip(Exception):
    pass


def cases(rng, n):
    for i in range(n):
        c = add_devices(rng, rand_case(rng, n=rng.choice([4, 6])))
        c['alg'] = [rng.choice([1, 2]), rng.choice([1, 2])]
        c['b'], c['amax'], c['merge'], c['skip'] = rng.choice([.3, .5, 1.0]), rng.choice([0.0, .5, 20.0]), rng.choice([0.0, .3]), rng.random() < .5
        c['drop'] = rng.choice([None, None, 'layer', 'via', 'contact', 'stack'])
        c['which'] = rng.randrange(100)
        if c['mos'] and i % 3 == 1:       # the contacts to diffusions and to poly are parts of one layer
            next(x for x in c['comp'] if x[0] == 'licon_poly_con')[2] = [66, 44]
            c['drop'] = rng.choice([c['drop'], 'contact', 'stack'])
            c['comp'] = rng.sample(c['comp'], len(c['comp'])) if rng.random() < .5 else c['comp']
        if rng.random() < .3:       # a ring
            x, y = rng.randrange(-3, 3), rng.randrange(6, 9)
            nm = rng.choice([q[0] for q in c['comp'] if q[1] in c['metals'] and q[3] != 'PIN'])
            c['rings'] = [[nm, x, y]]
        yield c


def trivial(c): return len(c['metals']) < 2


def technology(c):
    t = tech_pb(c)
    res, w = t.process_parasitics.resistance, c['which']
    if c['drop'] in ('layer', 'via', 'contact'):
        f = {'layer': res.layers, 'via': res.vias, 'contact': res.contacts}[c['drop']]
        if len(f):
            del f[w % len(f)]
    elif c['drop'] == 'stack':
        ls = [l for l in t.process_stack.layers if l.HasField('metal_layer') and l.metal_layer.HasField('contact_above')]
        if ls:
            ls[w % len(ls)].metal_layer.ClearField('contact_above')
    # resistances differ from layer to layer
    for i, r in enumerate(list(res.layers) + list(res.vias) + list(res.contacts)):
        r.resistance += 1000 * i
    for i, l in enumerate(t.process_stack.layers):
        for f in ('metal_layer', 'diffusion_layer'):
            if l.HasField(f) and getattr(l, f).HasField('contact_above'):
                getattr(l, f).contact_above.width += .01 * i
    return t


def r9(x): return float('%.9g' % x)


def expected_tech(c, ctx, t, pb):
    """what the technology says about the extracted layers"""
    ly = lambda p: ctx.annotated_layout.layer(*p)
    comp = {}
    for x in t.lvs_computed_layers:
        comp[(x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype)] = x
    contacts, ends = {}, {}
    for l in t.process_stack.layers:
        for f in ('nwell_layer', 'diffusion_layer', 'metal_layer'):
            if l.HasField(f) and getattr(l, f).HasField('contact_above'):
                k = getattr(l, f).contact_above
                contacts[k.name] = k
                if f == 'metal_layer':
                    ends[k.name] = (k.layer_below, k.metal_above)
    pairs = {x.name: (x.drw_gds_pair.layer, x.drw_gds_pair.datatype) for x in t.layers}
    pairs.update({x.layer_info.name: (x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype) for x in t.lvs_computed_layers})
    R = t.process_parasitics.resistance
    lr, vr, cr = {x.layer_name: x.resistance for x in R.layers}, {x.via_name: x.resistance for x in R.vias}, \
        {x.device_layer_name: x.resistance for x in R.contacts}
    cond, via = [], []
    for p, li in ctx.extracted_layers.items():
        x = comp[p]
        if x.kind == type(x).KIND_PIN:
            continue
        can, pu = x.original_layer_name, x.layer_info.purpose
        P = type(x.layer_info)
        for s in li.source_layers:
            me = (ly(s.gds_pair), can, s.lvs_layer_name)
            if pu in (P.PURPOSE_N_IMPLANT, P.PURPOSE_P_IMPLANT):
                cond.append(me + (c['alg'][0], c['b'], c['amax'], 0.0))
            elif pu == P.PURPOSE_METAL and can in lr:
                cond.append(me + (c['alg'][1], c['b'], c['amax'], r9(lr[can] / 1000)))
            else:
                k = contacts.get(s.lvs_layer_name)
                if k is None:
                    continue
                if pu == P.PURPOSE_CONTACT and k.layer_below in cr:
                    r, (b, a) = cr[k.layer_below], (k.layer_below, k.metal_above)
                elif pu == P.PURPOSE_VIA and can in vr and s.lvs_layer_name in ends:
                    r, (b, a) = vr[can], ends[s.lvs_layer_name]
                else:
                    continue
                via.append(me + (ly(pairs[b]), b, ly(pairs[a]), a, r9(r / 1000 * k.width ** 2), c['merge']))
    return sorted(cond), sorted(via)


def got_tech(q):
    L = lambda l: (l.id, l.canonical_layer_name, l.lvs_layer_name)
    return (sorted(L(x.layer) + (x.algorithm, x.triangulation_min_b, x.triangulation_max_area, r9(x.resistance)) for x in q.conductors),
            sorted(L(x.layer) + (x.bottom_conductor.id, x.bottom_conductor.canonical_layer_name, x.top_conductor.id, x.top_conductor.canonical_layer_name,
                                 r9(x.resistance), x.merge_distance) for x in q.vias))


def region(pb):
    r = kdb.Region()
    for p in pb.polygons:
        r.insert(kdb.Polygon([kdb.Point(q.x, q.y) for q in p.hull_points]))
    return r


def split(pb):
    '''each polygon in a lower and an upper half'''
    old = [region(type(pb)(polygons=[p])) for p in pb.polygons]
    del pb.polygons[:]
    for r in old:
        b = r.bbox()
        m = (b.bottom + b.top) // 2
        for h in (kdb.Box(b.left, b.bottom, b.right, m), kdb.Box(b.left, m, b.right, b.top)):
            for q in (r & kdb.Region(h)).each():
                p = pb.polygons.add()
                for x in q.each_point_hull():
                    p.hull_points.add(x=x.x, y=x.y)


def check(c):
    import klayout.pex as klp
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    from klayout_pex.tech_info import TechInfo
    import klayout_pex.rcx25.r.r_extractor as M
    l2n, keep = database(c)
    t = technology(c)
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n, top_cell='TOP', tech=TechInfo(t, None), blackbox_devices=c['blackbox'])
    q = M.RExtractor(pex_context=ctx, substrate_algorithm=c['alg'][0], wire_algorithm=c['alg'][1], delaunay_b=c['b'], delaunay_amax=c['amax'],
                     via_merge_distance=c['merge'], skip_simplify=c['skip'])
    req = q.prepare_request()
    w, g = expected_tech(c, ctx, t, req.tech), got_tech(req.tech)
    for what, a, b in zip(('conductors', 'vias'), w, g):
        if a != b:
            d = [x for x in a + b if a.count(x) != b.count(x)]
            return f'{what} of the solver\'s technology differ from the technology: {d[0]} is {b.count(d[0])} times there instead of {a.count(d[0])}'
    if req.tech.skip_simplify != c['skip']:
        return 'the simplification option is lost'
    # the request
    names = [x.net_name for x in req.net_extraction_requests]
    if len(set(names)) != len(names):
        return f'several requests for one net: {names}'
    R = {x.net_name: x for x in req.net_extraction_requests}
    pins = sorted((p.net_name, p.SerializeToString(deterministic=True)) for l in ctx.pins_pb2_by_layer.values() for p in l)
    gp = sorted((n, p.SerializeToString(deterministic=True)) for n, x in R.items() for p in x.pins)
    if pins != gp:
        return f'pins in the requests of {[x[0] for x in gp]} instead of {[x[0] for x in pins]}'
    tm = sorted((x.net_name, x.SerializeToString(deterministic=True)) for d in ctx.devices_by_name.values() for x in d.terminals)
    gt = sorted((n, x.SerializeToString(deterministic=True)) for n, r in R.items() for x in r.device_terminals)
    if tm != gt:
        return f'terminals in the requests of {[x[0] for x in gt]} instead of {[x[0] for x in tm]}'
    comp = ctx.tech.computed_layer_info_by_gds_pair
    LK = type(t.lvs_computed_layers[0])
    want = collections.defaultdict(set)
    nl = l2n.netlist()
    top = nl.circuit_by_name('TOP')
    for net in top.each_net():
        n = net.expanded_name()
        for p, li in ctx.extracted_layers.items():
            for s in li.source_layers:
                if comp[s.gds_pair].kind in (LK.KIND_PIN, LK.KIND_LABEL):
                    continue
                r = kdb.Region()
                for s2 in li.source_layers:
                    for pg in s2.region.each():
                        if pg.property('net') == n:
                            r.insert(kdb.SimplePolygon(pg.to_simple_polygon()))
                r.merge()
                if r.count():
                    want[n].add((ctx.annotated_layout.layer(*p), comp[p].original_layer_name, s.lvs_layer_name, str(r)))
    for n in set(want) | set(R):
        g = {(x.layer.id, x.layer.canonical_layer_name, x.layer.lvs_layer_name, str(region(x.region).merged())) for x in (R[n].region_by_layer if n in R else ())}
        if g != want.get(n, set()):
            d = sorted(g ^ want.get(n, set()))[0]
            return f'net {n}: shapes {d} are ' + ('in its request but not in the layout' if d in g else 'not in its request')
    # the result: every pin and terminal gets a net name of its own, so that a swapped port shows
    marks = {}
    for i, x in enumerate(req.net_extraction_requests):
        for j, p in enumerate(x.pins):
            p.net_name = f'pin{i}_{j}'
            marks.setdefault((i, p.layer.id, 'V', p.label_point.x, p.label_point.y), []).append(p.net_name)
        for j, d in enumerate(x.device_terminals):
            d.net_name = f'term{i}_{j}'
            for l in d.region_by_layer:
                if c['which'] % 2:          # terminals of several polygons
                    split(l.region)
                for pg in l.region.polygons:
                    b = region(type(l.region)(polygons=[pg])).bbox()
                    marks.setdefault((i, l.layer.id, 'P', b.left, b.bottom, b.right, b.top), []).append(d.net_name)
    seen = []

    class Recorder:
        def __init__(self, dbu): self.x, self.dbu = klp.RNetExtractor(dbu), dbu

        def extract(self, *a):
            n = self.x.extract(*a)
            seen.append((n, self.dbu, a))
            return n

    class Proxy:
        RNetExtractor = Recorder
        def __getattr__(self, n): return getattr(klp, n)
    M.klp, old = Proxy(), M.klp
    try:
        res = q.extract(req)
    finally:
        M.klp = old
    if len(seen) != len(req.net_extraction_requests) or [x.net_name for x in res.networks] != names:
        return f'networks {[x.net_name for x in res.networks]} for the nets {names}'
    layer = {x.layer.id: x.layer.canonical_layer_name for x in list(req.tech.conductors) + list(req.tech.vias)}
    for v in req.tech.vias:
        for e in (v.bottom_conductor, v.top_conductor):
            layer.setdefault(e.id, e.canonical_layer_name)
    inner = {}
    tech_pb2 = req.tech
    want_solver = (tech_pb2.skip_simplify, sorted((x.layer.id, x.algorithm, x.triangulation_min_b, x.triangulation_max_area, r9(x.resistance)) for x in tech_pb2.conductors),
                   sorted((x.layer.id, x.bottom_conductor.id, x.top_conductor.id, r9(x.resistance), x.merge_distance) for x in tech_pb2.vias))
    alg = {klp.Algorithm.SquareCounting: 1, klp.Algorithm.Tesselation: 2}
    real = set(names) | {m for l in marks.values() for m in l}
    for i, (nw, (n, dbu, a)) in enumerate(zip(res.networks, seen)):
        if dbu != c['dbu']:
            return f'solver called with database unit {dbu}'
        k, r = a[0], req.net_extraction_requests[i]
        g = (k.skip_simplify, sorted((x.layer, alg[x.algorithm], x.triangulation_min_b, x.triangulation_max_area, r9(x.resistance)) for x in k.each_conductor()),
             sorted((x.cut_layer, x.bottom_conductor, x.top_conductor, r9(x.resistance), x.merge_distance) for x in k.each_via()))
        if g != want_solver:
            return f'the solver works with the technology {g} instead of {want_solver}'
        g = sorted((l, q.x, q.y) for l, ps in a[2].items() for q in ps)
        w = sorted((p.layer.id, p.label_point.x, p.label_point.y) for p in r.pins)
        if g != w:
            return f'net {nw.net_name}: vertex ports {g} instead of {w}'
        g = sorted((l, str(q)) for l, ps in a[3].items() for q in ps)
        w = sorted((l.layer.id, str(q)) for d in r.device_terminals for l in d.region_by_layer for pg in l.region.polygons
                   for q in [kdb.Polygon([kdb.Point(v.x, v.y) for v in pg.hull_points])])
        if g != w:
            return f'net {nw.net_name}: polygon ports {g} instead of {w}'
        nodes = {x.object_id(): x for x in n.each_node()}
        if sorted(nodes) != sorted(x.node_id for x in nw.nodes):
            return f'net {nw.net_name}: {len(nw.nodes)} nodes instead of the {len(nodes)} of the solver'
        for x in nw.nodes:
            s = nodes[x.node_id]
            if (x.node_name, x.layer_name) != (s.to_s(), layer[s.layer()]):
                return f'net {nw.net_name}: node {s.to_s()} on layer {layer[s.layer()]} became {x.node_name} on {x.layer_name}'
            if getattr(x.location, x.location.WhichOneof('location')).net != x.net_name:
                return f'net {nw.net_name}: the location of node {x.node_name} says another net than its {x.net_name}'
            lo = s.location()
            um = lambda v: v / c['dbu']
            off = lambda g, at: any(abs(u - v) > .501 for u, v in zip(g, at))
            if s.type() == klp.RNodeType.VertexPort:
                at = (um(lo.center().x), um(lo.center().y))
                if off((x.location.point.x, x.location.point.y), at):
                    return f'net {nw.net_name}: node {x.node_name} at {at} is placed elsewhere'
                m = marks.get((i, s.layer(), 'V') + tuple(map(round, at)), [])
            else:
                at = (um(lo.left), um(lo.bottom), um(lo.right), um(lo.top))
                b = x.location.box
                if off((b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y), at):
                    return f'net {nw.net_name}: node {x.node_name} at {at} is placed elsewhere'
                m = marks.get((i, s.layer(), 'P') + tuple(map(round, at)), [])
            if s.type() in (klp.RNodeType.VertexPort, klp.RNodeType.PolygonPort):
                if m and x.net_name not in m:
                    return f'net {nw.net_name}: port node {x.node_name} belongs to {x.net_name} instead of {m}'
                if not m and x.net_name not in real:
                    return f'net {nw.net_name}: port node {x.node_name} belongs to the unknown {x.net_name}'
            else:
                if x.net_name in real or x.net_name in inner:
                    return f'inner node {x.node_name} of net {nw.net_name} has the net name {x.net_name} of ' \
                           f'{"another net" if x.net_name in real else inner[x.net_name]}'
                inner[x.net_name] = f'node {x.node_name} of net {nw.net_name}'
        g = sorted((e.element_id, *sorted((e.node_a.node_id, e.node_b.node_id)), r9(e.resistance)) for e in nw.elements)
        w = sorted((e.object_id(), *sorted((e.a().object_id(), e.b().object_id())), r9(e.resistance())) for e in n.each_element())
        if g != w:
            return f'net {nw.net_name}: elements {g} instead of {w}'
        for x in req.net_extraction_requests[i].region_by_layer:
            if str(region(x.region).merged()) != str(a[1][x.layer.id].merged()):
                return f'net {nw.net_name}: the solver gets other shapes on {x.layer.lvs_layer_name}'
