"""the report database of an extraction"""
RULE = ('random capacitances, requests and results documented by the reporter, the database compared category by category and shape by shape; and real extractions (random technologies '
        'and layouts) whose report is compared with their results; non-trivial: something to document')
N = 160
BUDGET_S = 60
import collections
import os, tempfile
from replay.lvs import *
import klayout.db as kdb
import klayout.rdb as rdb

NAMES = ['A', 'B', 'VDD', 'net_1', 'x.y', 'VSUBS', "q'", 'A$1', 'n 2', 'Ω']
LAYERS = ['met1', 'met2', 'poly', 'm.3', 'VSUBS']


def poly(rng):
    x, y = rng.randrange(-5000, 5000), rng.randrange(-5000, 5000)
    w, h = rng.randrange(10, 900), rng.randrange(10, 900)
    p = [[x, y], [x, y + h], [x + w, y + h], [x + w, y]]
    if rng.random() < .4:
        p = [[x, y], [x, y + h], [x + w // 2, y + h], [x + w // 2, y + h // 2], [x + w, y + h // 2], [x + w, y]]
    return p


def val(rng): return rng.choice([0.0, 1e-4, .0005, 1.0, 12.34567, 3e5, round(rng.uniform(0, 50), 7)])


def cases(rng, n):
    for i in range(n):
        k = ['caps', 'result', 'request', 'caps', 'result', 'full', 'hood'][i % 7]
        c = dict(kind=k, dbu=rng.choice([.001, .005, .0005]), cell=rng.choice(['TOP', 'inv.1', 'a b']))
        nm, ly = lambda: rng.choice(NAMES[:rng.randrange(2, 10)]), lambda: rng.choice(LAYERS)
        e = lambda: [rng.randrange(-5000, 5000) for _ in range(4)]
        pt = lambda: [rng.randrange(-5000, 5000), rng.randrange(-5000, 5000)]
        if k == 'full':
            f = rand_case(rng, n=rng.choice([4, 6]))
            from replay.edges import rand_tech
            f['tables'] = rand_tech(rng, ['VSUBS'] + f['metals'], 1.0)
            for x in f['tables']['ov']:
                x[2] = x[2] or 1.0
            for _, v in f['tables']['sub'].items():
                v[0] = v[0] or 1.0
            c['full'], c['mode'] = f, rng.choice(['CC', 'RC', 'R'])
        elif k == 'caps':
            c['caps'] = [[rng.choice(['overlap', 'sidewall', 'fringe']), [ly(), nm(), ly(), nm()], val(rng), val(rng), val(rng), poly(rng), poly(rng), e(), e(), rng.random() < .5]
                         for _ in range(rng.randrange(0, 14))]
        elif k == 'hood':
            c['hood'] = [[ly(), nm(), e(), [[rng.choice([[0, 5], [5, 9]]), [[j, [poly(rng) for _ in range(rng.randrange(1, 3))]] for j in rng.sample(range(5), rng.randrange(0, 4))]]
                                           for _ in range(rng.randrange(0, 4))], rng.randrange(1, 6)] for _ in range(rng.randrange(1, 4))]
        elif k == 'result':
            ns = []
            for r in range(rng.randrange(0, 4)):
                ids = rng.sample(range(1, 60), rng.randrange(1, 7))
                nodes = [[i, rng.choice([f'N{i}', nm()]), nm(), ly(), rng.choice(['point', 'box']), pt(), rng.choice([None, nm()]), rng.randrange(4, 300), rng.randrange(4, 300)] for i in ids]
                ns.append([f'{nm()}{r}', nodes, [[rng.choice(ids), rng.choice(ids), rng.choice([.001, .000999, 0.0, 5e-7, 1.5, 100.12345, 1e6, val(rng)])] for _ in range(rng.randrange(0, 8))]])
            c['nets'] = ns
        else:
            l2r = lambda: [[ly(), [poly(rng) for _ in range(rng.randrange(1, 3))]] for _ in range(rng.randrange(0, 3))]
            term = lambda: [[rng.choice('GSDAB'), nm(), l2r()] for _ in range(rng.randrange(0, 4))]
            pins = lambda: [[nm(), nm(), ly(), pt(), rng.choice([None, nm()])] for _ in range(rng.randrange(0, 4))]
            cond = [[j, rng.choice(LAYERS) + str(j), f'l{j}', val(rng)] for j in rng.sample(range(30), rng.randrange(0, 5))]
            ids = [x[0] for x in cond] + [99]
            c['req'] = dict(cond=cond, vias=[[50 + j, f'via{j}', f'v{j}', val(rng), rng.choice(ids), rng.choice(LAYERS), rng.choice(ids), rng.choice(LAYERS)] for j in range(rng.randrange(0, 4))], skip=rng.random() < .5,
                            devs=[[f'D{j}' + nm(), rng.choice(['nfet', 'cap']), [[p, rng.choice([0.0, 1.5, 1e-15, 3.0])] for p in rng.sample(['L', 'W', 'A', 'C'], rng.randrange(0, 4))], term()] for j in range(rng.randrange(0, 4))],
                            pins=pins(), nets=[[f'{nm()}{j}', pins(), term(), l2r()] for j in range(rng.randrange(0, 3))])
        yield c


class Skip(Exception):
    pass


def trivial(c): return not any(c.get(k) for k in ('caps', 'nets', 'req', 'full', 'hood'))


def P(p): return kdb.Polygon([kdb.Point(*q) for q in p])


def text(x):
    if isinstance(x, kdb.Box):
        x = kdb.Polygon(x)
    if isinstance(x, kdb.Polygon) and x.area() == 0:
        return '()'
    return str(x).split(' props')[0]


def tree(report, dbu):
    """category path -> shapes (in database units)"""
    out = {}
    cells = {c.rdb_id(): c.name() for c in report.each_cell()}

    def shape(v):
        t = kdb.VCplxTrans(1 / dbu)
        if v.is_polygon():
            return text(t * v.polygon())
        if v.is_box():
            return text(t * v.box())
        if v.is_edge():
            return str(t * v.edge())
        return None

    def walk(c, p):
        p = p + (c.name(),)
        out[p] = []
        for i in report.each_item_per_category(c.rdb_id()):
            out[p] += [s for s in map(shape, i.each_value()) if s is not None]
        for s in c.each_sub_category():
            walk(s, p)
    for c in report.each_category():
        walk(c, ())
    return out, list(cells.values())


def compare(report, dbu, cell, want, cats=()):
    """want: [(path, [shapes])] may repeat a path; cats: categories without shapes"""
    got, cells = tree(report, dbu)
    if cells != [cell]:
        return f'cells {cells}'
    exp = {}
    for p, s in want:
        exp.setdefault(tuple(p), []).extend(text(x) for x in s)
    for p in list(exp) + [tuple(c) for c in cats]:
        for i in range(1, len(p) + 1):
            exp.setdefault(p[:i], [])
    for p in exp:
        if p not in got:
            return f'{" / ".join(p)} is not in the report'
        if collections.Counter(exp[p]) != collections.Counter(got[p]):
            return f'{" / ".join(p)}: shapes {got[p]} instead of {exp[p]}'
    for p in got:
        if p not in exp and got[p]:
            return f'{" / ".join(p)} is in the report, but was not reported'
        if p not in exp and len(p) > 2 and not (len(p) > 3 and p[-1] in ('Nodes', 'Elements')):
            return f'{" / ".join(p)} is in the report, but nothing of the kind was reported'


def check(c):
    import klayout_pex.rcx25.extraction_results as E
    from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
    if c['kind'] == 'full':
        return full(c)
    r = ExtractionReporter(cell_name=c['cell'], dbu=c['dbu'])
    e = dict(caps=caps, result=result, request=request, hood=hood)[c['kind']](c, r, E)
    if e:
        return e
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, 'r.rdb.gz')
        r.save(p)
        if not os.path.exists(p):
            return 'the report is not saved'


def caps(c, r, E):
    want, n = [], collections.Counter()
    for kind, (l1, n1, l2, n2), v, d, ln, p1, p2, e1, e2, sh in c['caps']:
        a, b = kdb.Edge(*e1), kdb.Edge(*e2)
        x, y = P(p1), P(p2)
        xp, yp = kdb.PolygonWithProperties(x, {'net': n1}), kdb.PolygonWithProperties(y, {'net': n2})
        f = round(v, 3)
        if kind == 'overlap':
            base = ('[C] Overlap', f'top_layer={l1}', f'bot_layer={l2}', f'{n1} – {n2}')
            n[base] += 1
            reg = kdb.Region(x) & kdb.Region(y) if sh else kdb.Region([x, y])
            r.output_overlap(overlap_cap=E.OverlapCap(key=E.OverlapKey(layer_top=l1, net_top=n1, layer_bot=l2, net_bot=n2), cap_value=v, shielded_area=1.0, unshielded_area=2.0, tech_spec=None),
                             bottom_polygon=yp, top_polygon=xp, overlap_area=reg)
            k = base + (f'#{n[base]} {f} fF',)
            want += [(k + ('Top Polygon',), [x]), (k + ('Bottom Polygon',), [y]), (k + ('Overlap Area',), list(reg.each()))]
        elif kind == 'sidewall':
            base = ('[C] Sidewall', f'layer={l1}', f'inside={n1}', f'outside={n2}')
            n[base] += 1
            r.output_sidewall(sidewall_cap=E.SidewallCap(key=E.SidewallKey(layer=l1, net1=n1, net2=n2), cap_value=v, distance=d, length=ln, tech_spec=None), inside_edge=a, outside_edge=b)
            want.append((base + (f'#{n[base]}: len {ln} µm, distance {d} µm, {f} fF',), [a, b]))
        else:
            base = ('[C] Fringe / Side Overlap', f'inside_layer={l1}', f'inside_net={n1}', f'outside_layer={l2}', f'outside_net={n2}')
            n[base] += 1
            r.output_sideoverlap(sideoverlap_cap=E.SideOverlapCap(key=E.SideOverlapKey(layer_inside=l1, net_inside=n1, layer_outside=l2, net_outside=n2), cap_value=v), inside_edge=a,
                                 outside_polygon=yp, lateral_shield=x if sh else None)
            k = base + (f'#{n[base]}: {f} fF',)
            want += [(k + ('Inside Edge',), [a]), (k + ('Outside Polygon',), [y])] + ([(k + ('Lateral Shield',), [x])] if sh else [])
    return compare(r.report, c['dbu'], c['cell'], want)


def hood(c, r, E):
    class Geo:
        def restore_polygon(self, p): return p.moved(7, 3)
    want, cats, n = [], [], collections.Counter()
    for ly, net, e, iv, nl in c['hood']:
        edge = kdb.EdgeWithProperties(kdb.Edge(*e), {'net': net})
        names = LAYERS[:nl]
        r.output_edge_neighborhood(inside_layer=ly, all_layer_names=names, edge=edge, neighborhood=[(tuple(i), {j: [P(p) for p in ps] for j, ps in ch}) for i, ch in iv], geometry_restorer=Geo())
        cats.append(('[C] Edge Neighborhood Visitor', f'inside_layer={ly}', f'inside_net={net}'))
        for i, ch in iv:
            base = ('[C] Edge Neighborhood Visitor', f'inside_layer={ly}', f'inside_net={net}', f'Edge Interval: {tuple(i)}')
            n[base] += 1
            k = base + (f'#{n[base]}',)
            want.append((k + ('Edge',), [kdb.Edge(*e)]))
            for j, ps in ch:
                want.append((k + (f"Child {j}: {names[j] if j < nl else 'None'}",), [P(p).moved(7, 3) for p in ps]))
    return compare(r.report, c['dbu'], c['cell'], want, cats)


def mark(p): return kdb.Box(p[0] - 5, p[1] - 5, p[0] + 5, p[1] + 5)


def expect_result(res):
    want, cats = [], []
    for net in res.networks:
        base = ('[R] Extraction Result', 'Networks', f'Net {net.net_name}')
        cats += [base + ('Nodes',), base + ('Elements',)]
        at = {}
        for n in net.nodes:
            l = n.location
            b = mark((l.point.x, l.point.y)) if l.kind == 1 else kdb.Box(l.box.lower_left.x, l.box.lower_left.y, l.box.upper_right.x, l.box.upper_right.y)
            at[n.node_id] = (n, b)
            want.append((base + ('Nodes', f'{n.node_name}, port net {n.net_name}, layer {n.layer_name}'), [b]))
        for e in net.elements:
            (a, ab), (b, bb) = at[e.node_a.node_id], at[e.node_b.node_id]
            v = e.resistance
            ohm = f'{round(v, 3)} Ω' if v >= .001 else f'{round(v * 1000, 6)} mΩ'
            want.append((base + ('Elements', f'{a.node_name} ({a.layer_name}) ↔︎ {b.node_name} ({b.layer_name}): {ohm}'), [kdb.Path([ab.center(), bb.center()], 5).polygon()]))
    return want, cats


def result(c, r, E):
    import klayout_pex_protobuf.kpex.result.pex_result_pb2 as pb
    res = pb.RExtractionResult()
    for name, nodes, els in c['nets']:
        net = res.networks.add(net_name=name)
        for i, nn, pn, ly, kind, (x, y), owner, w, h in nodes:
            n = net.nodes.add(node_id=i, node_name=nn, net_name=pn, layer_name=ly)
            if kind == 'point':
                n.location.kind = 1
                n.location.point.x, n.location.point.y = x, y
                if owner:
                    n.location.point.net = owner
            else:
                n.location.kind = 3
                b = n.location.box
                b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y = x, y, x + w, y + h
                if owner:
                    b.net = owner
        for a, b, v in els:
            e = net.elements.add(resistance=v)
            e.node_a.node_id, e.node_b.node_id = a, b
    r.output_rex_result(res)
    return compare(r.report, c['dbu'], c['cell'], *expect_result(res))


def expect_request(q):
    want, cats = [], []
    R = '[R] Extraction Request'
    name = {x.layer.id: x.layer.canonical_layer_name for x in q.tech.conductors}
    T = (R, '[R] Extraction Tech')
    cats += [T + (f'Skip simplify: {q.tech.skip_simplify}',), T + ('Conductors',), T + ('Vias',)]
    for x in q.tech.conductors:
        cats.append(T + ('Conductors', f'{x.layer.id}: {x.layer.canonical_layer_name} (LVS {x.layer.lvs_layer_name}), {round(x.resistance, 3)} mΩ/µm^2'))
    for x in q.tech.vias:
        b, t = (name.get(y.id, y.canonical_layer_name) for y in (x.bottom_conductor, x.top_conductor))
        cats.append(T + ('Vias', f'{x.layer.id}: {x.layer.canonical_layer_name} (LVS {x.layer.lvs_layer_name}, {b}↔︎{t}), {round(x.resistance, 3)} mΩ/µm^2'))
    reg = lambda l: [P([(p.x, p.y) for p in g.hull_points]) for g in l.region.polygons]

    def terms(ts, base):
        for t in ts:
            for l in t.region_by_layer:
                want.append((base + (f'{t.name}: net {t.net_name}, layer {l.layer.canonical_layer_name}',), reg(l)))

    def pins(ps, base):
        for p in ps:
            want.append((base + (f'{p.label} (net {p.net_name} on layer {p.layer.canonical_layer_name})', 'label point'), [mark((p.label_point.x, p.label_point.y))]))
    for d in q.devices:
        base = (R, 'Devices', f'{d.device_name}: {d.device_class_name}')
        cats += [base + ('Params', f'{p.name}: {p.value}') for p in d.parameters] + [base + ('Terminals',), base + ('Params',)]
        terms(d.terminals, base + ('Terminals',))
    pins(q.pins, (R, 'Pins'))
    for n in q.net_extraction_requests:
        base = (R, 'Network Extraction Request', f'Net {n.net_name}')
        cats += [base + (x,) for x in ('Pins', 'Device Terminals', 'Layer Regions')]
        pins(n.pins, base + ('Pins',))
        terms(n.device_terminals, base + ('Device Terminals',))
        for l in n.region_by_layer:
            want.append((base + ('Layer Regions', f'Layer {l.layer.canonical_layer_name}'), reg(l)))
    return want, cats


def request(c, r, E):
    import klayout_pex_protobuf.kpex.request.pex_request_pb2 as pb
    x = c['req']
    q = pb.RExtractionRequest()
    q.tech.skip_simplify = x['skip']
    for i, can, lvs, v in x['cond']:
        k = q.tech.conductors.add(resistance=v)
        k.layer.id, k.layer.canonical_layer_name, k.layer.lvs_layer_name = i, can, lvs
    for i, can, lvs, v, b, bn, t, tn in x['vias']:
        k = q.tech.vias.add(resistance=v)
        k.layer.id, k.layer.canonical_layer_name, k.layer.lvs_layer_name = i, can, lvs
        k.bottom_conductor.id, k.bottom_conductor.canonical_layer_name, k.top_conductor.id, k.top_conductor.canonical_layer_name = b, bn, t, tn

    def l2r(m, ls):
        for ly, ps in ls:
            l = m.add()
            l.layer.canonical_layer_name = ly
            for p in ps:
                g = l.region.polygons.add()
                for a, b in p:
                    g.hull_points.add(x=a, y=b)

    def terms(m, ts):
        for n, net, ls in ts:
            t = m.add(name=n, net_name=net)
            l2r(t.region_by_layer, ls)

    def pins(m, ps):
        for lab, net, ly, (a, b), owner in ps:
            p = m.add(label=lab, net_name=net)
            p.layer.canonical_layer_name = ly
            p.label_point.x, p.label_point.y = a, b
            if owner:
                p.label_point.net = owner
    for n, cl, par, ts in x['devs']:
        d = q.devices.add(device_name=n, device_class_name=cl)
        for a, v in par:
            d.parameters.add(name=a, value=v)
        terms(d.terminals, ts)
    pins(q.pins, x['pins'])
    for n, ps, ts, ls in x['nets']:
        k = q.net_extraction_requests.add(net_name=n)
        pins(k.pins, ps)
        terms(k.device_terminals, ts)
        l2r(k.region_by_layer, ls)
    r.output_rex_request(q)
    return compare(r.report, c['dbu'], c['cell'], *expect_request(q))


def full(c):
    """the report of an extraction against its results"""
    from klayout_pex.rcx25.extractor import RCX25Extractor
    from klayout_pex.rcx25.pex_mode import PEXMode
    import klayout_pex.rcx25.extractor as M
    f = c['full']
    ctx = context(f)
    if ctx.lvsdb.netlist().top_circuit() is None:
        raise Skip()         # nothing was extracted
    reports, requests = [], []
    orig, prep = M.ExtractionReporter, M.RExtractor.prepare_request

    class Rep(orig):
        def __init__(self, **k):
            super().__init__(**k)
            reports.append(self)

    def keep(self):
        requests.append(prep(self))
        return requests[-1]
    M.ExtractionReporter, M.RExtractor.prepare_request = Rep, keep
    regions, side = {}, M.SidewallAndFringeExtractor

    def wrap(*a, **k):
        x = side(*a, **k)
        regions.update(x.layer_regions_by_name)
        return x
    M.SidewallAndFringeExtractor = wrap
    try:
        with tempfile.TemporaryDirectory() as t:
            p = os.path.join(t, 'r.rdb.gz')
            try:
                res = RCX25Extractor(pex_context=ctx, pex_mode=PEXMode[c['mode']], scale_ratio_to_fit_halo=True, delaunay_amax=0.0, delaunay_b=1.0, tech_info=ctx.tech, report_path=p).extract()
            except KeyError:
                raise Skip()
            if not os.path.exists(p):
                return 'the report is not saved where asked'
            saved = rdb.ReportDatabase()
            try:
                saved.load(p)
            except Exception:
                saved = None         # klayout does not read back all names
    finally:
        M.ExtractionReporter, M.RExtractor.prepare_request, M.SidewallAndFringeExtractor = orig, prep, side
    if len(reports) != 1:
        return f'{len(reports)} reports'
    got, cells = tree(reports[0].report, ctx.dbu)
    if cells != ['TOP']:
        return f'cells {cells}'
    if saved is not None and saved.num_items() != reports[0].report.num_items():
        return 'the saved report has other items'
    r = res.cell_extraction_results['TOP']
    want = {}
    for k, l in r.overlap_table.items():
        want[('[C] Overlap', f'top_layer={k.layer_top}', f'bot_layer={k.layer_bot}', f'{k.net_top} – {k.net_bot}')] = [f'#{i + 1} {round(x.cap_value, 3)} fF' for i, x in enumerate(l)]
    for k, l in r.sidewall_table.items():
        want[('[C] Sidewall', f'layer={k.layer}', f'inside={k.net1}', f'outside={k.net2}')] = [f'#{i + 1}: len {x.length} µm, distance {x.distance} µm, {round(x.cap_value, 3)} fF' for i, x in enumerate(l)]
    for k, l in r.sideoverlap_table.items():
        want[('[C] Fringe / Side Overlap', f'inside_layer={k.layer_inside}', f'inside_net={k.net_inside}', f'outside_layer={k.layer_outside}', f'outside_net={k.net_outside}')] = \
            [f'#{i + 1}: {round(x.cap_value, 3)} fF' for i, x in enumerate(l)]
    for base, names in want.items():
        have = sorted(p[-1] for p in got if p[:-1] == base)
        if have != sorted(names):
            return f'{" / ".join(base)}: {have} in the report, {sorted(names)} in the results'
    caps = [p for p in got if p[-1].startswith('#') and p[0] in ('[C] Overlap', '[C] Sidewall', '[C] Fringe / Side Overlap') and p[:-1] not in want]
    if caps:
        return f'{" / ".join(caps[0])} is in the report, not in the results'
    e = places(reports[0].report, ctx.dbu, regions, ctx.tech.overlap_cap_by_layer_names)
    if e:
        return e
    if c['mode'] in ('R', 'RC'):
        w1, c1 = expect_request(requests[0])
        w2, c2 = expect_result(r.r_extraction_result)
        for p, _ in w1 + w2:
            if p not in got:
                return f'{" / ".join(p)} is not in the report'
        exp = collections.Counter()
        for p, s in w2:
            exp[p] += len(s)
        for p, n in exp.items():
            if len(got[p]) != n:
                return f'{" / ".join(p)}: {len(got[p])} shapes instead of {n}'


def places(report, dbu, regions, spec):
    """the shapes documented for a capacitance are where the shapes of its layers and nets are"""
    t = kdb.VCplxTrans(1 / dbu)
    where = {}

    def on(layer, net):
        if (layer, net) not in where:
            g = kdb.Region()
            for p in regions.get(layer, kdb.Region()).each():
                if layer == 'VSUBS' or p.property('net') == net:
                    g.insert(kdb.Polygon(p) if not hasattr(p, 'polygon') else p.polygon)
            where[(layer, net)] = g.merged()
        return where[(layer, net)]

    def straight(e): return e.x1 == e.x2 or e.y1 == e.y2

    def values(cat):
        for i in report.each_item_per_category(cat.rdb_id()):
            for v in i.each_value():
                if v.is_edge():
                    yield t * v.edge()
                elif v.is_polygon() or v.is_box():
                    yield t * v.polygon() if v.is_polygon() else kdb.Polygon(t * v.box())

    def walk(c, p):
        p = p + (c.name(),)
        if p[0] == '[C] Sidewall' and len(p) == 5:
            es = list(values(c))
            r1, r2 = (on(p[1][6:], x) for x in (p[2][7:], p[3][8:]))
            if all(straight(e) for e in es):
                if not any((kdb.Edges([e]) - r1.edges()).is_empty() for e in es):
                    return f'{" / ".join(p)}: no edge {list(map(str, es))} is on the boundary of the inside net'
                if not any((kdb.Edges([e]) - r2).is_empty() for e in es):
                    return f'{" / ".join(p)}: no edge {list(map(str, es))} is at the outside net'
        if p[0] == '[C] Fringe / Side Overlap' and len(p) == 7:
            if p[-1] == 'Inside Edge':
                for e in values(c):
                    if straight(e) and not (kdb.Edges([e]) - on(p[1][13:], p[2][11:]).edges()).is_empty():
                        return f'{" / ".join(p)}: {e} is not on the boundary of the inside net'
            elif p[-1] == 'Outside Polygon':
                for q in values(c):
                    if q.is_rectilinear() and not (kdb.Region(q) - on(p[3][14:], p[4][12:])).is_empty():
                        return f'{" / ".join(p)}: {q} is not part of the outside net'
        if p[0] == '[C] Overlap' and len(p) == 6:
            top, bot = on(p[1][10:], p[3].split(' – ')[0]), on(p[2][10:], p[3].split(' – ')[1])
            want = dict([('Top Polygon', top), ('Bottom Polygon', bot), ('Overlap Area', top & bot)])[p[-1]]
            for q in values(c):
                if q.is_rectilinear() and not (kdb.Region(q) - want).is_empty():
                    return f'{" / ".join(p)}: {q} is not part of the nets'
            if p[-1] == 'Overlap Area':
                a = sum(q.area() for q in values(c)) * dbu ** 2 * spec[p[1][10:]][p[2][10:]].capacitance / 1000
                if abs(round(a, 3) - float(p[4].split()[1])) > .0011:
                    return f'{" / ".join(p)}: the area documented has {a} fF'
        for s in c.each_sub_category():
            e = walk(s, p)
            if e:
                return e
    for c in report.each_category():
        e = walk(c, ())
        if e:
            return e
