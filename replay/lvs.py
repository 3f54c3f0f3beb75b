"""random technologies + layouts turned into a real KLayout LayoutToNetlist database (as the LVS decks produce it) and the
extraction context klayout-pex builds from it"""
import klayout.db as kdb

METALS = ['li1', 'met1', 'met2', 'met3', 'met4']


def rand_case(rng, nmetals=None, n=8, pins=True):
    """tech: metals (with the computed layers they are split into), vias; layout: rectangles on a grid"""
    k = nmetals or rng.randrange(1, 5)
    metals = METALS[:k] if rng.random() < .7 else sorted(rng.sample(METALS, k), key=METALS.index)
    unit = rng.choice([50, 200, 1000])
    comp = []       # computed layers: name, canonical, (layer, datatype), kind
    for i, m in enumerate(metals):
        g = 67 + METALS.index(m)
        r = rng.random()
        if r < .5:
            parts = [(m + '_con', (g, 20))]
        elif r < .75:
            parts = [(m + '_ncap', (g, 20)), (m + '_cap', (g, 220))]      # two pairs, one canonical layer
        else:
            parts = [(m + '_a', (g, 20)), (m + '_b', (g, 20))]             # two computed layers with one pair
        for nm, p in parts:
            comp.append([nm, m, list(p), 'REGULAR' if not nm.endswith('_cap') or rng.random() < .6 else 'DEVICE_CAPACITOR', 'METAL'])
        comp.append([m + '_pin_con', m + '.pin', [g, 16], 'PIN', 'METAL'])
    for i in range(len(metals) - 1):
        comp.append([f'v{i}_con', f'v{i}', [67 + METALS.index(metals[i]), 44], 'REGULAR', 'VIA'])
    rects = {}
    for c in comp:
        if c[3] == 'PIN':
            continue
        rs = []
        if rng.random() < .85:
            for _ in range(rng.randrange(1, 6)):
                x, y = rng.randrange(n), rng.randrange(n)
                w, h = rng.randrange(1, n - x + 1), rng.randrange(1, n - y + 1)
                if c[4] == 'VIA':
                    w = h = 1
                rs.append([x, y, x + w, y + h])
        rects[c[0]] = rs
    plist = []
    if pins:
        for m in metals:
            for _ in range(rng.randrange(0, 3)):
                plist.append([m, rng.randrange(n), rng.randrange(n), rng.choice(['A', 'B', 'C', 'VDD', 'VSS', 'n1'])])
    # the stack may use computed names or (where there is a pair for it) the plain name
    stack = []
    for m in metals:
        for nm, can, p, kind, pur in comp:
            if can == m and not (stack and stack[-1][0] == m):
                stack.append([m if p[1] == 20 and rng.random() < .5 else nm, m])
    seen, st = set(), []
    for nm, m in stack:
        pr = next((tuple(c[2]) for c in comp if c[0] == nm), (67 + METALS.index(m), 20))
        if pr in seen:
            continue
        seen.add(pr)
        st.append([nm, m, list(pr)])
    return dict(metals=metals, comp=comp, rects=rects, pins=plist, stack=st, unit=unit, dbu=rng.choice([.001, .001, .005]), n=n,
                blackbox=rng.random() < .3, halo=rng.choice([.5, 8.0]))


DEV = [['nsdm', 'nsdm', [93, 44], 'REGULAR', 'N_IMPLANT'], ['poly_con', 'poly', [66, 20], 'REGULAR', 'METAL'],
       ['licon_nsdm_con', 'licon1', [66, 44], 'REGULAR', 'CONTACT'], ['licon_poly_con', 'licon1', [66, 45], 'REGULAR', 'CONTACT'],
       ['capm', 'capm', [89, 44], 'DEVICE_CAPACITOR', 'MIM_CAP']]


def add_devices(rng, c):
    """MOS transistors (diffusion, poly, contacts to the lowest metal) and a MIM capacitor over a split metal; some terminals
    are cut off in the netlist; an unknown layer"""
    n = c['n']
    c['mos'] = [[rng.randrange(0, 2 * n), -6 - 4 * i, rng.random() < .6] for i in range(rng.randrange(0, 3))]
    split = [m for m in c['metals'] if any(x[0] == m + '_cap' for x in c['comp'])]
    c['mim'] = [[rng.choice(split), rng.randrange(n), n + 4]] if split and rng.random() < .7 else []
    c['comp'] += [list(x) for x in DEV]
    c['cut'] = [rng.randrange(3) for _ in c['mos'] if rng.random() < .2]
    c['nores'] = rng.random() < .2       # no resistance for the contact to poly
    for x, y, _ in c['mos']:
        a, p, l1, l2 = [c['rects'].setdefault(k, []) for k in ('nsdm', 'poly_con', 'licon_nsdm_con', 'licon_poly_con')]
        m = c['rects'].setdefault(next(q[0] for q in c['comp'] if q[1] == c['metals'][0]), [])
        a.append([x, y, x + 3, y + 1])
        p.append([x + 1, y - 1, x + 2, y + 2])
        for u, v, l in ((x, y, l1), (x + 2, y, l1), (x + 1, y + 1, l2)):
            l.append([u, v, u + 1, v + 1])
            m.append([u, v, u + 1, v + 1]) if _ else None
    for met, x, y in c['mim']:
        c['rects'].setdefault(met + '_cap', []).append([x, y, x + 3, y + 3])
        c['rects'].setdefault('capm', []).append([x, y, x + 2, y + 2])
    c['unknown'] = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randrange(0, 3))]
    c['known_by_tech'] = rng.random() < .5
    if len(c['mos']) == 2 and c['mos'][0][2] and c['mos'][1][2] and rng.random() < .6:      # two gates on one net
        x, (y1, y2) = c['mos'][0][0], sorted(m[1] for m in c['mos'])
        dx = x - c['mos'][1][0]
        for k in ('nsdm', 'poly_con', 'licon_nsdm_con', 'licon_poly_con'):
            c['rects'][k] = [[r[0] + dx, r[1], r[2] + dx, r[3]] if r[1] < y1 + 3 else r for r in c['rects'][k]]
        c['rects'][next(q[0] for q in c['comp'] if q[1] == c['metals'][0])].append([x + 1, y1 + 1, x + 2, y2 + 2])
        c['mos'][1][0] = x
    return c


def tech_pb(c, tables=None):
    import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
    import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
    t = tech_pb2.Technology()
    for m in c['metals']:
        g = 67 + METALS.index(m)
        l = t.layers.add()
        l.name, l.purpose = m, tech_pb2.LayerInfo.PURPOSE_METAL
        for p, d in ((l.drw_gds_pair, 20), (l.pin_gds_pair, 16), (l.label_gds_pair, 5)):
            p.layer, p.datatype = g, d
    for nm, can, (a, b), kind, pur in c['comp']:
        x = t.lvs_computed_layers.add()
        x.kind = tech_pb2.ComputedLayerInfo.Kind.Value('KIND_' + kind)
        x.layer_info.name, x.original_layer_name = nm, can
        x.layer_info.purpose = tech_pb2.LayerInfo.Purpose.Value('PURPOSE_' + pur)
        x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = a, b
    LT = ps.ProcessStackInfo
    R = t.process_parasitics.resistance
    if 'mos' in c:
        for nm, l, d in (('nsdm', 93, 44), ('poly', 66, 20), ('licon1', 66, 44), ('capm', 89, 44)):
            x = t.layers.add()
            x.name, x.drw_gds_pair.layer, x.drw_gds_pair.datatype = nm, l, d
            x.pin_gds_pair.layer, x.pin_gds_pair.datatype = l, d + 100
        d = t.process_stack.layers.add()
        d.name, d.layer_type = 'nsdm', LT.LAYER_TYPE_DIFFUSION
        k = d.diffusion_layer.contact_above
        k.name, k.layer_below, k.metal_above, k.thickness, k.width, k.spacing = 'licon_nsdm_con', 'nsdm', c['metals'][0], .9, .17, .17
        d = t.process_stack.layers.add()
        d.name, d.layer_type = 'poly_con' if c['known_by_tech'] else 'poly', LT.LAYER_TYPE_METAL
        d.metal_layer.z, d.metal_layer.thickness = .4, .18
        k = d.metal_layer.contact_above
        k.name, k.layer_below, k.metal_above, k.thickness, k.width, k.spacing = 'licon_poly_con', 'poly', c['metals'][0], .4, .18, .17
        for a, v in (('nsdm', 185000.0), ('poly', 152000.0))[:1 if c['nores'] else 2]:
            r = R.contacts.add()
            r.contact_name, r.device_layer_name, r.resistance = 'licon1', a, v
        r = R.layers.add()
        r.layer_name, r.resistance = 'poly', 48200.0
    s = t.process_stack.layers.add()
    s.name, s.layer_type = 'subs', LT.LAYER_TYPE_SUBSTRATE
    f = t.process_stack.layers.add()
    f.name, f.layer_type = 'fox', LT.LAYER_TYPE_FIELD_OXIDE
    for i, (nm, m, _) in enumerate(c['stack']):
        l = t.process_stack.layers.add()
        l.name, l.layer_type = nm, LT.LAYER_TYPE_METAL
        l.metal_layer.z, l.metal_layer.thickness = 1.0 + c['metals'].index(m), .4
        j = c['metals'].index(m)
        if j < len(c['metals']) - 1:
            k = l.metal_layer.contact_above
            k.name, k.layer_below, k.metal_above, k.thickness, k.width, k.spacing = f'v{j}_con', m, c['metals'][j + 1], .6, .2, .2
        d = t.process_stack.layers.add()
        d.name, d.layer_type = f'd{i}', LT.LAYER_TYPE_SIMPLE_DIELECTRIC
        d.simple_dielectric_layer.dielectric_k = 4.0
    t.process_parasitics.side_halo = c['halo']
    if 'tables' in c:
        fill_tables(t, c['tables'])
        t.process_parasitics.side_halo = c['halo']
    for m in c['metals']:
        r = R.layers.add()
        r.layer_name, r.resistance = m, 12800.0
    for i in range(len(c['metals']) - 1):
        r = R.vias.add()
        r.via_name, r.resistance = f'v{i}', 9300.0
    return t


def layout(c):
    ly = kdb.Layout()
    ly.dbu = c['dbu']
    top = ly.create_cell('TOP')
    u = c['unit']
    idx = {}
    for i, (nm, *_) in enumerate(c['comp']):
        idx[nm] = ly.layer(kdb.LayerInfo(500 + i, 0, nm))
        for x1, y1, x2, y2 in c['rects'].get(nm, []):
            b = kdb.Box(x1 * u, y1 * u, x2 * u, y2 * u)
            if c['comp'][i][4] in ('VIA', 'CONTACT'):
                b = b.enlarged(-u // 5, -u // 5)
            top.shapes(idx[nm]).insert(b)
    for nm, x, y in c.get('rings', ()):
        p = kdb.Polygon(kdb.Box(x * u, y * u, (x + 3) * u, (y + 3) * u))
        p.insert_hole(kdb.Box((x + 1) * u, (y + 1) * u, (x + 2) * u, (y + 2) * u))
        top.shapes(idx[nm]).insert(p)
    for m, x, y in c.get('lpins', ()):
        top.shapes(idx[m + '_pin_con']).insert(kdb.Polygon([kdb.Point(a * u, b * u) for a, b in
                                               ((x, y), (x, y + 4), (x + 1, y + 4), (x + 1, y + 1), (x + 4, y + 1), (x + 4, y))]))
    if c.get('sub'):
        nm, rs, places = c['sub']
        child = ly.create_cell('CHILD')
        for x1, y1, x2, y2 in rs:
            child.shapes(idx[nm]).insert(kdb.Box(x1 * u, y1 * u, x2 * u, y2 * u))
        for x, y, rot in places:
            top.insert(kdb.CellInstArray(child.cell_index(), kdb.Trans(rot % 4, rot >= 4, x * u, y * u)))
    for m, x, y, net in c['pins']:
        met = kdb.Region()
        for nm, can, *_ in c['comp']:
            if can == m:
                met.insert(top.begin_shapes_rec(idx[nm]))
        pin = kdb.Region(kdb.Box(x * u + 2, y * u + 2, (x + 1) * u - 2, (y + 1) * u - 2)) & met
        top.shapes(idx[m + '_pin_con']).insert(pin)
    return ly, idx


def database(c, cls=kdb.LayoutToNetlist):
    """-> LayoutToNetlist (keep the returned tuple alive)"""
    ly, idx = layout(c)
    top = ly.cell('TOP')
    u = c['unit']
    l2n = cls(kdb.RecursiveShapeIterator(ly, ly.cell('TOP'), []))
    early = None
    if c.get('early') and c.get('unknown'):      # the unknown layer is the first of the database
        ul = ly.layer(900, 7)
        for x, y in c['unknown']:
            top.shapes(ul).insert(kdb.Box(x * u, y * u, (x + 1) * u, (y + 1) * u))
        early = l2n.make_polygon_layer(ul, 'mystery')
        l2n.connect(early)
    regs = {nm: l2n.make_polygon_layer(idx[nm], nm) for nm in idx}
    texts = {}
    for m in c['metals']:
        g = 67 + METALS.index(m)
        li = ly.layer(g, 5)
        for mm, x, y, net in c['pins']:
            if mm == m:
                top.shapes(li).insert(kdb.Text(net, x * u + u // 2, y * u + u // 2))
        texts[m] = l2n.make_text_layer(li, m + '_label')
    # pins only exist where there is metal
    bym = {}
    for nm, can, p, kind, pur in c['comp']:
        if pur == 'METAL' and kind != 'PIN' and can in c['metals']:
            bym.setdefault(can, []).append(nm)
    for r in regs.values():
        l2n.connect(r)
    for m, parts in bym.items():
        for a in parts:
            for b in parts:
                if a < b:
                    l2n.connect(regs[a], regs[b])
            l2n.connect(regs[a], regs[m + '_pin_con'])
            l2n.connect(regs[a], texts[m])
        if m + '_pin2_con' in regs:
            l2n.connect(regs[m + '_pin2_con'], texts[m])
    for i in range(len(c['metals']) - 1):
        for m in (c['metals'][i], c['metals'][i + 1]):
            for a in bym[m]:
                l2n.connect(regs[f'v{i}_con'], regs[a])
    more = []
    if 'mos' in c:
        gate = regs['nsdm'] & regs['poly_con']
        sd = regs['nsdm'] - regs['poly_con']
        more += [gate, sd]
        l2n.extract_devices(kdb.DeviceExtractorMOS3Transistor('NMOS'), {'SD': sd, 'G': gate, 'P': regs['poly_con'], 'tS': regs['nsdm'], 'tD': regs['nsdm']})
        l2n.connect(regs['nsdm'], regs['licon_nsdm_con'])
        l2n.connect(regs['poly_con'], regs['licon_poly_con'])
        for a in bym[c['metals'][0]]:
            l2n.connect(regs['licon_nsdm_con'], regs[a])
            l2n.connect(regs['licon_poly_con'], regs[a])
        for met in {m for m, *_ in c['mim']}:
            l2n.extract_devices(kdb.DeviceExtractorCapacitor('MIM', 1e-15), {'P1': regs[met + '_cap'], 'P2': regs['capm']})
        if c.get('nameless'):
            ur = regs['nsdm'] & regs['poly_con']
            l2n.register(ur, 'nameless')
            l2n.connect(ur)
            more.append(ur)
        if c['unknown'] and not early:
            ul = ly.layer(900, 7)
            for x, y in c['unknown']:
                top.shapes(ul).insert(kdb.Box(x * u, y * u, (x + 1) * u, (y + 1) * u))
            ur = l2n.make_polygon_layer(ul, 'mystery')
            l2n.connect(ur)
            more.append(ur)
    l2n.extract_netlist()
    for i, t in enumerate(c.get('cut', ())):
        ds = [d for d in l2n.netlist().circuit_by_name('TOP').each_device() if d.device_class().name == 'NMOS']
        if i < len(ds):
            ds[i].disconnect_terminal(t)
    texts['more'] = more + [early]
    return l2n, (ly, regs, texts)


def context(c, tables=None):
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    from klayout_pex.tech_info import TechInfo
    l2n, keep = database(c)
    tech = TechInfo(tech_pb(c), None)
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n, top_cell='TOP', tech=tech, blackbox_devices=c['blackbox'])
    ctx._keep = keep
    return ctx


from .layouts import fill_tables, rand_tech, Quiet  # noqa: E402
