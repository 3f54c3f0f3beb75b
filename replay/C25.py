"""the FasterCap input builder: what it puts into the model"""
RULE = ('random process stacks (metals with and without contact above, diffusions, sidewall and conformal chains, dielectric filters, layers without GDS pair, '
        'repeated dielectrics) and nets with random shapes (real kdb.Netlist, some nets unnamed), against a model put together from the description of the stack; '
        'non-trivial: at least three conductors and three dielectrics')
N = 150
import replay.C17 as T


def cases(rng, n):
    for i in range(n):
        k = rng.choice([1, 2, 2, 3, 3, 4])
        ms = T.METALS[:k]
        f = lambda: rng.choice([.1, .13, .5, 1.25, 3.375])
        w = lambda: rng.choice([.006, .03, .07, .1, .0431, .57, .29, 0])
        st, z = [['subs', 'SUBSTRATE', dict(height=rng.choice([.1, .33, 0]), t=f())]], rng.choice([.3, .3262])
        if rng.random() < .4:
            st.append(['nwell', 'NWELL', dict(c=['nwell_con', 'nwell', ms[0], f()])])
        for d in rng.sample(['nsd', 'psd'], rng.randrange(3)):
            st.append([d, 'DIFFUSION', dict(c=[d + '_con' if rng.random() < .8 else 'licon', d, ms[0], f()])])
        st.append(['fox', 'FIELD_OXIDE', dict(k=3.9)])
        diel = rng.sample(T.DIEL, len(T.DIEL))
        for j, m in enumerate(ms):
            st.append([m, 'METAL', dict(z=round(z, 4), t=rng.choice([.1, .2, .36]), c=[f'via{j}', m, (ms + ['top'])[j + 1], f()] if rng.random() < .7 else None)])
            z += rng.choice([.3, .7, 1])
            last = m
            for _ in range(rng.randrange(4)):
                if not diel:
                    break
                d = diel.pop()
                t = rng.choice(['SIMPLE_DIELECTRIC', 'CONFORMAL_DIELECTRIC', 'SIDEWALL_DIELECTRIC'])
                p = dict(k=f(), ref=last if t != 'SIMPLE_DIELECTRIC' else 'x')
                if t == 'CONFORMAL_DIELECTRIC':
                    p.update(side=w(), over=rng.choice([.01, .04]), no=rng.choice([0, .02, .05]))
                elif t == 'SIDEWALL_DIELECTRIC':
                    p.update(out=w(), above=rng.choice([0, 0, .09, .121]))
                st.append([d, t, p])
                if t != 'SIMPLE_DIELECTRIC':
                    last = d
        nets = rng.sample(['A', 'B', 'VDD', 'n$1', 'x.y', 'VSUBS2', None, None], rng.randrange(0, 6))
        lyrs = ms + [p['c'][0] for _, _, p in st if p.get('c')] + [s[0] for s in st if s[1] == 'DIFFUSION']
        lyrs = list(dict.fromkeys(lyrs))
        pairs = {l: rng.choice(['c', 'd', 'cd']) for l in lyrs if rng.random() < .93}
        u = rng.choice([50, 120, 1000])
        shapes = []
        for a in range(len(nets)):
            for l in lyrs:
                if rng.random() < .5:
                    rs = []
                    for _ in range(rng.choice([0, 1, 1, 2])):
                        x, y = rng.randrange(12), rng.randrange(12)
                        rs.append([x * u, y * u, (x + rng.randrange(1, 4)) * u, (y + rng.randrange(1, 4)) * u])
                    shapes.append([a, l, rs])
        other = [[l, [[13 * u, 0, 14 * u, 2 * u]]] for l in ms if rng.random() < .2]      # shapes of no net (on the layer only)
        pat = rng.choice([None, None, 'all,-' + rng.choice(T.DIEL), 'none,+' + rng.choice(T.DIEL)])
        yield dict(st=st, nets=nets, pairs=pairs, shapes=shapes, other=other, pat=pat, dbu=rng.choice([.001, .001, .005]), bbox=[-u, 0, 16 * u, 15 * u],
                   k=rng.choice([1.0, 3.5]), am=rng.choice([0, .5]), b=rng.choice([.5, 1]))


def trivial(c): return len([s for s in c['shapes'] if s[2]]) < 3 or sum('DIEL' in s[1] for s in c['st']) < 2


def build(c):
    t = T.build(dict(st=[[n, ty, {k: v for k, v in p.items() if k in ('z', 't', 'c', 'k', 'ref')}] for n, ty, p in c['st'] if ty != 'SUBSTRATE'], comp=[], drawn=[]))
    ls = {l.name: l for l in t.process_stack.layers}
    for n, ty, p in c['st']:
        if ty == 'CONFORMAL_DIELECTRIC':
            q = ls[n].conformal_dielectric_layer
            q.thickness_sidewall, q.thickness_over_metal, q.thickness_where_no_metal = p['side'], p['over'], p['no']
        elif ty == 'SIDEWALL_DIELECTRIC':
            q = ls[n].sidewall_dielectric_layer
            q.width_outside_sidewall, q.height_above_metal = p['out'], p['above']
        elif ty == 'SUBSTRATE':
            import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
            l = t.process_stack.layers.add(name=n, layer_type=ps.ProcessStackInfo.LAYER_TYPE_SUBSTRATE)
            l.substrate_layer.height, l.substrate_layer.thickness = p['height'], p['t']
    for i, (l, how) in enumerate(c['pairs'].items()):
        if 'c' in how:
            x = t.lvs_computed_layers.add(kind=1, original_layer_name=l)
            x.layer_info.name = l
            x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = i, 20
        if 'd' in how:
            x = t.layers.add(name=l)
            x.drw_gds_pair.layer, x.drw_gds_pair.datatype = i, 21
    return t


def keeps_region(cls):
    '''whether the model holds the region it was given itself, so that what becomes of it until the model is generated matters'''
    import klayout.db as kdb
    try:
        b = cls(dbu=.001, k_void=1.0)
        b.add_material('m', 2.0)
        r = kdb.Region(kdb.Box(0, 0, 10, 10))
        b.add_dielectric('m', r, 0.0, 1.0)
        r.clear()
        return all(l[0].is_empty() for l in b.dlayers['m'])
    except (AttributeError, KeyError, TypeError, IndexError):
        return True


def check(c):
    import math
    import klayout.db as kdb
    import klayout_pex.fastercap.fastercap_input_builder as F
    from klayout_pex.tech_info import TechInfo
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    ti = TechInfo(build(c), MultipleChoicePattern(pattern=c['pat']) if c['pat'] else None)
    nl = kdb.Netlist()
    extra = kdb.Circuit()
    extra.name = 'SUB'
    nl.add(extra)
    extra.create_net('hidden')
    top = kdb.Circuit()
    top.name = 'TOP'
    nl.add(top)
    nets = []
    for i, nm in enumerate(c['nets']):
        n = top.create_net(nm) if nm else top.create_net()
        n.cluster_id = 100 + i
        nets.append(n)
    names = [n.expanded_name() for n in nets]
    pair = {l: (i, 20 if 'c' in how else 21) for i, (l, how) in enumerate(c['pairs'].items())}
    reg = lambda rs: (lambda r: ([r.insert(kdb.Box(*x)) for x in rs], r)[1])(kdb.Region())
    by, lay = {}, {}
    for a, l, rs in c['shapes']:
        if l in pair:
            by[names[a], pair[l]] = reg(rs)
            lay.setdefault(pair[l], kdb.Region()).insert(reg(rs))
    for l, rs in c['other']:
        if l in pair:
            lay.setdefault(pair[l], kdb.Region()).insert(reg(rs))
    box = kdb.Box(*c['bbox'])

    class Ctx:
        dbu = c['dbu']
        annotated_top_cell = type('Cell', (), dict(name='TOP'))()
        lvsdb = type('Db', (), dict(netlist=lambda self: nl))()

        def shapes_of_net(self, gds_pair, net):
            r = by.get((net if isinstance(net, str) else net.expanded_name(), tuple(gds_pair)))
            return r.dup() if r is not None else None

        def shapes_of_layer(self, gds_pair):
            r = lay.get(tuple(gds_pair))
            return r.dup() if r is not None else None

        def top_cell_bbox(self): return box.dup()
    events, made = [], []

    class Rec:
        def __init__(self, *a, **k): made.append((a, k))
        def add_material(self, name, k): events.append(('m', name, k))
        def add_conductor(self, net_name, layer, z, height): events.append(('c', net_name, z, height, layer if keeps else layer.dup()))
        def add_dielectric(self, material_name, layer, z, height): events.append(('d', material_name, z, height, layer if keeps else layer.dup()))

        def generate(self):
            events[:] = [e[:4] + (e[4].dup(),) if len(e) > 4 else e for e in events]
            return ('generated', len(events))
    keeps = keeps_region(F.FasterCapModelBuilder)
    old, F.FasterCapModelBuilder = F.FasterCapModelBuilder, Rec
    try:
        g = F.FasterCapInputBuilder(Ctx(), ti, k_void=c['k'], delaunay_amax=c['am'], delaunay_b=c['b']).build()
    finally:
        F.FasterCapModelBuilder = old
    if g != ('generated', len(events)):
        return 'the model is not generated at the end'
    if len(made) != 1 or (made[0][0], made[0][1]) != ((), dict(dbu=c['dbu'], k_void=c['k'], delaunay_amax=c['am'], delaunay_b=c['b'])):
        import inspect
        from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder as B
        try:
            q = inspect.signature(B.__init__).bind(None, *made[0][0], **made[0][1])
            q.apply_defaults()
            q = {k: v for k, v in q.arguments.items() if k != 'self'}
        except Exception as e:
            q = repr(e)
        if len(made) != 1 or q != dict(dbu=c['dbu'], k_void=c['k'], delaunay_amax=c['am'], delaunay_b=c['b']):
            return f'model options {made}'
    st = c['st']
    inc = lambda d: T.included(c['pat'], d)
    want_m = {'fox': 3.9}
    for nm, ty, p in st:
        if 'DIEL' in ty and inc(nm):
            want_m[nm] = p['k']
    got = [(e[1], e[2]) for e in events if e[0] == 'm']
    if got != list(want_m.items()):
        return f'materials {got}, not {list(want_m.items())}'
    exp = []
    none = kdb.Region()
    diff = kdb.Region()
    fl = lambda x: math.floor(x / c['dbu'] + 1e-6)
    for nm in names:
        on = lambda l: by.get((nm, pair.get(l)), none)
        for l, ty, p in st:
            if ty == 'METAL':
                exp.append(('c', nm, p['z'], p['t'], on(l)))
                if p['c']:
                    exp.append(('c', nm, p['z'] + p['t'], p['c'][3], on(p['c'][0])))
            elif ty == 'DIFFUSION':
                exp.append(('c', nm, 0, .1, on(l)))
                exp.append(('c', nm, 0, p['c'][3], on(p['c'][0])))
                diff += on(l).sized(fl(1))
    block = kdb.Region(box.enlarged(fl(8)))
    s = next(p for _, ty, p in st if ty == 'SUBSTRATE')
    exp.append(('c', 'VSUBS', -s['height'] - s['t'], s['t'], block - diff))
    metals = [(i, l, p) for i, (l, ty, p) in enumerate(st) if ty == 'METAL']
    exp.append(('d', 'fox', 0, metals[0][2]['z'], block))
    for q, (i, m, p) in enumerate(metals):
        cov, h, noh = lay.get(pair.get(m), none), 0, None
        has = not cov.is_empty()
        last = m
        while has:
            n = [(d, ty, x) for d, ty, x in st if ty in ('SIDEWALL_DIELECTRIC', 'CONFORMAL_DIELECTRIC') and x['ref'] == last and inc(d)]
            if not n:
                break
            d, ty, x = n[0]
            cov = cov.sized(fl(x['out'] if ty[0] == 'S' else x['side']))
            h += (x['above'] or p['t']) if ty[0] == 'S' else p['t'] + x['over']
            exp.append(('d', d, p['z'], h, cov))
            if ty[0] == 'C' and x['no'] > 0:
                exp.append(('d', d, p['z'], x['no'], block - cov))
                noh = x['no']
            last = d
        e = metals[q + 1][0] if q + 1 < len(metals) else len(st)
        sd = next((d for d, ty, _ in st[i + 1:e] if ty == 'SIMPLE_DIELECTRIC'), None)
        if sd is not None and inc(sd):
            top = metals[q + 1][2]['z'] - p['z'] if q + 1 < len(metals) else 5.0
            if has:
                exp.append(('d', sd, p['z'] + h, top - h, cov))
            z0 = noh or 0
            exp.append(('d', sd, p['z'] + z0, top - z0, block - cov if has else block))
    def norm(l):
        d = {}
        for k, nm, z, h, r in l:
            key = (k, nm, round(z, 7), round(h, 7))
            d[key] = d.get(key, kdb.Region()) + r
        return {k: r.merged() for k, r in d.items() if not r.is_empty()}
    E, G = norm(exp), norm(e for e in events if e[0] != 'm')
    for k in sorted(set(E) | set(G), key=str):
        a, b = E.get(k), G.get(k)
        what = f'{dict(c="conductor of net", d="dielectric")[k[0]]} {k[1]} at z={k[2]} height {k[3]}'
        if a is None:
            return f'{what}: should not be there'
        if b is None:
            return f'{what}: missing'
        x = a ^ b
        if not x.is_empty() and not x.sized(-1).is_empty():
            return f'{what}: covers {b.bbox()} area {b.area()}, not {a.bbox()} area {a.area()}'
