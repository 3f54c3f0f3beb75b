"""look-ups into the technology"""
RULE = ('random technologies (process stacks in any order, several or no simple dielectrics between metals, sidewall chains, two sidewalls on one layer, shared '
        'GDS pairs, computed layers named like drawn ones, contacts missing, any dielectric filter), directly and through a JSON file, against a reading of the '
        'entries one by one; non-trivial: at least two metals and a dielectric')
N = 300

METALS = ['poly', 'li1', 'met1', 'met2', 'met3']
DIEL = ['nild1', 'nild2', 'spnit', 'psg', 'capild', 'topox', 'topnit', 'Nild1', 'x.y']


def cases(rng, n):
    for i in range(n):
        k = rng.randrange(0, 6)
        ms = METALS[:k]
        f = lambda: rng.choice([0, .1, .13, .5, 1.25, 3.375, 12])
        st, z = [], 0.3
        if rng.random() < .95:
            st.append(['subs', 'SUBSTRATE', {}])
        for d in rng.sample(['nwell', 'nsdm', 'psdm', 'dnwell'], rng.randrange(4)):
            st.append([d, 'NWELL' if 'well' in d else 'DIFFUSION', dict(c=[d + '_con' if rng.random() < .8 else 'licon', d, ms[0] if ms else 'x', f()] if rng.random() < .8 else None)])
        for _ in range(rng.choice([1, 1, 1, 2, 0])):
            st.append(['fox' + str(_ or ''), 'FIELD_OXIDE', dict(k=f())])
        diel = rng.sample(DIEL, len(DIEL))
        kd = {d: f() for d in DIEL}
        if rng.random() < .3:
            diel += rng.sample(DIEL, 3)
        for j, m in enumerate(ms):
            st.append([m, 'METAL', dict(z=round(z, 4), t=f(), c=[f'via{j}' if rng.random() < .8 else 'via', m, (ms + ['top'])[j + 1], f()] if rng.random() < .7 else None)])
            z += rng.choice([.3, .7, 1])
            last = m
            for _ in range(rng.randrange(4)):
                if not diel:
                    break
                d = diel.pop()
                t = rng.choice(['SIMPLE_DIELECTRIC', 'CONFORMAL_DIELECTRIC', 'SIDEWALL_DIELECTRIC'])
                ref = last if rng.random() < .8 else rng.choice([m] + ms)
                st.append([d, t, dict(k=kd[d], ref=ref)])
                if t != 'SIMPLE_DIELECTRIC':
                    last = d
        if rng.random() < .2:
            rng.shuffle(st)
        comp = []
        for j in range(rng.randrange(6)):
            nm = rng.choice(['met1_con', 'met1', 'via_con', 'cap', 'met1_pin'])
            comp.append([nm, rng.choice(METALS), rng.choice([0, 66, 67]), rng.choice([0, 20, 44]), rng.randrange(6)])
        drawn = [[nm, rng.choice([0, 66, 67]), rng.choice([0, 20, 44])] for nm in rng.sample(METALS + ['met1_con'], rng.randrange(6))]
        pat = rng.choice(['all', 'none', '-' + rng.choice(DIEL), '+' + rng.choice(DIEL), None])
        if pat and pat[0] == '-':
            pat = 'all,' + pat
        if pat and pat[0] == '+':
            pat = 'none,' + pat
        yield dict(st=st, comp=comp, drawn=drawn, pat=pat, json=i % 3 == 0)


def trivial(c): return sum(t == 'METAL' for _, t, _ in c['st']) < 2 or not any('DIEL' in t for _, t, _ in c['st'])


def build(c):
    import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
    import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
    t = tech_pb2.Technology()
    for nm, ty, p in c['st']:
        l = t.process_stack.layers.add(name=nm, layer_type=getattr(ps.ProcessStackInfo, 'LAYER_TYPE_' + ty))
        sub = getattr(l, ty.lower() + '_layer')
        sub.SetInParent()
        for k, a in (('z', 'z'), ('t', 'thickness'), ('k', 'dielectric_k'), ('ref', 'reference')):
            if k in p:
                setattr(sub, a, p[k])
        if p.get('c'):
            q = p['c']
            sub.contact_above.name, sub.contact_above.layer_below, sub.contact_above.metal_above, sub.contact_above.thickness = q
    for nm, o, l, d, k in c['comp']:
        x = t.lvs_computed_layers.add(kind=k, original_layer_name=o)
        x.layer_info.name = nm
        x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = l, d
    for nm, l, d in c['drawn']:
        x = t.layers.add(name=nm)
        x.drw_gds_pair.layer, x.drw_gds_pair.datatype = l, d
    return t


def included(pat, nm):
    if pat is None or pat == 'all':
        return True
    if pat == 'none':
        return False
    base, d = pat.split(',')
    return (nm.lower() != d[1:].lower()) if base == 'all' else nm.lower() == d[1:].lower()


def check(c):
    import os, tempfile
    from google.protobuf.json_format import MessageToJson
    from klayout_pex.tech_info import TechInfo
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    t = build(c)
    flt = MultipleChoicePattern(pattern=c['pat']) if c['pat'] else None
    if c['json']:
        f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
        try:
            f.write(MessageToJson(t))
            f.close()
            ti = TechInfo.from_json(f.name, flt)
        finally:
            os.unlink(f.name)
    else:
        ti = TechInfo(t, flt)
    st = c['st']
    names = lambda l: [x.name for x in l]
    of = lambda *ts: [nm for nm, ty, _ in st if ty in ts]

    def ask(f):
        try:
            return f()
        except Exception as e:
            return e
    for p, ty in (('process_metal_layers', 'METAL'), ('process_diffusion_layers', 'DIFFUSION')):
        g = names(getattr(ti, p))
        if g != of(ty):
            return f'{p} is {g}, not {of(ty)}'
    for p, ty in (('process_substrate_layer', 'SUBSTRATE'), ('field_oxide_layer', 'FIELD_OXIDE'), ('gate_poly_layer', 'METAL')):
        g, w = ask(lambda: getattr(ti, p)), of(ty)[:1]
        if isinstance(g, Exception):
            if w:
                return f'{p}: {g!r}, not {w[0]}'
        elif not w or g.name != w[0]:
            return f'{p} is {g.name}, not {w}'
    D = [(nm, ty, p) for nm, ty, p in st if 'DIELECTRIC' in ty and included(c['pat'], nm)]
    if names(ti.filtered_dielectric_layers) != [d[0] for d in D]:
        return f'dielectrics {names(ti.filtered_dielectric_layers)}, not {[d[0] for d in D]} (filter {c["pat"]})'
    if list(ti.dielectric_by_name.items()) != list({nm: p['k'] for nm, _, p in D}.items()):
        return f'dielectric_by_name {ti.dielectric_by_name}, not {[(nm, p["k"]) for nm, _, p in D]}'
    for nm in [s[0] for s in st] + ['nosuch']:
        w = [d[0] for d in D if d[1] != 'SIMPLE_DIELECTRIC' and d[2]['ref'] == nm]
        g = ask(lambda: ti.sidewall_dielectric_layer(nm))
        got = [g.name] if hasattr(g, 'name') and not isinstance(g, Exception) else None if g is None else g
        if (got is None and w) or (isinstance(got, Exception) and len(w) < 2) or (isinstance(got, list) and got != w):
            return f'sidewall dielectric of {nm} is {got}, not {w}'
    zs = [s[0] for s in st]
    for j, (m, ty, p) in enumerate(st):
        if ty != 'METAL':
            continue
        q = next((i for i in range(j + 1, len(st)) if st[i][1] == 'METAL'), len(st))
        w = next((s[0] for s in st[j + 1:q] if s[1] == 'SIMPLE_DIELECTRIC'), None)
        if w is not None and not included(c['pat'], w):
            w = None
        g, h = ti.simple_dielectric_above_metal(m)
        if (g.name if g else None) != w:
            return f'simple dielectric above {m} is {g.name if g else None}, not {w}: {zs}'
        hw = st[q][2]['z'] - p['z'] if q < len(st) else 5.0
        if w is not None and abs(h - hw) > 1e-12:
            return f'height of {w} above {m} is {h}, not {hw}'
    con = lambda x: (x.name, x.layer_below, x.metal_above, x.thickness)
    dev = {nm: tuple(p['c'] or ('', '', '', 0)) for nm, ty, p in st if ty in ('NWELL', 'DIFFUSION')}
    if {k: con(v) for k, v in ti.contact_by_device_lvs_layer_name.items()} != dev:
        return f'contacts of devices {ti.contact_by_device_lvs_layer_name}, not {dev}'
    cs = [tuple(p['c']) for nm, ty, p in st if ty in ('NWELL', 'DIFFUSION', 'METAL') and p['c']]
    got = {k: con(v) for k, v in ti.contact_by_contact_lvs_layer_name.items() if k}
    if set(got) != {x[0] for x in cs} or any(v not in cs or v[0] != k for k, v in got.items()):
        return f'contacts {got}, of {cs}'
    vs = [tuple(p['c']) for nm, ty, p in st if ty == 'METAL' and p['c']]
    got = ti.bottom_and_top_layer_name_by_via_computed_layer_name
    if set(got) != {x[0] for x in vs} or any((k, *v) not in [x[:3] for x in vs] for k, v in got.items()):
        return f'vias {got}, of {vs}'
    C, W = c['comp'], c['drawn']
    info = lambda x: (x.layer_info.name, x.original_layer_name, x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype, x.kind)
    dinfo = lambda x: (x.name, x.drw_gds_pair.layer, x.drw_gds_pair.datatype)
    tabs = [('gds_pair_for_computed_layer_name', C, lambda x: x[0], lambda x: (x[2], x[3]), lambda v: v),
            ('computed_layer_info_by_name', C, lambda x: x[0], tuple, info), ('computed_layer_info_by_gds_pair', C, lambda x: (x[2], x[3]), tuple, info),
            ('canonical_layer_name_by_gds_pair', C, lambda x: (x[2], x[3]), lambda x: x[1], lambda v: v),
            ('layer_info_by_name', W, lambda x: x[0], tuple, dinfo), ('gds_pair_for_layer_name', W, lambda x: x[0], lambda x: (x[1], x[2]), lambda v: v),
            ('layer_info_by_gds_pair', W, lambda x: (x[1], x[2]), tuple, dinfo)]
    for prop, l, key, val, show in tabs:
        g = {k: show(v) for k, v in getattr(ti, prop).items()}
        if set(g) != {key(x) for x in l} or any((k, v) not in [(key(x), val(x)) for x in l] for k, v in g.items()):
            return f'{prop} is {g} for {l}'
    for nm in [x[0] for x in C + W] + ['nosuch']:
        cl = [(x[2], x[3]) for x in C if x[0] == nm] or [(x[1], x[2]) for x in W if x[0] == nm]
        from klayout_pex.fastercap.fastercap_input_builder import FasterCapInputBuilder
        for o in (ti, FasterCapInputBuilder(None, ti)):
            g = o.gds_pair(nm)
            if (g is None) != (not cl) or (cl and tuple(g) not in cl):
                return f'gds pair of {nm} is {g}, of {cl}'
