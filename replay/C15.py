"""parasitic tables of TechInfo"""
RULE = ('random technologies (entries in any order, pairs in both orders, overlaps with a layer called VSUBS, zero and negative-free values, '
        'layers without substrate entry), directly and through a JSON file, against a reading of the entries one by one; '
        'non-trivial: at least one overlap and one side overlap entry')
N = 300
from replay.layouts import VAL, STACK

NAMES = STACK[1:] + ['met1 ', 'Met1', 'x.y', 'nsdm', 'psdm', 'VSUBS']


def cases(rng, n):
    for i in range(n):
        v = lambda: rng.choice(VAL) if rng.random() < .5 else round(rng.random() * 100, rng.randrange(5))
        k = rng.randrange(0, len(NAMES) + 1)
        names = rng.sample(NAMES, k)
        m = [x for x in names if x != 'VSUBS']
        pick = lambda l, p: [x for x in l if rng.random() < p]
        pairs = [(a, b) for a in m for b in names]
        p = rng.choice([.1, .4, .9])
        sh = lambda l: rng.sample(l, len(l))
        yield dict(sub=sh([[x, v(), v()] for x in pick(m, .7)]), ov=sh([[a, b, v()] for a, b in pick(pairs, p)]),
                   so=sh([[a, b, v()] for a, b in pick(pairs, p)]), sw=sh([[x, v(), rng.choice([-.2, 0, .1, 1.5])] for x in pick(names, .6)]),
                   lr=sh([[x, v()] for x in pick(names, .6)]), cr=sh([['c_' + x, x, v()] for x in pick(names, .6)]),
                   vr=sh([[x, v()] for x in pick(names, .6)]), w=rng.choice([.17, .2, 1, 0.05, 3.25]), json=i % 3 == 0)


def build(c):
    import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
    t = tech_pb2.Technology()
    C, R = t.process_parasitics.capacitance, t.process_parasitics.resistance
    for a, x, y in c['sub']:
        C.substrates.add(layer_name=a, area_capacitance=x, perimeter_capacitance=y)
    for a, b, x in c['ov']:
        C.overlaps.add(top_layer_name=a, bottom_layer_name=b, capacitance=x)
    for a, b, x in c['so']:
        C.sideoverlaps.add(in_layer_name=a, out_layer_name=b, capacitance=x)
    for a, x, o in c['sw']:
        C.sidewalls.add(layer_name=a, capacitance=x, offset=o)
    for a, x in c['lr']:
        R.layers.add(layer_name=a, resistance=x)
    for n, a, x in c['cr']:
        R.contacts.add(contact_name=n, device_layer_name=a, resistance=x)
    for a, x in c['vr']:
        R.vias.add(via_name=a, resistance=x)
    return t


def trivial(c): return not (c['ov'] and c['so'])


def check(c):
    import os, tempfile
    from google.protobuf.json_format import MessageToJson
    from klayout_pex.tech_info import TechInfo
    import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
    t = build(c)
    if c['json']:
        f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
        try:
            f.write(MessageToJson(t))
            f.close()
            ti = TechInfo.from_json(f.name, None)
        finally:
            os.unlink(f.name)
    else:
        ti = TechInfo(t, None)
    ov, so = {}, {}
    for a, x, y in c['sub']:
        ov[a, 'VSUBS'], so[a, 'VSUBS'] = x, y
    ov.update({(a, b): x for a, b, x in c['ov']})
    so.update({(a, b): x for a, b, x in c['so']})
    def flat(d):
        for a, r in d.items():
            for b, e in r.items():
                n = (e.top_layer_name, e.bottom_layer_name) if hasattr(e, 'top_layer_name') else (e.in_layer_name, e.out_layer_name)
                if n != (a, b):
                    return f'the entry of {(a, b)} is for {n}'
        return {(a, b): e.capacitance for a, r in d.items() for b, e in r.items()}
    want = dict(
        overlap_cap_by_layer_names=(flat, ov), side_overlap_cap_by_layer_names=(flat, so),
        substrate_cap_by_layer_name=(lambda d: {k: (e.area_capacitance, e.perimeter_capacitance) for k, e in d.items()}, {a: (x, y) for a, x, y in c['sub']}),
        sidewall_cap_by_layer_name=(lambda d: {k: (e.capacitance, e.offset) for k, e in d.items()}, {a: (x, o) for a, x, o in c['sw']}),
        layer_resistance_by_layer_name=(lambda d: {k: e.resistance for k, e in d.items()}, dict(c['lr'])),
        contact_resistance_by_device_layer_name=(lambda d: {k: (e.contact_name, e.resistance) for k, e in d.items()}, {a: (n, x) for n, a, x in c['cr']}),
        via_resistance_by_layer_name=(lambda d: {k: e.resistance for k, e in d.items()}, dict(c['vr'])))
    for p, (f, w) in want.items():
        for again in range(2):
            g = f(getattr(ti, p))
            if g != w:
                return f'{p}: {g} instead of {w}'
    for a in [x[0] for x in c['sub']] + [x[0] for x in c['ov']]:
        if ti.overlap_cap_by_layer_names.get(a, {}).get('nowhere') is not None:
            return 'capacitance to a layer that does not exist'
    close = lambda g, w: abs(g - w) <= 1e-12 * max(1, abs(w))
    k = ps.ProcessStackInfo.Contact(name='c', width=c['w'], spacing=.5, border=.1)
    for _, _, r in c['cr']:
        e = t.process_parasitics.resistance.contacts.add(resistance=r)
        g = ti.milliohm_by_cnt_to_ohm_by_square_for_contact(k, e)
        if not close(g, r / 1000 * c['w'] * c['w']):
            return f'contact of {r} mOhm, width {c["w"]}: {g} Ohm um^2'
    for a, r in c['vr']:
        e = t.process_parasitics.resistance.vias.add(resistance=r)
        g = ti.milliohm_by_cnt_to_ohm_by_square_for_via(k, e)
        if not close(g, r / 1000 * c['w'] * c['w']):
            return f'via of {r} mOhm, width {c["w"]}: {g} Ohm um^2'
        if not close(ti.milliohm_to_ohm(r), r / 1000):
            return f'{r} mOhm = {ti.milliohm_to_ohm(r)} Ohm'
