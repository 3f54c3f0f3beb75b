"""random klayout netlists and their observable content"""
KINDS = ['Resistor', 'ResistorWithBulk', 'Capacitor', 'CapacitorWithBulk', 'Inductor', 'BJT3Transistor', 'BJT4Transistor',
         'Diode', 'MOS3Transistor', 'MOS4Transistor']


def build(spec):
    """spec: {nets: [...], devs: [[kind, [net idx or None ...], value]], top, other}"""
    import klayout.db as kdb
    nl = kdb.Netlist()
    classes = {}
    circs = []
    names = [spec.get('other', 'SUB'), spec['top']] if spec.get('other_first') else [spec['top'], spec.get('other', 'SUB')]
    for nm in names:
        c = kdb.Circuit()
        c.name = nm
        nl.add(c)
    for k in KINDS:
        x = getattr(kdb, 'DeviceClass' + k)()
        x.name = 'dc_' + k
        nl.add(x)
        classes[k] = x
    if spec.get('anchor'):
        anchor = kdb.DeviceClass()
        anchor.name = 'anchor'
        for t in 'XYZ':
            anchor.add_terminal(kdb.DeviceTerminalDefinition(t, ''))
        nl.add(anchor)
    for nm in names:
        c = nl.circuit_by_name(nm)
        nets = [c.create_net(n) for n in spec['nets']]
        for j, net in enumerate(nets):
            net.cluster_id = j + 1      # as the extractor does: an unnamed net is called $<cluster id>
        if spec.get('anchor'):         # a device on every net: klayout merges devices in series only across other nets
            for j, net in enumerate(nets):
                a = c.create_device(anchor, f'anchor{j}')
                for t in range(3):
                    a.connect_terminal(t, net)
        for j in range(spec.get('lonely', 0)):      # nets without anything on them
            c.create_net(f'lonely{j}').cluster_id = len(nets) + j + 1
        for j in range(min(spec.get('pins', 0), len(nets))):
            if nets[j].name:
                c.connect_pin(c.create_pin(nets[j].name), nets[j])
        for i, (k, ts, v) in enumerate(spec['devs']):
            d = c.create_device(classes[k], (f'd{i}' if spec['named'] is True else spec['named'] or '') if 'named' in spec else f'd{i}')
            for t, n in zip(classes[k].terminal_definitions(), ts):
                if n is not None and n < len(nets):
                    d.connect_terminal(t.id(), nets[n])
            if k.startswith('Cap'):
                d.set_parameter('C', v)
            elif k.startswith('Res'):
                d.set_parameter('R', v)
    if spec.get('inst'):
        top, sub = nl.circuit_by_name(spec['top']), nl.circuit_by_name(spec.get('other', 'SUB'))
        nets = list(top.each_net())
        for i in range(spec['inst']):
            x = top.create_subcircuit(sub, f'x{i}')
            for p in sub.each_pin():
                x.connect_pin(p, nets[(p.id() + i) % len(nets)])
    return nl


def tame(rng, sp):
    """no self-connected or unconnected devices (klayout's device combination does not cope with them)"""
    n = len(sp['nets'])
    while n < 4:
        sp['nets'].append(f'extra{n}')
        n += 1
    for d in sp['devs']:
        d[1] = rng.sample(range(n), 4) if rng.random() < 0.5 else [0, 1, 2, 3]
    one = [d for d in sp['devs'] if d[0][:3] not in ('Cap', 'Res')][:1]
    sp['devs'] = [d for d in sp['devs'] if d[0][:3] in ('Cap', 'Res')] + one
    sp['anchor'] = True
    return sp


def rand_spec(rng, kinds=KINDS, maxdev=9, nets=None):
    nets = nets if nets is not None else rng.sample(['A', 'B', 'C', 'VDD', 'VSS', 'GND', 'net_1', 'x.y', 'VSUBS', 'FC_GND', 'Z9', '', 'g1_A', 'g2_g3_x', 'x', 'a;b', 'A$1', 'VSUBS2', 'gnd', 'net_10', 'net_2', 'AGND', 'DGND', 'GND1', '1', '2', '3'], rng.randrange(1, 8))
    return dict(nets=nets, top='TOP', other='SUB', other_first=rng.random() < 0.5, named=rng.choice([True, True, True, '', 'same']),
                lonely=rng.choice([0, 0, 1, 2]), pins=rng.choice([0, 2, 9]), inst=rng.choice([0, 0, 1, 2]),
                devs=[[rng.choice(kinds), [rng.randrange(len(nets)) if rng.random() < 0.95 else None for _ in range(4)],
                       rng.choice([0.0, 1e-18, 4.9e-17, 5e-17, 5.1e-17, 1e-16, 2e-15, 3.5])] for _ in range(rng.randrange(0, maxdev))])


def devices(circ):
    out = []
    for d in circ.each_device():
        dc = d.device_class()
        terms = []
        for t in dc.terminal_definitions():
            n = d.net_for_terminal(t.id())
            terms.append((t.name, None if n is None else n.expanded_name()))
        pars = {p.name: d.parameter(p.id()) for p in dc.parameter_definitions()}
        out.append((dc.name, type(dc).__name__, d.name, tuple(terms), tuple(sorted(pars.items()))))
    return out


def wiring(c):
    nm = lambda n: None if n is None else n.expanded_name()
    return ([(p.name(), nm(c.net_for_pin(p.id()))) for p in c.each_pin()],
            [(x.name, x.circuit_ref().name, [nm(x.net_for_pin(p.id())) for p in x.circuit_ref().each_pin()]) for x in c.each_subcircuit()])


def content(nl):
    return {c.name: (sorted(n.expanded_name() for n in c.each_net()), devices(c), wiring(c)) for c in nl.each_circuit()}
