"""Maxwell capacitance matrix -> netlist"""
RULE = ('random netlists (0..8 devices of all classes in two circuits, nets incl. pre-existing VSUBS/FC_GND/GND and unnamed '
        'ones) x random dyadic matrices of size 0..6 with zero, negative and positive couplings and row sums; plus '
        'conductors that name no net; non-trivial: at least one positive coupling')
N = 500
from replay.netlists import *


def cases(rng, n):
    yield dict(spec=dict(nets=['A', 'B'], top='TOP', devs=[['Capacitor', [0, 1, None, None], 1e-15]] * 12), cond=['VSUBS', 'A', 'B'],
               m=[[3, -1, -1], [-1, 4, -2], [-1, -2, 3.5]], black=False)
    yield dict(spec=dict(nets=['A', 'VSUBS'], top='TOP', devs=[]), cond=['VSUBS', 'A'], m=[[1, -1], [-1, 2]], black=True)
    for i in range(n):
        sp = rand_spec(rng)
        if i % 50 == 3:
            sp['nets'] = [f'n{k}' for k in range(rng.choice([13, 25]))]
        names = [x for x in sp['nets'] if x]
        if '' in sp['nets']:
            names.append(f"${sp['nets'].index('') + 1}")
        if 'VSUBS' not in names:
            names.append('VSUBS')
        rng.shuffle(names)
        cond = names[:rng.randrange(0, len(names) + 1)]
        if cond and rng.random() < 0.08:
            cond[rng.randrange(len(cond))] = rng.choice(['nowhere', 'a', '', 'lonely9'])
        d = len(cond)
        m = [[0.0] * d for _ in range(d)]
        for a in range(d):
            for b in range(d):
                m[a][b] = rng.choice([0.0, -rng.randrange(0, 4096) / 1024, -rng.randrange(0, 4096) / 1024, rng.randrange(-1024, 1024) / 1024])
        for a in range(d):
            if rng.random() < 0.7:
                m[a][a] = rng.randrange(0, 3) / 4 - sum(m[a][b] for b in range(d) if b != a)
        yield dict(spec=sp, cond=cond, m=m, black=rng.random() < 0.5, pre=rng.randrange(0, 30))


def trivial(c):
    m = c['m']
    return not any(m[i][j] < 0 for i in range(len(m)) for j in range(i + 1, len(m)))


def check(c):
    from klayout_pex.klayout.netlist_expander import NetlistExpander
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    nl = build(c['spec'])
    before = content(nl)
    m = c['m']
    cond = [f'g{i + c.get("pre", 0)}_{n}' for i, n in enumerate(c['cond'])]
    cm = CapacitanceMatrix(conductor_names=cond, rows=[list(r) for r in m])
    known = set(before['TOP'][0]) | {'VSUBS', 'FC_GND'}
    bad = [n for n in c['cond'] if n not in known]
    try:
        out = NetlistExpander.expand(extracted_netlist=nl, top_cell_name='TOP', cap_matrix=cm, blackbox_devices=c['black'])
    except Exception as e:
        if bad:
            return None
        raise
    if bad:
        return f'conductor {bad} names no net of the circuit, but no error was raised'
    if content(nl) != before:
        return 'the extracted netlist was modified'
    if cm.rows != m:
        return 'the matrix was modified'
    after = content(out)
    if after['SUB'] != before['SUB']:
        return 'another circuit was modified'
    nets, devs, wires = after['TOP']
    if wires != before['TOP'][2] or sorted(after) != sorted(before):
        return f'pins and instances {wires}, expected {before["TOP"][2]}'
    want_nets = sorted(set(before['TOP'][0]) | {'VSUBS', 'FC_GND', 'GND'})
    if nets != want_nets:
        return f'nets are {nets}, expected {want_nets}'
    kept = [d for d in devs if not d[0].startswith('PEX_')]
    if kept != (before['TOP'][1] if c['black'] else []):
        return f'kept devices {kept} (blackbox={c["black"]})'
    want = {}
    d = len(m)
    for i in range(d):
        for j in range(i + 1, d):
            if -m[i][j] > 0:
                want[f'Cext_{i}_{j}'] = (c['cond'][i], c['cond'][j], -m[i][j])
        tot = sum(m[i])
        if i > 0 and tot > 0:
            want[f'Cext_{i}_{i}'] = (c['cond'][i], c['cond'][0], tot)
    got = {}
    res = []
    for dc, ty, name, terms, pars in devs:
        if dc == 'PEX_CAP':
            if name in got or ty != 'DeviceClassCapacitor':
                return f'duplicate or odd device {name}'
            got[name] = (dict(terms)['A'], dict(terms)['B'], dict(pars)['C'])
        elif dc.startswith('PEX_'):
            res.append((ty, frozenset(n for _, n in terms), dict(pars)['R']))
    if got != want:
        k = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)][0]
        return f'capacitor {k} is {got.get(k)}, matrix says {want.get(k)}'
    if sorted(map(str, res)) != sorted(map(str, [('DeviceClassResistor', frozenset({'FC_GND', 'GND'}), 0.0), ('DeviceClassResistor', frozenset({'VSUBS', 'GND'}), 0.0)])) and \
       {(a, b, v) for a, b, v in res} != {('DeviceClassResistor', frozenset({'FC_GND', 'GND'}), 0.0), ('DeviceClassResistor', frozenset({'VSUBS', 'GND'}), 0.0)}:
        return f'ground ties are {res}'
