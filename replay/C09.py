"""netlist -> Yosys JSON -> netlistsvg"""
import json, os, shutil, sys, tempfile
RULE = ('random SPICE netlists: capacitors and resistors of any value, subcircuits instantiated several times, pins, ground nets, several top circuits; the JSON is compared with the netlist '
        '(which cells, which terminals share a net, values, ground symbols) and `netlist svg` runs with a stand-in for netlistsvg that keeps what it was given; '
        'non-trivial: a device or an instance')
N = 260
from replay.netlists import build, rand_spec
NETS = ['A', 'B', 'GND', 'VSUBS', 'VDD', 'VSS', 'DGND', 'net_1', 'x.y', 'N1', 'N2', 'N10', 'Z#', 'out', '0', '12']
VALS = [1e-15, 2.5e-15, 1e-18, 4.4e-19, 1.2345678e-15, 3.3e-12, 1e-6, 0.0, 9.9996e-16]
RES = [1.0, 0.0, 100.0, 12.34567, 1e6, 0.0004, 2.5e-3]


def cases(rng, n):
    for i in range(n):
        subs = []
        for s in range(rng.randrange(0, 3)):
            np = rng.randrange(1, 4)
            subs.append(dict(name=f'SUB{s}', pins=rng.sample(NETS, np), devs=devs(rng, 2)))
        tops = []
        for t in range(rng.choice([1, 1, 1, 2, 3, 0]) or (0 if not subs else 1)):
            nets = rng.sample(NETS, rng.randrange(1, 9))
            tops.append(dict(name=rng.choice(['TOP', 'inv_1', 'Amp']) + str(t), pins=rng.sample(nets, rng.randrange(1, len(nets) + 1)), devs=devs(rng, 8, nets),
                             inst=[[rng.randrange(len(subs)), [rng.choice(nets) for _ in range(3)]] for _ in range(rng.randrange(0, 5))] if subs else []))
        for j in range(len(subs)):        # every subcircuit is used
            if tops:
                tops[0]['inst'].append([j, [rng.choice(NETS) for _ in range(3)]])
        yield dict(subs=subs, tops=tops, cell=rng.choice([None, None, None, 'last', 'sub', 'unknown', 'unknown']) if rng.random() < .6 else None,
                   out=rng.random() < .5, exe=rng.choice(['rel', 'abs', 'path']), old=rng.random() < .4, fail=rng.random() < .15)


        if i % 4 == 0:
            yield dict(spec=rand_spec(rng, kinds=['Capacitor', 'Resistor', 'CapacitorWithBulk', 'ResistorWithBulk'], nets=rng.sample(NETS[:9] + ['', '1', '2', '3', '4', 'a$1', '$x'], rng.randrange(2, 9))))


def devs(rng, n, nets=NETS):
    return [[rng.choice('CR'), rng.choice(nets), rng.choice(nets), rng.choice(VALS), rng.choice(RES)] for _ in range(rng.randrange(0, n + 1))]


def trivial(c): return not c['spec']['devs'] if 'spec' in c else not any(t['devs'] or t['inst'] for t in c['tops'])


def text(c):
    out = ['* netlist']
    for s in c['subs']:
        out += [f".SUBCKT {s['name']} {' '.join(s['pins'])}"]
        out += body(s)
        out += ['.ENDS']
    for t in c['tops']:
        out += [f".SUBCKT {t['name']} {' '.join(t['pins'])}"]
        out += body(t)
        for i, (j, ns) in enumerate(t['inst']):
            s = c['subs'][j]
            out.append(f"X{i + 1} {' '.join(ns[:len(s['pins'])])} {s['name']}")
        out += ['.ENDS']
    return '\n'.join(out + ['.END', ''])


def body(s):
    out = []
    for i, (k, a, b, v, r) in enumerate(s['devs']):
        out.append(f"{k}{i + 1} {a} {b} {v if k == 'C' else r!r}")
    return out


def check(c):
    import klayout.db as kdb
    top = os.path.realpath(tempfile.mkdtemp(prefix='c09_'))
    cwd, path = os.getcwd(), os.environ['PATH']
    try:
        os.makedirs(f'{top}/bin')
        os.chdir(top)
        os.environ['PATH'] = f'{top}/bin:{path}'
        if 'spec' in c:         # as LVS makes it, with nets that have no name
            for d in c['spec']['devs']:
                d[1] = [0 if t is None else t for t in d[1]]
            c['spec']['named'] = True
            nl = build(c['spec'])
            for x in list(nl.each_circuit()):
                e = one(kdb, nl, x, top)
                if e:
                    return e
            return None
        p = f'{top}/in.spice'
        open(p, 'w').write(text(c))
        nl = kdb.Netlist()
        nl.read(p, kdb.NetlistSpiceReader())
        cells = [x for x in nl.each_circuit()]
        for x in cells:
            e = one(kdb, nl, x, top)
            if e:
                return e
        return command(c, kdb, nl, top, p)
    finally:
        os.environ['PATH'] = path
        os.chdir(cwd)
        shutil.rmtree(top)


def one(kdb, nl, circ, top):
    from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
    q = f'{top}/one.json'
    before = nl.to_s()
    NetlistJSONWriter().write_json(netlist=nl, top_circuit=circ, output_path=q)
    if nl.to_s() != before:
        return 'the netlist was modified'
    return compare(kdb, circ, json.load(open(q, encoding='utf-8')))


def compare(kdb, circ, d):
    if list(d) != ['modules'] or list(d['modules']) != [circ.name]:
        return f'modules {d.get("modules", d).keys()}'
    m = d['modules'][circ.name]
    name = {}
    bits = {}

    def same(bit, net, what):
        if net is None or not isinstance(bit, list) or len(bit) != 1 or not isinstance(bit[0], int):
            return f'{what}: bits {bit}'
        n = net.expanded_name()
        if bits.setdefault(bit[0], n) != n or name.setdefault(n, bit[0]) != bit[0]:
            return f'{what}: bit {bit} for net {n}, which has {name.get(n)}; the bit is that of {bits[bit[0]]}'
    pins = list(circ.each_pin())
    if sorted(m['ports']) != sorted(p.name() for p in pins):
        return f"ports {sorted(m['ports'])}"
    for p in pins:
        e = same(m['ports'][p.name()]['bits'], circ.net_for_pin(p.id()), f'port {p.name()}')
        if e:
            return e
    cells = dict(m['cells'])
    for s in circ.each_subcircuit():
        ref = s.circuit_ref()
        ks = [k for k, v in cells.items() if v['type'] == '$' + ref.name and (k.startswith('X') and k[1:] == s.expanded_name())]
        if len(ks) != 1:
            return f'instance {s.expanded_name()} of {ref.name} is shown {len(ks)} times'
        v = cells.pop(ks[0])
        want = {p.id(): s.net_for_pin(p.id()) for p in ref.each_pin()}
        for f in ('connections', 'port_directions'):
            got = {int(k.split('=')[0]): x for k, x in v[f].items()}
            if sorted(got) != sorted(want) or len(v[f]) != len(want):
                return f'instance {s.expanded_name()}: {f} {sorted(v[f])}'
            if f == 'connections':
                for i, b in got.items():
                    e = same(b, want[i], f'instance {s.expanded_name()}, pin {i}')
                    if e:
                        return e
    for dv in circ.each_device():
        cap = isinstance(dv.device_class(), kdb.DeviceClassCapacitor)
        k = ('C' if cap else 'R') + dv.expanded_name()
        if k not in cells or cells[k]['type'] != ('c_v' if cap else 'r_v'):
            return f'device {k} is not shown'
        v = cells.pop(k)
        if sorted(v['connections']) != ['A', 'B']:
            return f'device {k}: {sorted(v["connections"])}'
        for t in 'AB':
            e = same(v['connections'][t], dv.net_for_terminal(t), f'device {k}, terminal {t}')
            if e:
                return e
        x = v['attributes']['value']
        want = dv.parameter('C') * 1e15 if cap else dv.parameter('R')
        if cap and not x.endswith('f'):
            return f'device {k}: value {x}'
        if abs(float(x[:-1] if cap else x) - want) > 0.00051 + 1e-9 * abs(want):
            return f'device {k}: value {x} for {want}'
    for n in ('VSUBS', 'GND'):
        ks = [k for k, v in cells.items() if v['type'] == 'gnd' and v['attributes']['value'] == n]
        if len(ks) != (n in name):
            return f'{n} has {len(ks)} ground symbols'
        if ks and cells.pop(ks[0])['connections']['A'] != [name[n]]:
            return f'the ground symbol of {n} is elsewhere'
    if cells:
        return f'cells {sorted(cells)} are no devices of the circuit'


def command(c, kdb, nl, top, p):
    from klayout_pex.netlist.netlist_cli import NetlistCLI
    st = 3 if c['fail'] else 0
    exe = f'{top}/bin/nsvg'
    open(exe, 'w').write('#!/bin/sh\nfor a in "$@"; do printf "%s\\n" "$a"; done > ' + f'{top}/args\nfor a in "$@"; do f="$a"; done\ncp "$f" {top}/given.json\nexit {st}\n')
    os.chmod(exe, 0o755)
    tops = nl.top_circuits()
    circs = {x.name: x for x in nl.each_circuit()}
    argv = ['svg', p, '--exe', dict(rel='bin/nsvg', abs=exe, path='nsvg')[c['exe']]]
    want = tops[0] if len(tops) == 1 else None
    if c['cell'] and circs:
        nm = dict(last=sorted(circs)[-1], sub=sorted(circs)[0], unknown='nothere')[c['cell']]
        argv += ['--cell', nm]
        want = circs.get(nm)
    out = f'{top}/o.svg'
    if c['out']:
        argv += ['-o', out]
    if c['old'] and want is not None:
        d = f'netlist_run/{want.name.lower()}'
        os.makedirs(d)
        open(f'{d}/yosys_netlist.json', 'w').write('{"modules": {"OLD": {}}}' + ' ' * 100000)
    cli = NetlistCLI()
    err = None
    try:
        cli.run_netlistsvg(cli.parse_args(argv))
    except SystemExit as e:
        err = e
    except Exception as e:
        err = e
    ran = os.path.exists(f'{top}/args')
    if want is None:
        if err is None or ran:
            return f'{argv[2:]}: no single circuit, but {"netlistsvg ran" if ran else "no error"}'
        return
    if not ran:
        return f'{argv[2:]}: netlistsvg was not run ({err!r})'
    if (err is not None) != bool(st):
        return f'{argv[2:]}: status {st}, error {err!r}'
    args = open(f'{top}/args').read().split('\n')
    if c['out'] and (args[:2] != ['-o', out]):
        return f'the diagram goes to {args[:2]}'
    return compare(kdb, want, json.load(open(f'{top}/given.json', encoding='utf-8')))
