"""extracted capacitors -> CSV"""
RULE = ('random netlists with devices of all classes, several capacitor classes (one called PEX_CAP), unnamed nets and devices; '
        'the parsed file compared with the netlist; non-trivial: at least one extracted capacitor')
N = 300
import os, tempfile
from replay.netlists import *


def cases(rng, n):
    for i in range(n):
        sp = rand_spec(rng, maxdev=9 if i % 5 else 60)
        sp['pex'] = [[rng.randrange(len(sp['nets'])), rng.randrange(len(sp['nets'])),
                      rng.choice([10 ** rng.uniform(-18, -9), 0.0, 1e-18, 4e-18, 6e-18, 1e-15, 1.2345e-15, 1e-12, 7.77e-11, 3e-9, 12.3456e-15, 99.994e-15, 1e-21])]
                     for _ in range(rng.randrange(0, 6 if i % 7 else 120))]
        sp['bulk'] = rng.random() < .3
        sp['also'] = rng.choice([None, None, 'PEX_CAP2', 'PEX_RES', 'pex_cap', 'C', 'XPEX_CAP'])
        sp['pexname'] = rng.random() < .8
        yield sp


def trivial(c): return not c['pex']


def check(c):
    import klayout.db as kdb
    from klayout_pex.klayout.netlist_csv import NetlistCSVWriter
    nl = build(c)
    cls = (kdb.DeviceClassCapacitorWithBulk if c['bulk'] else kdb.DeviceClassCapacitor)()
    cls.name = 'PEX_CAP'
    nl.add(cls)
    top = nl.circuit_by_name('TOP')
    nets = list(top.each_net())
    for i, (a, b, v) in enumerate(c['pex']):
        d = top.create_device(cls, f'ext_{i + 1}' if c['pexname'] else '')
        d.connect_terminal('A', nets[a])
        d.connect_terminal('B', nets[b])
        d.set_parameter('C', v)
    if c.get('also'):
        x = kdb.DeviceClassCapacitor()
        x.name = c['also']
        nl.add(x)
        d = top.create_device(x, 'other')
        d.connect_terminal('A', nets[0])
        d.connect_terminal('B', nets[-1])
        d.set_parameter('C', 3e-15)
    want = [(d.expanded_name(), d.net_for_terminal('A').expanded_name(), d.net_for_terminal('B').expanded_name(), d.parameter('C') * 1e15)
            for d in top.each_device() if d.device_class().name == 'PEX_CAP']
    before = content(nl)
    with tempfile.TemporaryDirectory() as t:
        p = os.path.join(t, 'o.csv')
        NetlistCSVWriter().write_csv(netlist=nl, top_cell_name='TOP', output_path=p)
        text = open(p, encoding='utf-8').read()
    if content(nl) != before:
        return 'the netlist was modified'
    lines = text.split('\n')
    if lines[0] != 'Device;Net1;Net2;Capacitance [fF]' or lines[-1] != '':
        return f'header {lines[0]!r}, end {lines[-1]!r}'
    lines = lines[1:-1]
    if len(lines) != len(want):
        return f'{len(lines)} lines for {len(want)} extracted capacitors'
    for ln, (d, a, b, v) in zip(sorted(lines, key=str), sorted(want, key=lambda w: f'{w[0]};{w[1]};{w[2]};')):
        if not ln.startswith(f'{d};{a};{b};'):
            return f'line {ln!r} for capacitor {d} between {a} and {b}'
    left = sorted(want)
    for ln in lines:
        for w in left:
            pre = f'{w[0]};{w[1]};{w[2]};'
            if ln.startswith(pre) and abs(float(ln[len(pre):]) - w[3]) <= 0.005 * (1 + 1e-9) + 1e-12 * w[3]:
                left.remove(w)
                break
        else:
            return f'line {ln!r} matches no extracted capacitor {left}'
