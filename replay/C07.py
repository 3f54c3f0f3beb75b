"""2.5D extraction results -> netlist"""
RULE = ('random netlists (devices of all classes, unnamed and pre-existing nets) and random extraction results of 0..3 cells, '
        'both blackbox settings; nets and devices of the result compared with the summary; non-trivial: at least one couple')
N = 400
from replay.netlists import *
from replay.results import *


def cases(rng, n):
    yield dict(spec=dict(nets=['A', 'B'], top='TOP', devs=[['Capacitor', [0, 1, None, None], 1e-15]] * 12), black=False,
               cells=dict(TOP=dict(caps=[['ov', 'm', 'A', 'm', 'VSUBS', 1.5]], nws=[])))
    for i in range(n):
        sp = rand_spec(rng, maxdev=9 if i % 4 else 30)
        sp['nets'] = [x for x in sp['nets'] if x] if rng.random() < .5 else sp['nets']
        names = sp['nets'] + ['VSUBS', 'new_1', 'new_2', 'FC_GND', 'Aa', 'aA']
        if '' in names:
            names = [x or f"${sp['nets'].index('') + 1}" for x in names]
        if not sp['nets']:
            sp['nets'] = ['A']
        names = sorted(set(names))
        rng.shuffle(names)
        yield dict(spec=sp, cells=rand_results(rng, nets=names), black=rng.random() < .5)


def trivial(c): return not totals(c['cells'])[0]


def check(c):
    from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
    nl = build(c['spec'])
    before = content(nl)
    r = build_results(c['cells'])
    caps, res = totals(c['cells'])
    out = RCX25NetlistExpander.expand(extracted_netlist=nl, top_cell_name='TOP', extraction_results=r, blackbox_devices=c['black'])
    if content(nl) != before:
        return 'the extracted netlist was modified'
    s = r.summarize()
    if {(k.net1, k.net2): v for k, v in s.capacitances.items()} != caps:
        return 'the extraction results were modified'
    after = content(out)
    if after['SUB'] != before['SUB']:
        return 'another circuit was modified'
    nets, devs, wires = after['TOP']
    if wires != before['TOP'][2] or sorted(after) != sorted(before):
        return f'pins and instances {wires}, expected {before["TOP"][2]}'
    names = {x for k in list(caps) + list(res) for x in k}
    want_nets = sorted(set(before['TOP'][0]) | {'VSUBS', 'FC_GND'} | names)
    if nets != want_nets:
        return f'nets are {nets}, expected {want_nets}'
    kept = [d for d in devs if d[0] not in ('C', 'R')]
    want_kept = before['TOP'][1] if c['black'] else [d for d in before['TOP'][1] if d[1] not in ('DeviceClassCapacitor', 'DeviceClassCapacitorWithBulk')]
    if kept != want_kept:
        return f'kept devices {[d[:3] for d in kept]}, expected {[d[:3] for d in want_kept]} (blackbox={c["black"]})'
    for cls, ty, par, scale, w in (('C', 'DeviceClassCapacitor', 'C', 1e-15, caps), ('R', 'DeviceClassResistor', 'R', 1.0, res)):
        got, seen = {}, set()
        for dc, t, name, terms, pars in devs:
            if dc != cls:
                continue
            k = tuple(sorted((dict(terms)['A'], dict(terms)['B'])))
            if t != ty or k in got:
                return f'{cls}: odd or second device between {k}'
            if name in seen:
                return f'{cls}: two devices called {name}'
            seen.add(name)
            got[k] = dict(pars)[par]
        if set(got) != set(w):
            return f'{cls}: devices between {sorted(got)}, summary lists {sorted(w)}'
        for k, v in w.items():
            if abs(got[k] - v * scale) > 1e-12 * abs(v * scale):
                return f'{cls} between {k}: {got[k]}, summary says {v * scale}'
