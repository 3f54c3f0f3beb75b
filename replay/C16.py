"""the extraction context made from an LVS database"""
RULE = ('random technologies and layouts (split layers, two computed layers with one pair, pins and labels, transistors, MIM capacitors, '
        'L-shaped pins, unconnected terminals, unknown layers, nets without names, black-boxed devices, placed sub-cells) as real LayoutToNetlist '
        'databases; the context against KLayout\'s own queries on the database; non-trivial: a net without a name or a layer with two parts')
N = 200
BUDGET_S = 70
import random
from replay.lvs import *


def cases(rng, n):
    for i in range(n):
        c = rand_case(rng)
        if i % 3:
            add_devices(rng, c)
        if rng.random() < .3:
            c['sub'] = [rng.choice([x[0] for x in c['comp'] if x[4] == 'METAL' and x[3] != 'PIN']), [[0, 0, 2, 1], [1, 0, 2, 3]],
                        [[rng.randrange(12), rng.randrange(12), rng.randrange(8)] for _ in range(rng.randrange(1, 4))]]
            for x, y, _ in c['sub'][2]:      # the net of the placed cell belongs to a net of the top cell
                c['rects'].setdefault(c['sub'][0], []).append([x - 1, y - 1, x + 1, y + 1])
        r = random.Random(i)
        if not any(c['rects'].values()):        # a database without any net has no circuit
            c['rects'][c['comp'][0][0]] = [[0, 0, 1, 1]]
        for x in c['comp']:
            if x[3] == 'DEVICE_CAPACITOR' and r.random() < .4:
                x[3] = 'DEVICE_RESISTOR'
        if 'mos' in c and r.random() < .4:
            c['nameless'] = True
        c['early'] = r.random() < .5
        if r.random() < .3:      # an L-shaped pin with another one in its notch
            m, x, y = r.choice(c['metals']), 40, r.choice([0, 20])
            c['lpins'] = [[m, x, y]]
            c['rects'].setdefault(next(q[0] for q in c['comp'] if q[1] == m), []).extend([[x, y, x + 4, y + 1], [x, y, x + 1, y + 4], [x + 2, y + 2, x + 3, y + 3]])
            c['pins'] += [[m, x, y, 'P'], [m, x + 2, y + 2, 'Q']]
        if c['pins'] and r.random() < .15:      # pins from two layers of the database
            m = c['pins'][0][0]
            c['pin2'] = m
            c['comp'].append([m + '_pin2_con', m + '.pin', [67 + METALS.index(m), 16], 'PIN', 'METAL'])
            c['rects'][m + '_pin2_con'] = [[x, y, x + 1, y + 1] for mm, x, y, _ in c['pins'] if mm == m]
        yield c


def trivial(c): return not any(x[0].endswith(('_b', '_cap')) and c['rects'].get(x[0]) for x in c['comp'])


def xor(a, b): return (a ^ b).merged().area()


def pts(r):
    """the points of a region without its properties"""
    q = kdb.Region()
    for p in r.each():
        q.insert(p.downcast() if hasattr(p, 'downcast') else kdb.Polygon(p))
    return q.merged()


def check(c):
    ctx = context(c)
    l2n = ctx.lvsdb
    top = l2n.netlist().circuit_by_name('TOP')
    regs = ctx._keep[1]
    dev = lambda k: c['blackbox'] and k in ('DEVICE_CAPACITOR', 'DEVICE_RESISTOR')
    want = {}
    for nm, can, p, kind, pur in c['comp']:
        if not dev(kind) and not regs[nm].is_empty():
            want.setdefault(tuple(p), []).append(nm)
    order = list(l2n.layer_names())
    info = {x[0]: x for x in c['comp']}
    labels = {m + '_label' for m in c['metals']}
    for i in l2n.layer_indexes():
        nm = l2n.layer_name(i)
        a = ctx.layer_index_map.get(i)
        x = info.get(nm)
        has = not dev(x[3]) if x else nm == 'mystery' or (nm in labels)
        if has != (a is not None):
            return f'layer {nm} is {"not " if has else ""}mapped'
        if has:
            li, w = ctx.annotated_layout.get_info(a), tuple(x[2]) if x else (900, 7) if nm == 'mystery' else None
            if w and (li.layer, li.datatype) != w:
                return f'layer {nm} is mapped to {li}'
    if len(set(ctx.layer_index_map.values())) != len(ctx.layer_index_map):
        return 'two layers are mapped to one'
    got = {p: [s.lvs_layer_name for s in m.source_layers] for p, m in ctx.extracted_layers.items()}
    if {p: sorted(x, key=order.index) for p, x in want.items()} != got:
        return f'extracted layers {got} instead of {want}'
    for p, m in ctx.extracted_layers.items():
        if m.gds_pair != p or any(s.gds_pair != p or order[s.index] != s.lvs_layer_name for s in m.source_layers):
            return f'layer {p} has sources of another layer'
    un = [u.lvs_layer_name for u in ctx.unnamed_layers]
    if un != (['mystery'] if c.get('unknown') else []):
        return f'unnamed layers {un}'
    flat = regs
    box = kdb.Box()
    for nm in regs:
        box += flat[nm].bbox()
    if not box.empty() and not box.inside(ctx.top_cell_bbox()):
        return f'bounding box {ctx.top_cell_bbox()} does not cover {box}'
    nets = list(top.each_net())
    for p, names in list(want.items()) + [((1, 2), [])]:
        r = ctx.shapes_of_layer(p)
        if not names:
            if r is not None or ctx.shapes_of_net(p, 'A') is not None:
                return 'shapes of a layer that does not exist'
            continue
        all_ = kdb.Region()
        for nm in names:
            all_ += pts(flat[nm])
        if xor(pts(r), all_.merged()):
            return f'layer {p} ({names}) does not have all its shapes and nothing else'
        by = {}
        for q in r.each():
            by.setdefault(q.property('net'), kdb.Region()).insert(kdb.Polygon(q.downcast() if hasattr(q, 'downcast') else q))
        for net in nets:
            e = net.expanded_name()
            w = kdb.Region()
            for nm in names:
                for same in nets:        # pieces that are not connected but carry one label have one name
                    if same.expanded_name() == e:
                        w += pts(l2n.shapes_of_net(same, regs[nm], True))
            for what, g in (('shapes of the layer labelled with', by.get(e, kdb.Region())), ('shapes_of_net of the net', ctx.shapes_of_net(p, net)),
                            ('shapes_of_net of the name', ctx.shapes_of_net(p, e))):
                if xor(pts(g), w.merged()):
                    return f'layer {p}: {what} {e!r} cover {pts(g).area()} instead of {w.merged().area()}'
        if set(by) - {n.expanded_name() for n in nets}:
            return f'layer {p}: shapes of nets that do not exist: {set(by)}'
    return devices(c, ctx, top) or pins(c, ctx, regs)


def devices(c, ctx, top):
    l2n = ctx.lvsdb
    can = {x[0]: x[1] for x in c['comp']}
    kinds = {x[0]: x[3] for x in c['comp']}
    d = ctx.devices_by_name
    want = {}
    for k in ctx.top_circuit.each_device():
        ts = []
        for td in k.device_class().terminal_definitions():
            net = k.net_for_terminal(td.id())
            regs = []
            if net is not None:
                for nt in net.each_terminal():
                    if nt.device().id() == k.id() and nt.terminal_id() == td.id():
                        for idx, r in l2n.shapes_of_terminal(nt).items():
                            nm = l2n.layer_name(idx)
                            if not (c['blackbox'] and kinds[nm].startswith('DEVICE')):
                                regs.append((can[nm], r.area()))
            ts.append((td.id(), td.name, net.expanded_name() if net is not None else '', sorted(regs)))
        want[k.expanded_name()] = (k.id(), k.device_class().name, {p.name: k.parameter(p.id()) for p in k.device_class().parameter_definitions()}, ts)
    area = lambda r: sum(kdb.Polygon([kdb.Point(q.x, q.y) for q in p.hull_points]).area() for p in r.polygons)
    got = {n: (x.id, x.device_class_name, {p.name: p.value for p in x.parameters},
               [(t.terminal_id, t.name, t.net_name, sorted((r.layer.canonical_layer_name, area(r.region)) for r in t.region_by_layer)) for t in x.terminals])
           for n, x in d.items()}
    if any(n != x.device_name or any(t.device_id != x.id for t in x.terminals) for n, x in d.items()):
        return 'a device under another name'
    if got != want:
        return f'devices {got} instead of {want}'


def pins(c, ctx, regs):
    want = set()
    u = c['unit']
    can = {tuple(x[2]): x for x in c['comp']}
    both = None
    if c.get('pin2'):
        pair = (67 + METALS.index(c['pin2']), 20)
        if all((pair[0], 16) in ctx.extracted_layers and not regs[c['pin2'] + e].is_empty() for e in ('_pin_con', '_pin2_con')) and \
                any(x[1] == c['pin2'] and x[3] != 'PIN' and tuple(x[2]) in ctx.extracted_layers for x in c['comp']):
            both = pair
        try:
            ctx.pins_pb2_by_layer
        except NotImplementedError:
            return None if both else 'pins of one database layer are refused'
        if both:
            return 'pins of two database layers: those of the first are taken'
    for m, x, y, label in c['pins']:
        pt = kdb.Point(x * u + u // 2, y * u + u // 2)
        pin = regs[m + ('_pin2_con' if c.get('pin2') == m and regs[m + '_pin_con'].is_empty() else '_pin_con')]
        if not any(p.inside(pt) for p in pin.merged().each()):
            continue
        net = ctx.lvsdb.probe_net(pin, pt)
        for nm, cn, p, kind, pur in c['comp']:
            if cn == m and kind != 'PIN' and tuple(p) in ctx.extracted_layers:
                want.add((67 + METALS.index(m), 20, label, net.expanded_name(), pt.x, pt.y, m))
    got = {(*pr, p.label, p.net_name, p.label_point.x, p.label_point.y, p.layer.canonical_layer_name) for pr, l in ctx.pins_pb2_by_layer.items() for p in l}
    if got != want:
        return f'pins {sorted(got)} instead of {sorted(want)}'
    for pr, l in ctx.pins_pb2_by_layer.items():
        for p in l:
            if p.label_point.net != p.net_name:
                return f'pin {p.label}: net {p.net_name!r} and {p.label_point.net!r}'
            li = ctx.annotated_layout.get_info(p.layer.id)
            src = [x for x in c['comp'] if tuple(x[2]) == (li.layer, li.datatype)]
            if p.layer.canonical_layer_name not in [x[1] for x in src] or p.layer.lvs_layer_name not in [x[0] for x in src]:
                return f'pin {p.label} on a wrong layer {p.layer}'
