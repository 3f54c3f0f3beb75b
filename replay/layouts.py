"""random technologies and layouts for the 2.5D capacitance extraction, and an independent grid oracle"""
STACK = ['VSUBS', 'poly', 'li1', 'met1', 'met2', 'met3', 'capm', 'met4']
VAL = [1.0, 0.5, 2.0, 12.5, 40.0, 100.0, 197.0, 0.0]


def rand_tech(rng, layers, p=0.85):
    """capacitance tables over the layers; an entry exists with probability p"""
    v = lambda: rng.choice(VAL[:-1]) if rng.random() < .97 else 0.0
    m = [x for x in layers if x != 'VSUBS']
    t = dict(halo=rng.choice([0.5, 2.0, 8.0, 50.0]), sub={}, ov=[], sw={}, so=[])
    for i, x in enumerate(m):
        if rng.random() < p:
            t['sub'][x] = [v(), v()]
        if rng.random() < p:
            t['sw'][x] = [v(), rng.choice([0.0, 0.1, 0.37, 1.5])]
        for j, y in enumerate(m):
            if j < i and rng.random() < p:
                t['ov'].append([x, y, v()])
            if j != i and rng.random() < p:
                t['so'].append([x, y, v()])
    rng.shuffle(t['ov'])
    rng.shuffle(t['so'])
    return t


def make_tech(t):
    from klayout_pex.tech_info import TechInfo
    import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
    p = tech_pb2.Technology()
    fill_tables(p, t)
    return TechInfo(p, None)


def fill_tables(p, t):
    pp = p.process_parasitics
    pp.side_halo = t['halo']
    c = pp.capacitance
    for k, (a, b) in t['sub'].items():
        x = c.substrates.add()
        x.layer_name, x.area_capacitance, x.perimeter_capacitance = k, a, b
    for a, b, v in t['ov']:
        x = c.overlaps.add()
        x.top_layer_name, x.bottom_layer_name, x.capacitance = a, b, v
    for k, (a, b) in t['sw'].items():
        x = c.sidewalls.add()
        x.layer_name, x.capacitance, x.offset = k, a, b
    for a, b, v in t['so']:
        x = c.sideoverlaps.add()
        x.in_layer_name, x.out_layer_name, x.capacitance = a, b, v


def ov_table(t):
    d = {(k, 'VSUBS'): a for k, (a, b) in t['sub'].items()}
    d.update({(a, b): v for a, b, v in t['ov']})
    return d


def so_table(t):
    d = {(k, 'VSUBS'): b for k, (a, b) in t['sub'].items()}
    d.update({(a, b): v for a, b, v in t['so']})
    return d


def rand_layout(rng, n=8, nlayers=None, dens=None):
    """{layer: [[x1, y1, x2, y2, net], ..]} on an n x n grid; rectangles of a layer do not overlap unless of one net"""
    k = nlayers or rng.randrange(2, len(STACK) + 1)
    layers = ['VSUBS'] + sorted(rng.sample(STACK[1:], k - 1), key=STACK.index)
    nets = rng.sample(['A', 'B', 'C', 'VSUBS', 'n1', 'N1', 'x.y', '$5'], rng.randrange(1, 6))
    out = {}
    for ly in layers[1:]:
        used = [[None] * n for _ in range(n)]
        rects = []
        for _ in range(rng.randrange(0, 6) if dens is None else dens):
            x1, y1 = rng.randrange(n), rng.randrange(n)
            x2, y2 = rng.randrange(x1 + 1, n + 1), rng.randrange(y1 + 1, n + 1)
            net = rng.choice(nets)
            if all(used[x][y] in (None, net) for x in range(x1, x2) for y in range(y1, y2)):
                for x in range(x1, x2):
                    for y in range(y1, y2):
                        used[x][y] = net
                rects.append([x1, y1, x2, y2, net])
        if n >= 3 and rng.random() < .2:        # a ring: one polygon with a hole
            x1, y1, w, h = rng.randrange(n - 2), rng.randrange(n - 2), rng.randrange(3, 6), rng.randrange(3, 6)
            x2, y2, net = min(x1 + w, n), min(y1 + h, n), rng.choice(nets)
            sides = [[x1, y1, x2, y1 + 1, net], [x1, y2 - 1, x2, y2, net], [x1, y1 + 1, x1 + 1, y2 - 1, net],
                     [x2 - 1, y1 + 1, x2, y2 - 1, net]]
            cells = [(x, y) for a, b, c, d, _ in sides for x in range(a, c) for y in range(b, d)]
            if all(used[x][y] in (None, net) for x, y in cells):
                for x, y in cells:
                    used[x][y] = net
                rects += sides
        out[ly] = rects
    return dict(layers=layers, rects=out, n=n)


def regions(lay, unit, merged=True):
    import klayout.db as kdb
    n = lay['n']
    regs = {}
    for ly in lay['layers']:
        r = kdb.Region()
        r.enable_properties()
        if ly == 'VSUBS':
            r.insert(kdb.Box(-2 * n * unit, -2 * n * unit, 3 * n * unit, 3 * n * unit))
        else:
            by = {}
            for x1, y1, x2, y2, net in lay['rects'][ly]:
                by.setdefault(net, kdb.Region()).insert(kdb.Box(x1 * unit, y1 * unit, x2 * unit, y2 * unit))
            for net, q in by.items():
                for p in (q.merged() if merged else q).each():
                    r.insert(kdb.PolygonWithProperties(p, {'net': net}))
        regs[ly] = r
    return regs


def grid(lay, ly):
    n = lay['n']
    g = [[None] * n for _ in range(n)]
    if ly == 'VSUBS':
        return [['VSUBS'] * n for _ in range(n)]
    for x1, y1, x2, y2, net in lay['rects'][ly]:
        for x in range(x1, x2):
            for y in range(y1, y2):
                g[x][y] = net
    return g


class Quiet:
    """an ExtractionReporter nobody looks at"""
    def __getattr__(self, n): return lambda *a, **k: None
