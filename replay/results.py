"""random extraction results (CellExtractionResults / ExtractionResults) and what they add up to"""
from collections import defaultdict
NETS = ['A', 'B', 'a', 'VSS', 'VDD', 'VSUBS', 'net_1', 'net_10', '$3', 'x.y', 'Z', 'b', 'C', 'é', '', 'n1,n2', 'FC_GND']


def rand_results(rng, maxcells=3, nets=NETS, networks=True):
    nets = rng.sample(nets, rng.randrange(1, len(nets) + 1))
    L = ['met1', 'met2', 'li1', 'poly', 'sub']
    val = lambda: rng.choice([0.0, rng.randrange(1, 4096) / 1024, rng.randrange(1, 64) * 2.0 ** -20, float(rng.randrange(1, 9))])
    cells = {}
    for c in rng.sample(['TOP', 'CELL_A', 'CELL_B', 'x'], rng.randrange(0 if rng.random() < .1 else 1, maxcells + 1)):
        caps = []
        for _ in range(rng.randrange(0, 14)):
            caps.append([rng.choice(['ov', 'sw', 'so']), rng.choice(L), rng.choice(nets), rng.choice(L), rng.choice(nets), val()])
        nws = []
        for _ in range(rng.randrange(0, 4) if networks else 0):
            ids = rng.sample(range(100, 200), rng.randrange(1, 7))
            nodes = [[i, rng.choice(nets + [f'NET.{i}', f'NET.{i % 3}'])] for i in ids]
            els = [[rng.choice(ids), rng.choice(ids), val()] for _ in range(rng.randrange(0, 7))]
            nws.append(dict(nodes=nodes, els=els))
        cells[c] = dict(caps=caps, nws=nws)
    return cells


def build_results(cells):
    from klayout_pex.rcx25 import extraction_results as X
    out = X.ExtractionResults()
    for c, d in cells.items():
        r = X.CellExtractionResults(cell_name=c)
        for kind, l1, n1, l2, n2, v in d['caps']:
            if kind == 'ov':
                r.add_overlap_cap(X.OverlapCap(key=X.OverlapKey(l1, n1, l2, n2), cap_value=v, shielded_area=0, unshielded_area=0, tech_spec=None))
            elif kind == 'sw':
                r.add_sidewall_cap(X.SidewallCap(key=X.SidewallKey(l1, n1, n2), cap_value=v, distance=0, length=0, tech_spec=None))
            else:
                r.add_sideoverlap_cap(X.SideOverlapCap(key=X.SideOverlapKey(l1, n1, l2, n2), cap_value=v))
        for nw in d['nws']:
            p = r.r_extraction_result.networks.add()
            for i, n in nw['nodes']:
                x = p.nodes.add()
                x.node_id, x.net_name = i, n
            for a, b, v in nw['els']:
                e = p.elements.add()
                e.node_a.node_id, e.node_b.node_id, e.resistance = a, b, v
        out.cell_extraction_results[c] = r
    return out


def totals(cells):
    """couple (sorted pair of net names) -> capacitance, resistance"""
    caps, res = defaultdict(float), defaultdict(float)
    for d in cells.values():
        for kind, l1, n1, l2, n2, v in d['caps']:
            caps[tuple(sorted((n1, n2)))] += v
        for nw in d['nws']:
            nm = dict(map(tuple, nw['nodes']))
            for a, b, v in nw['els']:
                res[tuple(sorted((nm[a], nm[b])))] += v
    return dict(caps), dict(res)
