"""2.5D extraction of a cell: which layers, which parts of the extraction"""
RULE = ('random technologies (layers split into several computed layers, plain or computed names in the stack, MIM-like parts) and random '
        'layouts turned into a real LayoutToNetlist database; RCX25Extractor in every mode compared with running the capacitance '
        'extractors on the layers of the stack in order and the resistance extractor on the same context; non-trivial: two metal layers with shapes')
N = 60
BUDGET_S = 60
from replay.lvs import *


def cases(rng, n):
    for i in range(n):
        c = rand_case(rng, n=rng.choice([4, 6]))
        c['tables'] = rand_tech(rng, ['VSUBS'] + c['metals'], rng.choice([1.0, .8]))
        for x in c['tables']['ov']:      # a zero overlap capacitance is outside the contract of the fringe model (C13)
            x[2] = x[2] or 1.0
        for k, v in c['tables']['sub'].items():
            v[0] = v[0] or 1.0
        c['mode'] = rng.choice(['CC', 'CC', 'RC', 'R'])
        c['scale'] = rng.random() < .5
        c['amax'], c['b'] = rng.choice([(0.0, 1.0), (50.0, .5), (0.5, .3)])
        c['whole'] = rng.random() < .3
        yield c


class Skip(Exception):
    pass


def trivial(c): return sum(1 for m in c['metals'] if any(c['rects'].get(x[0]) for x in c['comp'] if x[1] == m)) < 2


def flat(t):
    out = {}
    for k, v in t.items():
        for x in v:
            out.setdefault(str(k), []).append(round(x.cap_value, 12))
    return {k: sorted(v) for k, v in out.items()}


def nets(r):
    return sorted((n.net_name, sorted((x.node_name, x.net_name, x.layer_name) for x in n.nodes), sorted(round(e.resistance, 9) for e in n.elements))
                  for n in r.networks)


def check(c):
    from klayout_pex.rcx25.extractor import RCX25Extractor
    from klayout_pex.rcx25.extraction_results import CellExtractionResults
    from klayout_pex.rcx25.pex_mode import PEXMode
    from klayout_pex.rcx25.c.overlap_extractor import OverlapExtractor
    from klayout_pex.rcx25.c.sidewall_and_fringe_extractor import SidewallAndFringeExtractor
    from klayout_pex.rcx25.r.r_extractor import RExtractor
    import tempfile, os
    ctx = context(c)
    if ctx.lvsdb.netlist().top_circuit() is None:
        raise Skip           # nothing was extracted
    if c['mode'] in ('R', 'RC'):
        from klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2 import RExtractorTech as T
        q = RExtractor(pex_context=ctx, substrate_algorithm=T.Algorithm.ALGORITHM_SQUARE_COUNTING, wire_algorithm=T.Algorithm.ALGORITHM_SQUARE_COUNTING,
                       delaunay_b=c['b'], delaunay_amax=c['amax'], via_merge_distance=0, skip_simplify=True)
        try:
            want_r = nets(q.extract(q.prepare_request()))
        except KeyError:
            raise Skip      # a via without one of its metals: not what this contract is about
    rx = RCX25Extractor(pex_context=ctx, pex_mode=PEXMode(c['mode']), scale_ratio_to_fit_halo=c['scale'], delaunay_amax=c['amax'],
                        delaunay_b=c['b'], tech_info=ctx.tech, report_path='/dev/null')
    if c['whole']:
        with tempfile.TemporaryDirectory() as d:
            rx.report_path = os.path.join(d, 'r.rdb.gz')
            r = rx.extract().cell_extraction_results
            if list(r) != ['TOP']:
                return f'results for {list(r)}'
            res = r['TOP']
    else:
        res = CellExtractionResults('TOP')
        rx.extract_cell(results=res, report=Quiet())
    # what the layers are, independently
    regs = {}
    sub = kdb.Region()
    sub.enable_properties()
    sub.insert(ctx.top_cell_bbox().enlarged(c['halo'] / c['dbu']))
    regs['VSUBS'] = sub
    for nm, can, pair in c['stack']:
        r = ctx.shapes_of_layer(tuple(pair))
        if r is None:
            continue
        if can not in regs:
            regs[can] = kdb.Region()
            regs[can].enable_properties()
        regs[can] += r
    ref = CellExtractionResults('TOP')
    if c['mode'] in ('CC', 'RC'):
        a = dict(all_layer_names=list(regs), layer_regions_by_name=regs, dbu=c['dbu'], tech_info=ctx.tech, results=ref, report=Quiet())
        OverlapExtractor(**a).extract()
        SidewallAndFringeExtractor(scale_ratio_to_fit_halo=c['scale'], **a).extract()
    for t in ('overlap_table', 'sidewall_table', 'sideoverlap_table'):
        g, w = flat(getattr(res, t)), flat(getattr(ref, t))
        if g != w:
            k = sorted(set(g) ^ set(w)) or [x for x in g if g[x] != w[x]]
            return f'{c["mode"]}: {t} differs from the extraction of the stack\'s layers at {k[0]}: {g.get(k[0])} instead of {w.get(k[0])}'
    if c['mode'] in ('R', 'RC'):
        w = want_r
        g = nets(res.r_extraction_result)
        if g != w:
            return f'{c["mode"]}: resistances {g} instead of {w}'
    elif len(res.r_extraction_result.networks):
        return 'mode CC extracted resistances'
