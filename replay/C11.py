"""overlap capacitance"""
RULE = ('random technologies (missing layer pairs included) and random multi-layer layouts, extracted by the real OverlapExtractor '
        'through KLayout, compared with a grid computation of the visible common areas; and the visitor called directly on random '
        'neighborhoods; non-trivial: at least one overlap of different nets')
N = 260
from replay.layouts import *


def cases(rng, n):
    for i in range(n):
        lay = rand_layout(rng, n=rng.choice([4, 8, 12]))
        yield dict(lay=lay, tech=rand_tech(rng, lay['layers'], rng.choice([1.0, .9, .6])), unit=rng.choice([1, 5, 100, 1000]), dbu=rng.choice([0.001, 0.001, 0.005, 0.0005]),
                   merged=rng.random() < .8)


def oracle(c):
    lay, ov = c['lay'], ov_table(c['tech'])
    L = lay['layers']
    n = lay['n']
    G = [grid(lay, l) for l in L]
    out = {}
    cell = (c['unit'] * c['dbu']) ** 2
    for b in range(len(L)):
        for t in range(b + 1, len(L)):
            if (L[t], L[b]) not in ov:
                continue
            for x in range(n):
                for y in range(n):
                    nb, nt = G[b][x][y], G[t][x][y]
                    if nb is None or nt is None or nb == nt or any(G[m][x][y] is not None for m in range(b + 1, t)):
                        continue
                    k = (L[t], nt, L[b], nb)
                    out[k] = out.get(k, 0) + cell * ov[(L[t], L[b])] / 1000.0
    return {k: v for k, v in out.items() if v > 0}


def trivial(c): return not oracle(c)


def check(c):
    from klayout_pex.rcx25.c.overlap_extractor import OverlapExtractor
    from klayout_pex.rcx25.extraction_results import CellExtractionResults
    regs = regions(c['lay'], c['unit'], c['merged'])
    res = CellExtractionResults('TOP')
    OverlapExtractor(all_layer_names=list(regs), layer_regions_by_name=regs, dbu=c['dbu'], tech_info=make_tech(c['tech']), results=res, report=Quiet()).extract()
    got = {}
    for k, caps in res.overlap_table.items():
        for x in caps:
            if x.key != k or not x.cap_value > 0:
                return f'entry {x} recorded under {k}'
            t = (k.layer_top, k.net_top, k.layer_bot, k.net_bot)
            got[t] = got.get(t, 0) + x.cap_value
    want = oracle(c)
    if set(got) != set(want):
        return f'overlaps of {sorted(got)}, expected {sorted(want)}'
    for k in want:
        if abs(got[k] - want[k]) > 1e-9 * max(abs(want[k]), 1e-12):
            return f'overlap {k}: {got[k]} fF, the visible common area gives {want[k]}'
