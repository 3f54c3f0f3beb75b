"""summary of extraction results"""
RULE = ('0..3 cells with random overlap/sidewall/side-overlap capacitors (both directions, repeated keys, same net twice) and '
        'resistor networks with dyadic values; summary compared with the sum per unordered couple of nets; non-trivial: some '
        'couple gets more than one entry')
N = 600
from replay.results import *


def cases(rng, n):
    for i in range(n):
        yield dict(cells=rand_results(rng))


def trivial(c):
    n = sum(len(d['caps']) for d in c['cells'].values())
    return n <= len(totals(c['cells'])[0])


def check(c):
    from klayout_pex.rcx25.extraction_results import ExtractionSummary, NetCoupleKey
    r = build_results(c['cells'])
    want = totals(c['cells'])
    s = r.summarize()
    for what, got, w in (('capacitances', s.capacitances, want[0]), ('resistances', s.resistances, want[1])):
        d = {(k.net1, k.net2): v for k, v in got.items()}
        bad = [k for k in d if k != tuple(sorted(k))]
        if bad:
            return f'{what}: key {bad[0]} is not in order'
        if d != w:
            k = [k for k in sorted(set(d) | set(w)) if d.get(k) != w.get(k)][0]
            return f'{what} of {k}: {d.get(k)}, entries add up to {w.get(k)}'
    for cr in r.cell_extraction_results.values():      # summarizing does not consume the results
        cr.summarize()
    if [(k, v) for k, v in r.summarize().capacitances.items()] != [(k, v) for k, v in s.capacitances.items()]:
        return 'a second summary differs'
    # merging keys in any order
    parts = [ExtractionSummary(capacitances={NetCoupleKey(b, a): v for (a, b), v in want[0].items()}, resistances={}),
             ExtractionSummary(capacitances={}, resistances={NetCoupleKey(b, a): v for (a, b), v in want[1].items()})]
    m = ExtractionSummary.merged(parts + parts)
    for got, w in ((m.capacitances, want[0]), (m.resistances, want[1])):
        if {(k.net1, k.net2): v for k, v in got.items()} != {k: 2 * v for k, v in w.items()}:
            return 'merging reversed keys gives something else'
    for a, b in list(want[0]) + list(want[1]):
        if NetCoupleKey(a, b).normed() != NetCoupleKey(b, a).normed() or hash(NetCoupleKey(a, b).normed()) != hash(NetCoupleKey(b, a).normed()):
            return 'normed keys differ by direction'
