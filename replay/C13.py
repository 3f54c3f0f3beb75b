"""fringe capacitance"""
RULE = ('the real edge visitor on random intervals and neighborhoods (several polygons per layer, missing specifications) against the '
        'formula; and whole random layouts of rectangles through the real KLayout operation against a grid computation; '
        'non-trivial: at least one fringe capacitance')
N = 400
from replay.edges import *


def cases(rng, n):
    for i in range(n):
        yield layout_case(rng) if i % 4 == 3 else visitor_case(rng)


def trivial(c): return not (oracle_visitor(c) if c['kind'] == 'visitor' else oracle_layout(c))[1]


def check(c):
    if c['kind'] == 'visitor':
        return compare("fringe", run_visitor(c)[1], oracle_visitor(c)[1], 1e-9)
    return compare("fringe", run_layout(c)[1], oracle_layout(c)[1], 1e-6)
