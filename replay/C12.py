"""sidewall capacitance"""
RULE = ('the real edge visitor on random intervals and neighborhoods (several polygons per layer, missing specifications) against the '
        'formula; and whole random layouts of rectangles through the real KLayout operation against a grid computation; '
        'nearest polygons and edges; non-trivial: at least one sidewall capacitance')
N = 400
from replay.edges import *


def cases(rng, n):
    yield dict(kind='near', boxes=[[0, 0, 1, 1, 'A'], [-3, -2, 5, 7, 'B']])
    for i in range(n):
        if i % 8 == 7:
            ps = []
            for _ in range(rng.randrange(1, 5)):
                x, y = rng.randrange(-50, 50), rng.choice([rng.randrange(-5, 6), rng.randrange(0, 2000)])
                ps.append([x, y, x + rng.choice([1, 2, 50]), y + rng.choice([1, 2, 500]), rng.choice('ABC')])
            yield dict(kind='near', boxes=ps)
            continue
        yield layout_case(rng) if i % 4 == 3 else visitor_case(rng)


def trivial(c): return c['kind'] == 'near' and len(c['boxes']) < 2 or c['kind'] != 'near' and not (oracle_visitor(c) if c['kind'] == 'visitor' else oracle_layout(c))[0]


def near(c):
    import klayout.db as kdb
    from klayout_pex.rcx25.c.polygon_utils import nearest_edge, nearest_edge_distance, find_polygon_with_nearest_edge
    ps = [kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(*b[:4])), {'net': b[4]}) for b in c['boxes']]
    want = [max(b[1], 0) for b in c['boxes']]
    for b, p, w in zip(c['boxes'], ps, want):
        if nearest_edge_distance(p) != w:
            return f'{b}: distance {nearest_edge_distance(p)}'
        e = nearest_edge(p)
        if (e.x1, e.y1, e.x2, e.y2) != (b[2], b[1], b[0], b[1]) or e.property('net') != b[4]:
            return f'{b}: nearest edge {e}'
    d, p = find_polygon_with_nearest_edge(ps)
    if d != min(want) or not any(w == d and p == q for w, q in zip(want, ps)):
        return f'nearest polygon {p} at {d}'


def check(c):
    if c['kind'] == 'near':
        return near(c)
    if c['kind'] == 'visitor':
        return compare('sidewall', run_visitor(c)[0], oracle_visitor(c)[0], 1e-9)
    return compare('sidewall', run_layout(c)[0], oracle_layout(c)[0], 1e-6)
