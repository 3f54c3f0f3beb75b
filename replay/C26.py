"""shapes and messages"""
RULE = 'random points, boxes, polygons with and without holes and regions with several nets, converted and converted back, compared with the originals; non-trivial: something to convert'
N = 300
BUDGET_S = 40
import klayout.db as kdb
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as shapes_pb2

NETS = ['', '', 'A', 'VDD', 'A,B', '$12', 'n 2', 'Ω', 'x\\y', '0', ' ', ' B ', '\t', 'n 2\u00a0', 'a', 'None', '#1']


def ring(rng, big):
    m = 10 ** 9 if big else 5000
    x, y = rng.randrange(-m, m), rng.randrange(-m, m)
    w, h = rng.randrange(100, 900), rng.randrange(100, 900)
    hull = [[x, y], [x, y + h], [x + w, y + h], [x + w, y]]
    k = rng.randrange(5)
    if k == 1:
        hull = [[x, y], [x, y + h], [x + w // 2, y + h], [x + w // 2, y + h // 2], [x + w, y + h // 2], [x + w, y]]
    if k == 2:
        hull = [[x, y], [x + w // 3, y + h], [x + w, y + h // 4]]
    if k == 3:
        n = rng.randrange(1, 20)
        hull = [[x, y]] + [p for i in range(n) for p in ([x + 20 * i, y + 50 + i % 2 * 30], [x + 20 * i + 20, y + 50 + i % 2 * 30])] + [[x + 20 * n, y]]
    holes = []
    if k in (0, 4):
        for i in range(rng.randrange(0, 4)):
            a = x + 10 + 20 * i
            holes.append([[a, y + 20], [a, y + 60], [a + 10, y + 60], [a + 10, y + 20]])
    return [hull, holes, rng.choice(NETS)]


def cases(rng, n):
    for i in range(n):
        polys = [ring(rng, i % 9 == 0) for _ in range(rng.choice([0, 1, 1, 2, 3, 7]))]
        if polys and i % 3 == 0:      # polygons that touch or overlap, the same one twice
            for _ in range(rng.randrange(1, 4)):
                h, hs, net = rng.choice(polys)
                d = rng.choice([0, 0, 10, 50, 150])
                polys.append([[[x + d, y] for x, y in h], [[[x + d, y] for x, y in q] for q in hs], rng.choice([net, net, rng.choice(NETS)])])
        yield dict(merged=rng.random() < .6, polys=polys, box=[rng.randrange(-900, 900) for _ in range(4)], net=rng.choice(NETS), dbu=rng.choice([.001, .005]))


def trivial(case): return not case['polys']


def poly(p):
    q = kdb.Polygon([kdb.Point(*x) for x in p[0]])
    for h in p[1]:
        q.insert_hole([kdb.Point(*x) for x in h])
    return q


def norm(nets): return {k: v.merged() for k, v in nets.items()}


def check(case):
    sc = ShapesConverter(dbu=case['dbu'])
    for p in case['polys'] or [[[[1, 2]], [], '']]:
        for pt in p[0]:
            m = shapes_pb2.Point()
            sc.klayout_point_to_pb(kdb.Point(*pt), m)
            if [m.x, m.y] != pt or sc.klayout_point(m) != kdb.Point(*pt):
                return f'point {pt} becomes {m.x},{m.y} and {sc.klayout_point(m)}'
    a = case['box']
    b = kdb.Box(*a)
    m = shapes_pb2.Box()
    m.lower_left.x, m.lower_left.y, m.upper_right.x, m.upper_right.y = b.left, b.bottom, b.right, b.top
    m.net = case['net']
    k = sc.klayout_box(m)
    if kdb.Box(k.left, k.bottom, k.right, k.top) != b or (k.property('net') if isinstance(k, kdb.BoxWithProperties) else None) != (case['net'] or None):
        return f'box {b} of net {case["net"]!r} becomes {k}'
    rg = kdb.Region()
    want, order = {}, []
    for p in case['polys']:
        q = poly(p)
        want.setdefault(p[2], kdb.Region()).insert(q)
        rg.insert(kdb.PolygonWithProperties(q, {'net': p[2]}) if p[2] else q)
        m = shapes_pb2.Polygon()
        sc.klayout_polygon_to_pb(kdb.PolygonWithProperties(q, {'net': p[2]} if p[2] else {}), m)
        if m.net != p[2]:
            return f'polygon of net {p[2]!r} converted to one of net {m.net!r}'
        back = sc.klayout_polygon(m)
        net = back.property('net') if isinstance(back, kdb.PolygonWithProperties) else None
        if net != (p[2] or None):
            return f'polygon of net {p[2]!r} comes back with net {net!r}'
        plain = kdb.Polygon(back)
        if not (kdb.Region(plain) ^ kdb.Region(q)).is_empty() or plain.area() != q.area():
            return f'polygon {q} comes back as {back}'
        if not p[1] and len(m.hull_points) != q.num_points_hull():
            return f'polygon {q} has {len(m.hull_points)} points in the message'
    rg.merged_semantics = bool(case.get('merged'))
    count = lambda r: len(list(r.each()))
    m = shapes_pb2.Region()
    sc.klayout_region_to_pb(rg, m)
    if len(m.polygons) != count(rg):
        return f'{count(rg)} polygons, {len(m.polygons)} in the message'
    got = {}
    back = sc.klayout_region(m)
    back.merged_semantics = False
    if count(back) != count(rg):
        return f'{count(rg)} polygons, {count(back)} after the round trip'
    for p in back.each():
        got.setdefault(p.property('net') or '', kdb.Region()).insert(kdb.Polygon(p))
    want, got = norm(want), norm(got)
    if set(want) != set(got):
        return f'nets {sorted(want)} become {sorted(got)}'
    for k in want:
        if not (want[k] ^ got[k]).is_empty():
            return f'net {k!r}: {want[k]} becomes {got[k]}'
