"""FasterCap model generator: the triangles are exactly the interfaces of the solids"""
RULE = ('random stacks of sheets (several per net and material, overlapping in all ways, with the same or different start and end heights, nested '
        'dielectrics) on a grid, the shapes with right angles or slanted at any angle (cells halved along a diagonal); an independent model says who owns each '
        'cell (first net, then first material), and the triangles of every interface are compared with the faces between cells: same area, same place, '
        'normal towards the outside, no triangle larger than asked for (right angles only: KLayout may stop before); non-trivial: two sheets or more')
N = 2000
BUDGET_S = 60
import math
G = 1000


def sheet(rng, n, zs):
    cells = set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        x, y = rng.randrange(n), rng.randrange(n)
        cells |= {(i, j) for i in range(x, min(n, x + rng.randrange(1, n + 1))) for j in range(y, min(n, y + rng.randrange(1, n + 1)))}
    if rng.random() < .3:
        cells = {(i, j) for i in range(n) for j in range(n)}
    a, b = rng.randrange(len(zs) - 1), rng.randrange(1, len(zs))
    if a >= b:
        a, b = b - 1, a + 1
    return [sorted(cells), a, b]


def grid(rng, c):
    """some cases on a grid of cells of different size, halved along a diagonal, and shapes that have only one half of a cell"""
    if rng.random() < .5:
        return c
    n = c['n']
    pos = lambda: [0] + [sum(s[:i + 1]) for s in [[rng.choice([500, 1000, 1000, 1234, 3001]) for _ in range(n)]] for i in range(n)]
    c['xs'], c['ys'] = pos(), pos()
    if rng.random() < .3:
        c['ys'] = c['xs']
    # acute angles cannot be refined away: KLayout would go on until the memory is full
    c['b'] = 0.
    c['diag'] = [[rng.randrange(2) for _ in range(n)] for _ in range(n)]
    for _, sheets in c['nets'] + c['mats']:
        for s in sheets:
            s[0] = [x if rng.random() < .6 else list(x) + [rng.randrange(2)] for x in s[0]]
    return c


def cases(rng, n):
    for c in _cases(rng, n):
        yield grid(rng, c) if 'noise' in c else c


def _cases(rng, n):
    # a slanted shape
    yield dict(n=1, zs=[0, 500], nets=[['A', [[[[0, 0, 0]], 0, 1]]]], mats=[['m', [[[[0, 0]], 0, 1]]]], b=.5, amax=0., void=1., xs=[0, 1000], ys=[0, 1000], diag=[[0]])
    # a contact inside a diffusion that starts with it; three nested dielectrics; a net of many overlapping sheets
    full = [[i, j] for i in range(3) for j in range(3)]
    yield dict(n=3, zs=[0, 100, 900, 1000], nets=[['A', [[full, 0, 1], [[[1, 1]], 0, 2], [full, 2, 3]]]], mats=[], b=.5, amax=0., void=3.5)
    yield dict(n=3, zs=[0, 180, 300, 500], nets=[], mats=[['m1', [[[[1, 1]], 0, 1]]], ['m2', [[[[1, 1]], 1, 2]]], ['m3', [[full, 0, 3]]]], b=.5, amax=0., void=3.5)
    yield dict(n=2, zs=[0, 1, 2, 3, 4], nets=[['A', [[[[0, 0]], 0, 4], [[[0, 0], [0, 1]], 1, 3], [[[0, 0], [1, 0]], 1, 2], [[[0, 0]], 2, 4]]]], mats=[], b=.5, amax=0., void=1.)
    yield enclosed(rng, [[2, 2]], [])
    for _ in range(n):
        if rng.random() < .05:
            yield enclosed(rng, rng.choice([[], [[2, 2]]]), [[f'm{i}', [sheet(rng, 5, range(6))]] for i in range(rng.choice([0, 1, 2]))])
            continue
        k = rng.choice([1, 2, 2, 3, 4])
        zs = sorted(rng.sample(range(-500, 3000), rng.randrange(2, 6)))
        nets = []
        own = {}
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            sh = []
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                cells, a, b = sheet(rng, k, zs)
                near = lambda x, y: any(own.get((x + dx, y + dy, z), i) != i for dx in (-1, 0, 1) for dy in (-1, 0, 1) for z in range(a - 1, b + 1))
                cells = [c for c in cells if not near(*c)]
                for x, y in cells:
                    for z in range(a, b):
                        own[(x, y, z)] = i
                if cells:
                    sh.append([cells, a, b])
            if sh:
                nets.append([['A', 'VSUBS', 'x.y'][i], sh])
        mats = [[f'm{i}', [sheet(rng, k, zs) for _ in range(rng.choice([1, 1, 2, 3]))]] for i in range(rng.choice([0, 1, 2, 3, 4]))]
        rng.shuffle(mats)
        if not nets and not mats:
            continue
        yield dict(n=k, zs=zs, nets=nets, mats=mats, b=rng.choice([0., .5, 1.]), amax=rng.choice([0., 0., .3]), void=rng.choice([1., 3.5]),
                   noise=rng.choice([0., 1e-10, -1e-10]), extra=rng.random() < .3)


def enclosed(rng, inner, mats):
    """dielectrics that touch nothing but conductors: a net all around, perhaps another one inside"""
    full = [[i, j] for i in range(5) for j in range(5)]
    ring = [x for x in full if 0 in x or 4 in x]
    cav = [x for x in full if x not in ring]
    mats = [[m, [[[x for x in cells if x in cav], max(a, 1), min(b, 4)] for cells, a, b in sh if max(a, 1) < min(b, 4) and any(x in cav for x in cells)]] for m, sh in mats]
    mats = [x for x in mats if x[1]]
    return dict(n=5, zs=sorted(rng.sample(range(0, 3000), 6)), nets=[['A', [[full, 0, 1], [ring, 1, 4], [full, 4, 5]]]] + ([['VSUBS', [[inner, 2, 3]]]] if inner else []),
                mats=mats + [['m', [[cav, 1, 4]]]], b=0., amax=0., void=1., noise=0.)


def trivial(c): return sum(len(s) for _, s in c['nets'] + c['mats']) < 2


def axes(c): return c.get('xs') or [i * G for i in range(c['n'] + 1)], c.get('ys') or [i * G for i in range(c['n'] + 1)]


def halves(cell): return [tuple(cell)] if len(cell) == 3 else [tuple(cell) + (0,), tuple(cell) + (1,)]


def corners(c, cell):
    """of half a cell, counterclockwise"""
    x, y, t = cell
    xs, ys = axes(c)
    a, b, d, e = (xs[x], ys[y]), (xs[x + 1], ys[y]), (xs[x + 1], ys[y + 1]), (xs[x], ys[y + 1])
    if c.get('diag') and c['diag'][x][y]:
        return [(a, b, d), (a, d, e)][t]
    return [(a, b, e), (b, d, e)][t]


def build(c, dbu=.001):
    import klayout.db as kdb
    from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
    b = FasterCapModelBuilder(dbu=dbu, k_void=c['void'], delaunay_amax=c['amax'], delaunay_b=c['b'])
    k = {m: 2. + i for i, (m, _) in enumerate(c['mats'])}
    for m, v in k.items():
        b.add_material(m, v)
    if c.get('extra'):
        b.add_material('unused', 9.)

    def reg(cells):
        r = kdb.Region()
        xs, ys = axes(c)
        for q in cells:
            if len(q) == 2:
                r.insert(kdb.Box(xs[q[0]], ys[q[1]], xs[q[0] + 1], ys[q[1] + 1]))
            else:
                r.insert(kdb.Polygon([kdb.Point(*p) for p in corners(c, q)]))
        return r
    zs, e = c['zs'], c.get('noise', 0.)
    for add, things in ((b.add_dielectric, c['mats']), (b.add_conductor, c['nets'])):
        for name, sheets in things:
            for cells, z1, z2 in sheets:
                add(name, reg(cells), zs[z1] * dbu + e, (zs[z2] - zs[z1]) * dbu)
    return b.generate()


def owners(c):
    o = {}
    for kind, things in (('net', c['nets']), ('mat', c['mats'])):
        for name, sheets in things:
            for cells, a, b in sheets:
                for q in cells:
                    for h in halves(q):
                        for z in range(a, b):
                            o.setdefault(h + (z,), (kind, name))
    return o


def interface(a, b):
    """(key, is the second one its outside?) of two neighbours with different owners"""
    if a and a[0] == 'net':
        return ('C', a[1], b and b[1]), True
    if b and b[0] == 'net':
        return ('C', b[1], a and a[1]), False
    a, b = a and a[1], b and b[1]
    return (('D', a, b), False) if (a or '') < (b or '') else (('D', b, a), True)


def line(p, q):
    """the line through two points, with the unit normal on its left, as direction and offset: the key of a vertical plane"""
    dx, dy = q[0] - p[0], q[1] - p[1]
    g = math.gcd(dx, dy)
    dx, dy = dx // g, dy // g
    return dx, dy, dx * p[1] - dy * p[0]


def faces(c):
    """{(key, plane, ...): [(polygon in the plane, area)]}; planes: ('h', z, +1 / -1: outside above / below), ('v', line with the outside on its left)"""
    o, zs, n = owners(c), c['zs'], c['n']
    out = {}
    halfs = [(x, y, t) for x in range(n) for y in range(n) for t in (0, 1)]
    at = {}
    for h in halfs:
        p = corners(c, h)
        for i in range(3):
            at.setdefault(frozenset((p[i], p[(i + 1) % 3])), []).append((h, p[i], p[(i + 1) % 3]))
    for h in halfs:
        p = corners(c, h)
        ar = abs((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])) / 2
        for z in range(len(zs)):
            a, b = o.get(h + (z - 1,)), o.get(h + (z,))
            if a != b:
                key, up = interface(a, b)
                out.setdefault((key, 'h', zs[z], 1 if up else -1), []).append((p, ar))
    for v in at.values():
        (h, p, q), g = v[0], (v[1][0] if len(v) > 1 else None)
        for z in range(len(zs) - 1):
            a, b = o.get(h + (z,)), g and o.get(g + (z,))      # a is left of p-q
            if a == b:
                continue
            key, second = interface(a, b)
            l = line(q, p) if second else line(p, q)
            u = 0 if l[0] else 1
            box = [(p[u], zs[z]), (q[u], zs[z]), (q[u], zs[z + 1]), (p[u], zs[z + 1])]
            out.setdefault((key, 'v') + l, []).append((box, math.dist(p, q) * (zs[z + 1] - zs[z])))
    return out


def triangles(g, c, dbu=.001):
    lines = set()
    for x in range(c['n']):
        for y in range(c['n']):
            for t in (0, 1):
                p = corners(c, (x, y, t))
                for i in range(3):
                    lines |= {line(p[i], p[(i + 1) % 3]), line(p[(i + 1) % 3], p[i])}
    out = {}
    lst = [(('C', k.net_name, k.outside), v, 1) for k, v in g.cond_data.items()]
    for k, v in g.diel_data.items():
        lst.append((('D', k.outside, k.inside), v, 1) if (k.outside or '') < (k.inside or '') else (('D', k.inside, k.outside), v, -1))
    for key, tris, s in lst:
        for t in tris:
            p = [tuple(q / dbu for q in (a.x, a.y, a.z)) for a in (t.p0, t.p1, t.p2)]
            u, v = [[p[i][j] - p[0][j] for j in range(3)] for i in (1, 2)]
            nr = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
            l = math.sqrt(sum(q * q for q in nr))
            r = t.outside_reference_point()
            side = [a - b for a, b in zip((r.x, r.y, r.z), (t.p0.x, t.p0.y, t.p0.z))]
            if sum(a * b for a, b in zip(side, nr)) <= 0:
                raise Exception('reference point inside')
            nr = [q / l * s for q in nr]
            if abs(nr[2]) > .9:
                if any(abs(q[2] - p[0][2]) > 1e-6 for q in p):
                    raise Exception(f'slanted triangle {p}')
                k, m = (key, 'h', round(p[0][2]), 1 if nr[2] > 0 else -1), [(round(q[0]), round(q[1])) for q in p]
            else:
                if abs(nr[2]) > 1e-6:
                    raise Exception(f'slanted triangle {p}')
                # the line of the grid it is on, its normal on the left
                best = None
                for d in lines:
                    e = math.hypot(d[0], d[1])
                    turn = abs(-d[1] / e - nr[0]) + abs(d[0] / e - nr[1])
                    off = max(abs(d[0] * q[1] - d[1] * q[0] - d[2]) / e for q in p)
                    if off < (1e-6 if 0 in d[:2] else .1) and turn < 1e-3 and (best is None or turn + off < best[0]):
                        best = turn + off, d
                if best is None:
                    raise Exception(f'the triangle {p} is where no edge is')
                d = best[1]
                k, m = (key, 'v') + d, [(round(q[0 if d[0] else 1]), round(q[2])) for q in p]
            # KLayout does not split further where triangles get too narrow (slanted shapes)
            if c['amax'] and 'xs' not in c and l / 2 * dbu * dbu > c['amax'] * 1.01:
                raise Exception(f'the triangle {p} is larger than {c["amax"]}')
            out.setdefault(k, []).append((m, l / 2))
    return out


class Skip(Exception): pass


def check(c): return apart(c, compare)


def apart(c, compare):
    if 'xs' not in c:
        return compare(c)
    # KLayout's triangulation does not come to an end for some slanted shapes: a process of its own, ten seconds
    import os, pickle, select, signal, traceback
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        signal.alarm(0)
        try:
            out = ('ok', compare(c))
        except Skip as e:
            out = ('skip', str(e))
        except BaseException:
            out = ('raised', traceback.format_exc()[-600:])
        try:
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    try:
        data = os.read(r, 1 << 20) if select.select([r], [], [], 10)[0] else b''
    finally:
        os.close(r)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if not data:
        raise Skip('no end')
    how, x = pickle.loads(data)
    if how == 'skip':
        raise Skip(x)
    if how == 'raised':
        raise Exception(x)
    return x


def model(c):
    try:
        return build(c)
    except RuntimeError as e:
        # KLayout's own triangulation fails for some slanted shapes
        if 'xs' in c and ('Internal error' in str(e) or 'bad_alloc' in str(e)) and 'delaunay' in str(e):
            raise Skip(str(e)) from None
        raise


def compare(c):
    import klayout.db as kdb
    g = model(c)
    want, got = faces(c), triangles(g, c)
    exact = c['b'] == 0. and c['amax'] == 0. and 'xs' not in c
    for k in sorted(set(want) | set(got), key=str):
        w, h, wa = kdb.Region(), kdb.Region(), 0
        for b, ar in want.get(k, []):
            w.insert(kdb.Polygon([kdb.Point(*q) for q in b]))
            wa += ar
        a = 0
        for p, ar in got.get(k, []):
            h.insert(kdb.Polygon([kdb.Point(*q) for q in p]))
            a += ar
        x = (w ^ h).merged()
        if not exact:
            x = x.sized(-2)
        if not x.is_empty() or (got.get(k) is None and wa > 0) or abs(a - wa) > (1e-6 if exact else 1e-2) * wa + 1:
            return f'interface {k}: area {a} of triangles, {wa} of the solids, differs at {x.bbox()}'
    return None
