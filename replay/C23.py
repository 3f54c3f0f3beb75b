"""STL files: each solid of the model is one closed surface that encloses exactly its volume"""
from . import C22
from .C22 import build, owners, corners, halves, axes, interface
import math, os, re, tempfile
RULE = ('random stacks of sheets as for C22 (right angles and slanted), nets with odd names (slashes, very long, unusual characters); the STL files are parsed: there is one per net or '
        'material that owns a cell, and the integrals over its facets give the volume, the centre, and the surface of the cells it owns, outwards; non-trivial: two sheets or more')
N = 1200
BUDGET_S = 40
Skip = C22.Skip
ODD = ['A', 'VSUBS', 'x.y', 'a/b', 'a_b', '/', 'top/x1/net', 'ü/ß', 'n' * 245, 'n' * 246, 'n' * 247, 'n' * 300, 'n' * 300 + 'm', 'é' * 130, 'a/' * 150, 'x[3]', 'b,c', '..', 'a b', '$5', 'n' * 300 + '/', '']


def cases(rng, n):
    yield dict(n=1, zs=[0, 500], nets=[['a/b', [[[[0, 0]], 0, 1]]]], mats=[], b=0., amax=0., void=1., noise=0.)
    yield dict(n=2, zs=[0, 500], nets=[['n' * 255, [[[[0, 0]], 0, 1]]], ['n' * 255 + 'm', [[[[1, 1]], 0, 1]]]], mats=[['m', [[[[0, 1]], 0, 1]]]], b=0., amax=0., void=1., noise=0.)
    for c in C22.cases(rng, n):
        if 'noise' not in c:
            continue
        c['amax'], c['b'] = 0., 0.
        if rng.random() < .6:
            for x, y in zip(c['nets'], rng.sample(ODD, len(c['nets']))):
                x[0] = y
        yield c


def trivial(c): return sum(len(s) for _, s in c['nets'] + c['mats']) < 2


def parse(path):
    t = open(path, encoding='utf-8').read().split()
    if t[:1] != ['solid'] or 'endsolid' not in t:
        raise Exception('no STL file')
    i, e, out = t.index('facet'), len(t) - 1 - t[::-1].index('endsolid'), []
    while i < e:
        if t[i:i + 2] != ['facet', 'normal'] or t[i + 5:i + 8] != ['outer', 'loop', 'vertex'] or t[i + 11] != 'vertex' or t[i + 15] != 'vertex' or t[i + 19:i + 21] != ['endloop', 'endfacet']:
            raise Exception(f'facet {t[i:i + 21]}')
        out.append([tuple(float(x) for x in t[j:j + 3]) for j in (i + 8, i + 12, i + 16)])
        i += 21
    return out


def integrals(tris):
    """volume, centre times volume, surface, sum of the normals"""
    v, m, a, s = 0., [0.] * 3, 0., [0.] * 3
    for p, q, r in tris:
        u, w = [q[i] - p[i] for i in range(3)], [r[i] - p[i] for i in range(3)]
        n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
        d = sum(p[i] * n[i] for i in range(3)) / 6
        v += d
        a += math.sqrt(sum(x * x for x in n)) / 2
        for i in range(3):
            m[i] += d * (p[i] + q[i] + r[i]) / 4
            s[i] += n[i]
    return v, m, a, s


def solid(c, cells, dbu=.001):
    """the same of cells (halves of grid cells times a range of heights)"""
    v, m, a = 0., [0.] * 3, 0.
    zs = c['zs']
    every = set(cells)
    edges = {}
    for x, y, t, z in cells:
        p = [(u * dbu, w * dbu) for u, w in corners(c, (x, y, t))]
        ar = abs((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])) / 2
        h, mid = (zs[z + 1] - zs[z]) * dbu, (zs[z + 1] + zs[z]) / 2 * dbu
        v += ar * h
        for i in range(2):
            m[i] += ar * h * sum(q[i] for q in p) / 3
        m[2] += ar * h * mid
        for dz in (-1, 1):
            if (x, y, t, z + dz) not in every:
                a += ar
        for i in range(3):
            e = (z, frozenset((p[i], p[(i + 1) % 3])))
            edges[e] = edges.get(e, 0) + 1
    for (z, e), n in edges.items():
        if n == 1:
            a += math.dist(*e) * (zs[z + 1] - zs[z]) * dbu
    return v, m, a


def check(c): return C22.apart(c, compare)


def compare(c):
    g = C22.model(c)
    own = owners(c)
    cells = {}
    for k, o in own.items():
        cells.setdefault(o, []).append(k)
    got = {}
    with tempfile.TemporaryDirectory() as d:
        g.dump_stl(output_dir_path=d, prefix=c.get('prefix', ''))
        for f in sorted(os.listdir(d)):
            got[f] = integrals(parse(os.path.join(d, f)))
    if len(got) != len(cells):
        return f'{len(got)} files for {len(cells)} solids'
    tol = 1e-9 if 'xs' not in c else 1e-3
    left = dict(got)
    for o, cs in sorted(cells.items()):
        v, m, a = solid(c, cs)
        f = ('cond_' if o[0] == 'net' else 'diel_') + o[1] + '.stl'
        cand = [f] if f in left else [x for x in left if x.startswith('cond_')] if o[0] == 'net' and ('/' in f or len(f.encode()) > 255) else []
        size = a + 1e-6
        near = lambda x: abs(left[x][0] - v) <= tol * size and all(abs(p - q) <= tol * size * 20 for p, q in zip(left[x][1], m)) and abs(left[x][2] - a) <= tol * size * 10 + 1e-12 and \
            all(abs(p) <= tol * size * 10 for p in left[x][3])
        hit = [x for x in cand if near(x)]
        if not hit:
            return f'{o}: {cand}: volume, centre, surface, closed: {[left[x] for x in cand][:2]}, of the cells: {(v, m, a)}'
        del left[hit[0]]
    return None
