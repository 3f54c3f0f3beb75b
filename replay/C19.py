"""resistor networks"""
RULE = ('random networks (parallel resistors, several components, conductances over many decades) under random sequences of operations, compared with a matrix of conductances '
        '(eliminations: Schur complement); self check after every operation, and on networks broken on purpose; random triangles; text output; non-trivial: at least one elimination '
        'or contraction of a connected node')
N = 200
BUDGET_S = 40
import contextlib, io, itertools, re
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork, ResistorNetworks
from klayout_pex.rcx25.r import resistor_network as rnet
from klayout_pex.rcx25.r.conductance import Conductance


def cases(rng, n):
    for i in range(n):
        k = rng.choice([2, 3, 4, 6, 9, 14])
        spread = rng.choice([0, 0, 3, 6])
        cond = lambda: rng.uniform(.1, 10) * 10 ** rng.uniform(-spread, spread)
        pts = rng.sample([(x, y) for x in range(-3, 8) for y in range(-3, 8)], k)
        res = []
        for _ in range(rng.choice([0, k, 2 * k, 3 * k])):
            a, b = rng.sample(range(k), 2)
            res.append((a, b, cond()))
        ops = []
        for _ in range(rng.choice([0, 1, 3, 8])):
            o = rng.choice(['eliminate', 'eliminate', 'remove', 'connect', 'add', 'node'])
            ops.append((o, rng.randrange(k), rng.randrange(k), cond(), (rng.randrange(-3, 8), rng.randrange(-3, 8))))
        tris = []
        for _ in range(3):
            s = rng.choice([10, 1000, 100000])
            tris.append([(rng.randrange(-s, s), rng.randrange(-s, s)) for _ in range(3)])
        pairs = [[rng.choice([0., cond(), cond(), 1e-12, 1e-9]) for _ in range(2)] for _ in range(3)]
        yield dict(pairs=pairs, pts=pts, res=res, ops=ops, precious=rng.sample(range(k), rng.randrange(0, min(k, 5) + 1)), all=rng.random() < .7, tris=tris,
                   break_=rng.choice([None, None, 's', 'star', 'loc', 'node', 'half']), edge=[(rng.randrange(-3, 8), rng.randrange(-3, 8)) for _ in range(2)],
                   names={i: f'N{i}' for i in range(k) if rng.random() < .3})


def trivial(case): return not (case['res'] and (case['all'] or any(o[0] in ('eliminate', 'connect') for o in case['ops'])))


class Ref:
    """conductances between node ids"""
    def __init__(self): self.g, self.nodes, self.conn = {}, {}, set()

    def add(self, a, b, c):
        for k in ((a, b), (b, a)):
            self.g[k] = self.g.get(k, 0.0) + c
        self.conn |= {a, b}

    def star(self, n): return {b: c for (a, b), c in self.g.items() if a == n}

    def drop(self, n):
        self.g = {k: c for k, c in self.g.items() if n not in k}
        self.conn.discard(n)
        self.nodes = {p: i for p, i in self.nodes.items() if i != n}

    def eliminate(self, n):
        if n not in self.conn:
            return
        st = self.star(n)
        s = sum(st.values())
        self.drop(n)
        if abs(s) > 1e-10:
            for a, b in itertools.combinations(st, 2):
                self.add(a, b, st[a] * st[b] / s)

    def connect(self, a, b):
        if b not in self.conn:
            return
        st = self.star(b)
        self.drop(b)
        for o, c in st.items():
            if o != a:
                self.add(a, o, c)


def near(a, b): return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-15


def compare(nw, ref, what):
    e = nw.check()
    if e:
        return f'{what}: the self check finds {e} errors'
    if {(p.x, p.y): i for p, i in nw.nodes.items()} != ref.nodes:
        return f'{what}: nodes {nw.nodes}, expected {ref.nodes}'
    if {i: (p.x, p.y) for i, p in nw.locations.items()} != {i: p for p, i in ref.nodes.items()}:
        return f'{what}: locations {nw.locations}'
    g = {k: c.cond for k, c in nw.s.items()}
    if set(g) != set(ref.g):
        return f'{what}: resistors between {sorted(set(g) ^ set(ref.g))[:6]} in one only'
    for k in g:
        if not near(g[k], ref.g[k]):
            return f'{what}: conductance {k} {g[k]}, expected {ref.g[k]}'


def reduced(g, keep, out):
    """Schur complement by elimination in another order, on an independent matrix"""
    m = {}
    nodes = sorted({a for a, b in g})
    for a in nodes:
        for b in nodes:
            m[a, b] = -g.get((a, b), 0.0)
        m[a, a] = sum(c for (x, y), c in g.items() if x == a)
    for n in out:
        if abs(m[n, n]) < 1e-9:
            return None
        for a in nodes:
            for b in nodes:
                if a != n and b != n:
                    m[a, b] -= m[a, n] * m[n, b] / m[n, n]
        nodes = [x for x in nodes if x != n]
    return {(a, b): -m[a, b] for a in nodes for b in nodes if a != b}


def check(case):
    nw, ref = ResistorNetwork(), Ref()
    ids = []
    for p in case['pts']:
        ids.append(nw.node_id(kdb.Point(*p)))
        ref.nodes[p] = ids[-1]
    if len(set(ids)) != len(ids):
        return f'ids {ids} of different locations'
    for a, b, c in case['res']:
        nw.add_cond(ids[a], ids[b], Conductance(c))
        ref.add(ids[a], ids[b], c)
    r = compare(nw, ref, 'built')
    if r:
        return r
    pre = {ids[i] for i in case['precious']}
    for i in pre:
        nw.mark_precious(i)
    for i, name in case['names'].items():
        nw.name(ids[i], name)
    with contextlib.redirect_stdout(io.StringIO()):
        for resistance in (False, True):
            lines = nw.to_string(resistance).split('\n')
            got = sorted(l.strip() for l in lines if re.match(r'  \S+,\S+: ', l))
            nn = lambda i: case['names'].get(ids.index(i), str(i))
            want = sorted(f'{nn(a)},{nn(b)}: {1 / c if resistance else c:.6g}' for (a, b), c in ref.g.items() if a < b)
            val = lambda t: (t.split(': ')[0], float(t.split(': ')[1]))
            if [val(t)[0] for t in got] != [val(t)[0] for t in want] or any(abs(val(p)[1] - val(q)[1]) > 2e-5 * abs(val(q)[1]) for p, q in zip(got, want)):
                return f'text shows {got}, expected {want}'
        nets = ResistorNetworks('m1', 1.0, [nw, ResistorNetwork()])
        area = kdb.Polygon(kdb.Box(*case['edge'][0], *case['edge'][1]))
        if area.num_points() == 4:
            got = sorted(i for w, i in nets.find_network_nodes(area) if w is nw)
            want = sorted(i for p, i in ref.nodes.items() if area.inside(kdb.Point(*p)))
            if got != want:
                return f'nodes in {area}: {got}, expected {want}'
    e = kdb.Edge(kdb.Point(*case['edge'][0]), kdb.Point(*case['edge'][1]))
    got, want = sorted(nw.node_ids(e)), sorted(i for p, i in ref.nodes.items() if e.contains(kdb.Point(*p)))
    if got != want:
        return f'nodes on {e}: {got}, expected {want}'
    for o, a, b, c, p in case['ops']:
        a, b = ids[a], ids[b]
        live = set(ref.nodes.values())
        if o == 'eliminate':
            nw.eliminate_node(a)
            ref.eliminate(a)
        elif o == 'remove':
            nw.remove_node(a)
            if a in ref.conn:
                ref.drop(a)
        elif o == 'connect' and a != b and a in live and b in live:
            nw.connect_nodes(a, b)
            ref.connect(a, b)
        elif o == 'add' and a != b and a in live and b in live:
            nw.add_cond(a, b, Conductance(c))
            ref.add(a, b, c)
        elif o == 'node':
            i = nw.node_id(kdb.Point(*p))
            if p in ref.nodes and ref.nodes[p] != i:
                return f'node {i} at {p}, where node {ref.nodes[p]} is'
            if p not in ref.nodes and i in ref.nodes.values():
                return f'id {i} of another node for the new location {p}'
            ref.nodes[p] = i
            if nw.location(i) != kdb.Point(*p):
                return f'location {nw.location(i)}'
        # a node whose resistors are all gone is still known: connected in the sense of having a star list
        ref.conn = {n for n in nw.node_to_s} if {n for n in nw.node_to_s} >= {k[0] for k in ref.g} else ref.conn
        r = compare(nw, ref, f'{o} {a} {b}')
        if r:
            return r
    if case['all']:
        pre &= set(ref.nodes.values())
        g = {k: c.cond for k, c in nw.s.items()}
        nw.eliminate_all()
        left = set(nw.node_to_s)
        if left - pre:
            return f'nodes {left - pre} are left, which are not precious'
        if pre & {a for a, b in g} - left:
            return f'precious nodes {pre & {a for a, b in g} - left} are gone'
        if nw.check():
            return 'inconsistent after eliminate_all'
        want = reduced(g, pre, sorted({a for a, b in g} - pre, reverse=True))
        if want is not None:
            got = {k: c.cond for k, c in nw.s.items()}
            top = max([c for c in g.values()], default=1.0)
            for k in set(want) | set(got):
                if abs(want.get(k, 0) - got.get(k, 0)) > 1e-5 * max(abs(want.get(k, 0)), abs(got.get(k, 0))) + 1e-9 * top:
                    return f'conductance {k} between precious nodes {got.get(k)}, expected {want.get(k)}'
    for a, b in case['pairs']:
        x, y = Conductance(a), Conductance(b)
        got = x.parallel(y).cond, x.serial(y).cond, x.copy().cond, x.cond, y.cond
        want = a + b, a * b / (a + b) if a + b else 0., a, a, b
        if any(abs(p - q) > 1e-9 * q + 2e-10 for p, q in zip(got, want)):
            return f'conductances {a}, {b}: parallel, serial, copy, operands {got}, expected {want}'
        if x.add_serial(y) is not x or abs(x.cond - want[1]) > 1e-9 * want[1] + 2e-10 or y.add_parallel(Conductance()) is not y or y.cond != b:
            return f'conductances {a}, {b} in place: {x.cond}, {y.cond}'
    for p in case['pts'] + [case['edge'][0]]:
        if nw.has_node(kdb.Point(*p)) != (kdb.Point(*p) in nw.nodes):
            return f'has_node {p}'
    # a broken network is found
    if case['break_'] and nw.s:
        k = sorted(nw.s)[0]
        b = case['break_']
        if b == 's':
            del nw.s[k]
        elif b == 'star':
            nw.node_to_s[k[0]] = [t for t in nw.node_to_s[k[0]] if t[1] != k[1]]
        elif b == 'loc':
            del nw.locations[k[0]]
        elif b == 'node':
            del nw.nodes[nw.locations[k[1]]]
        elif b == 'half':
            del nw.s[k], nw.s[k[1], k[0]]
        save = rnet.error
        rnet.error = lambda *a, **k: None       # the messages about networks broken on purpose
        try:
            found = nw.check()
        finally:
            rnet.error = save
        if not found:
            return f'the self check misses a network broken at {k} ({b})'
    for t in case['tris']:
        p = kdb.Polygon([kdb.Point(*c) for c in t])
        if p.num_points() != 3 or p.area() == 0:
            continue
        pts = [q for q in p.each_point_hull()]
        sq = lambda a, b: (a - b).sq_length()
        ob = [i for i in range(3) if sq(pts[(i + 1) % 3], pts[(i + 2) % 3]) + sq(pts[(i + 2) % 3], pts[i]) < sq(pts[i], pts[(i + 1) % 3]) * (1 - 1e-10)]
        out = ResistorNetwork.expand_skinny_tris(p)
        if not ob:
            if out != [p]:
                return f'triangle {p} (not obtuse) became {out}'
            continue
        i = ob[0]
        a, b, c = pts[i], pts[(i + 1) % 3], pts[(i + 2) % 3]
        if len(out) != 2:
            return f'triangle {p} became {out}'
        new = {q for o in out for q in o.each_point_hull()} - set(pts)
        t = kdb.DVector(b - a).sprod(kdb.DVector(c - a)) / kdb.DVector(b - a).sq_length()
        far = min(t, 1 - t) * kdb.DVector(b - a).length() > 2 and abs(p.area()) * 2 > 2 * kdb.DVector(b - a).length()
        if len(new) > 1 or (far and not new):
            return f'triangle {p} became {out}'
        for q in new:
            d = abs(kdb.DEdge(kdb.DPoint(a), kdb.DPoint(b)).distance(kdb.DPoint(q)))
            h = abs((kdb.DPoint(q) - kdb.DPoint(c)).sprod(kdb.DPoint(b) - kdb.DPoint(a))) / kdb.DPoint(a).distance(kdb.DPoint(b))
            if d > 1.5 or h > 1.5:
                return f'triangle {p}: {q} is {d:.1f} off the longest side, {h:.1f} off the height'
        if abs(sum(abs(o.area()) for o in out) - abs(p.area())) > 1.5 * (kdb.DPoint(a).distance(kdb.DPoint(b)) + 1):
            return f'triangle {p} of area {p.area()} became {out}'
