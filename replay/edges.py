"""independent computation of sidewall and fringe capacitances (axis-parallel layouts, one-dimensional columns)"""
import math
from replay.layouts import *


def fringe(t, dbu, length, y1, y2, ov, so, scale):
    a = 0.02 * ov
    f = lambda y: 2 / math.pi * math.atan(a * y * dbu)
    r = f(y2) - f(y1)
    if scale:
        full = 2 / math.pi * math.atan(a * t['halo'])
        if 0 < full < 1:
            r /= full
    return r * length * dbu * so / 1000.0


def minus(iv, cuts):
    """parts of the interval iv not covered by cuts"""
    out = [iv]
    for c in cuts:
        nxt = []
        for a, b in out:
            if c[1] <= a or c[0] >= b:
                nxt.append((a, b))
                continue
            if c[0] > a:
                nxt.append((a, c[0]))
            if c[1] < b:
                nxt.append((c[1], b))
        out = nxt
    return out


def merged(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1]:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def add(d, k, v):
    d[k] = d.get(k, 0.0) + v


# ------------------------------------------------------------------ visitor called directly
def rand_hood(rng, layers, inside):
    """[[x1, x2, {child: [[ya, yb, net], ..]}], ..]: boxes that span the interval"""
    n = len(layers)
    out = []
    x = 0
    for _ in range(rng.randrange(1, 4)):
        w = rng.choice([1, 2, 3, 10, 100, 997, 5000])
        ch = {}
        for c in range(n + 1):
            if rng.random() < .45:
                continue
            ps = []
            k = rng.randrange(1, 4)
            ys = sorted(rng.sample(range(1, 60), 2 * k))
            for i in range(k):
                a, b = ys[2 * i] * rng.choice([10, 50]), None
                b = a + rng.randrange(1, 40) * 10
                if ps and a <= ps[-1][1]:
                    continue
                if c not in (inside, n) and rng.random() < .25 and not ps:
                    a = rng.choice([0, -30, -500])
                if c not in (inside, n) and rng.random() < .05 and not ps:
                    a, b = -40, rng.choice([0, -10])
                ps.append([a, b, rng.choice(['A', 'B', 'C', 'a', 'VSUBS'])])
            rng.shuffle(ps)
            ch[c] = ps
        items = list(ch.items())
        rng.shuffle(items)
        out.append([x, x + w, items])
        x += w + rng.choice([0, 5])
    return out


def run_visitor(c):
    import klayout.db as kdb
    from klayout_pex.rcx25.c.sidewall_and_fringe_extractor import SidewallAndFringeExtractor
    from klayout_pex.rcx25.extraction_results import CellExtractionResults
    res = CellExtractionResults('TOP')
    v = SidewallAndFringeExtractor.PEXEdgeNeighborhoodVisitor(all_layer_names=list(c['layers']), inside_layer_index=c['inside'],
        dbu=c['dbu'], tech_info=make_tech(c['tech']), scale_ratio_to_fit_halo=c['scale'], results=res, report=Quiet())
    hood = []
    for x1, x2, ch in c['hood']:
        d = {k: [kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(x1, a, x2, b)), {'net': n}) for a, b, n in ps] for k, ps in ch}
        hood.append(((float(x1), float(x2)), d))
    e = kdb.EdgeWithProperties(kdb.Edge(0, 0, c['hood'][-1][1], 0), {'net': c['net']})
    v.on_edge(None, None, e, hood)
    sw, so = {}, {}
    for k, caps in res.sidewall_table.items():
        for x in caps:
            add(sw, (k.layer, k.net1, k.net2), x.cap_value)
            if x.key != k:
                raise AssertionError(f'{x} filed under {k}')
    for k, caps in res.sideoverlap_table.items():
        for x in caps:
            add(so, (k.layer_inside, k.net_inside, k.layer_outside, k.net_outside), x.cap_value)
            if x.key != k:
                raise AssertionError(f'{x} filed under {k}')
    return sw, so


def oracle_visitor(c):
    t, L, i, dbu = c['tech'], c['layers'], c['inside'], c['dbu']
    ov, sot = ov_table(t), so_table(t)
    sw, so = {}, {}
    n = len(L)
    for x1, x2, items in c['hood']:
        ch = dict(items)
        if x2 - x1 <= 1:
            continue
        near = None
        if ch.get(i):
            a, b, net = min(ch[i], key=lambda p: p[0])
            near = a
            if net != c['net'] and L[i] in t['sw']:
                cap, off = t['sw'][L[i]]
                add(sw, (L[i], c['net'], net), (x2 - x1) * dbu * cap / (a * dbu + off) / 2 / 1000)
        if ch.get(n):
            a = min(p[0] for p in ch[n])
            near = a if near is None else min(a, near)
        for k, ps in items:
            if k in (i, n):
                continue
            o = ov.get((L[i], L[k])) if (L[i], L[k]) in ov else ov.get((L[k], L[i]))
            s = sot.get((L[i], L[k]))
            if o is None or s is None:
                continue
            cuts = [(near, 10 ** 12)] if near is not None else []
            for q in range(min(i, k) + 1, max(i, k)):
                cuts += [(p[0], p[1]) for p in ch.get(q, [])]
            ni = 'VSUBS' if L[i] == 'VSUBS' else c['net']
            for a, b, net in ps:
                no = 'VSUBS' if L[k] == 'VSUBS' else net
                if no == ni:
                    continue
                for u, w in minus((a, b), merged(cuts)):
                    u, w = max(u, 0), max(w, 0)
                    if u == w:
                        continue
                    f = fringe(t, dbu, x2 - x1, u, w, o, s, c['scale'])
                    if f > 0.0001:
                        add(so, (L[i], ni, L[k], no), f)
    return sw, so


def positive(t):
    for x in list(t['sub'].values()) + t['ov'] + t['so']:
        for i, v in enumerate(x):
            if v == 0:
                x[i] = 1.0
    return t


def visitor_case(rng):
    k = rng.randrange(2, 7)
    layers = ['VSUBS'] + sorted(rng.sample(STACK[1:], k - 1), key=STACK.index)
    inside = rng.randrange(1, k) if rng.random() < .9 else 0
    t = positive(rand_tech(rng, layers, rng.choice([1.0, .9, .7])))
    if rng.random() < .08:
        t['halo'] = 0.0
    dbu = rng.choice([0.001, 0.001, 0.005])
    top = int(t['halo'] / dbu) + 1
    hood = [[x1, x2, [[k, q] for k, q in ((k, [[a, min(b, top), w] for a, b, w in ps if a < top]) for k, ps in ch) if q]]
            for x1, x2, ch in rand_hood(rng, layers, inside)]
    return dict(kind='visitor', layers=layers, inside=inside, tech=t, dbu=dbu, scale=rng.random() < .4,
                net=rng.choice(['A', 'B', 'VSUBS']), hood=hood)


# ------------------------------------------------------------------ whole layouts through KLayout
def spaced_layout(rng, n):
    """layers of rectangles; different polygons of a layer do not touch, not even at corners"""
    k = rng.randrange(2, 6)
    layers = ['VSUBS'] + sorted(rng.sample(STACK[1:], k - 1), key=STACK.index)
    out = {}
    for ly in layers[1:]:
        rects, own = [], {}
        if n > 4 and rng.random() < .4:        # an arm of the shape itself may be between it and other shapes; or it has a hole
            w, h, net = rng.choice([3, 3, 4]), rng.choice([3, 4, 5]), rng.choice(['A', 'B', 'C'])
            if rng.random() < .5:
                w, h = h, w
            x1, y1 = rng.randrange(n - w + 1), rng.randrange(n - h + 1)
            x2, y2 = x1 + w, y1 + h
            rects = [[x1, y1, x1 + 1, y2, net], [x2 - 1, y1, x2, y2, net], [x1, y1, x2, y1 + 1, net], [x1, y2 - 1, x2, y2, net]]
            if rng.random() < .7:
                del rects[rng.randrange(4)]
            for a, b, c, d, _ in rects:
                own.update({(x, y): net for x in range(a, c) for y in range(b, d)})
        for _ in range(rng.randrange(0, 6)):
            x1, y1 = rng.randrange(n), rng.randrange(n)
            x2, y2 = min(n, x1 + rng.randrange(1, n)), min(n, y1 + rng.randrange(1, 4))
            if rng.random() < .5:
                x2, y2 = min(n, x1 + (y2 - y1)), min(n, y1 + (x2 - x1))
            net = rng.choice(['A', 'B', 'C'])
            cells = [(x, y) for x in range(x1, x2) for y in range(y1, y2)]
            halo = {(x + a, y + b) for x, y in cells for a in (-1, 0, 1) for b in (-1, 0, 1)}
            near = {own[c] for c in halo if c in own}
            if not near:
                for c in cells:
                    own[c] = net
                rects.append([x1, y1, x2, y2, net])
            elif near == {net} and rng.random() < .7 and any(c in own for c in cells):
                for c in cells:
                    own[c] = net
                rects.append([x1, y1, x2, y2, net])
        out[ly] = rects
    return dict(layers=layers, rects=out, n=n)


def layout_case(rng):
    lay = spaced_layout(rng, rng.choice([5, 8, 12]))
    unit = rng.choice([100, 500, 1000])
    dbu = rng.choice([0.001, 0.005])
    t = positive(rand_tech(rng, lay['layers'], rng.choice([1.0, .9])))
    for x in t['sub'].values():
        x[0], x[1] = rng.choice([10.0, 50.0, 100.0]), rng.choice([4000.0, 20000.0])
    for x in t['ov']:
        x[2] = rng.choice([10.0, 37.5, 100.0])
    for x in t['so']:
        x[2] = rng.choice([4000.0, 7000.0, 20000.0])
    t['halo'] = rng.randrange(1, 5) * unit * dbu
    return dict(kind='layout', lay=lay, tech=t, unit=unit, dbu=dbu, scale=rng.random() < .3)


def run_layout(c):
    from klayout_pex.rcx25.c.sidewall_and_fringe_extractor import SidewallAndFringeExtractor
    from klayout_pex.rcx25.extraction_results import CellExtractionResults
    regs = regions(c['lay'], c['unit'], True)
    res = CellExtractionResults('TOP')
    SidewallAndFringeExtractor(all_layer_names=list(regs), layer_regions_by_name=regs, dbu=c['dbu'], scale_ratio_to_fit_halo=c['scale'],
                               tech_info=make_tech(c['tech']), results=res, report=Quiet()).extract()
    sw, so = {}, {}
    for k, caps in res.sidewall_table.items():
        for x in caps:
            add(sw, (k.layer, k.net1, k.net2), x.cap_value)
    for k, caps in res.sideoverlap_table.items():
        for x in caps:
            add(so, (k.layer_inside, k.net_inside, k.layer_outside, k.net_outside), x.cap_value)
    return sw, so


def comps(lay, ly):
    """cells -> polygon number (4-connected cells of one net)"""
    g = grid(lay, ly)
    n = lay['n']
    num = {}
    k = 0
    for x in range(n):
        for y in range(n):
            if g[x][y] is None or (x, y) in num:
                continue
            st = [(x, y)]
            while st:
                a, b = st.pop()
                if (a, b) in num or not (0 <= a < n and 0 <= b < n) or g[a][b] != g[x][y]:
                    continue
                num[(a, b)] = k
                st += [(a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)]
            k += 1
    return g, num


def oracle_layout(c):
    lay, t, unit, dbu = c['lay'], c['tech'], c['unit'], c['dbu']
    L, n = lay['layers'], lay['n']
    ov, sot = ov_table(t), so_table(t)
    G = {ly: comps(lay, ly) for ly in L[1:]}
    H = round(t['halo'] / dbu / unit)
    dout = int(t['halo'] / dbu) + 2           # the operation reaches one database unit further than asked for
    sw, so = {}, {}
    for i, ly in enumerate(L):
        if i == 0:
            continue
        g, num = G[ly]
        for (x, y), me in num.items():
            for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                if num.get((x + dx, y + dy)) == me:
                    continue
                # ends of the edge: where the boundary does not go on straight
                ends = 0
                for sx, sy in ((dy, dx), (-dy, -dx)):
                    q = (x + sx, y + sy)
                    if not (num.get(q) == me and num.get((q[0] + dx, q[1] + dy)) != me):
                        ends += 1
                length = unit
                col = lambda m: (x + dx * m, y + dy * m)      # m = 1, 2, ..
                lat = None
                side = None
                for m in range(1, H + 2):
                    if (m - 1) * unit > dout:
                        break
                    q = num.get(col(m))
                    if q is not None and lat is None:
                        lat = (m - 1) * unit
                    if q is not None and q != me and side is None:
                        side = ((m - 1) * unit, g[col(m)[0]][col(m)[1]])
                net = g[x][y]
                if side and side[1] != net and ly in t['sw'] and side[0] < dout:
                    cap, off = t['sw'][ly]
                    add(sw, (ly, net, side[1]), length * dbu * cap / (side[0] * dbu + off) / 2 / 1000)
                occ = {}
                for lo in L:
                    if lo == 'VSUBS':
                        occ[lo] = [(0, dout, "VSUBS")]
                        continue
                    runs = []
                    gg, nn = G[lo]
                    prev = None
                    for m in range(1, H + 2):
                        q = nn.get(col(m))
                        if q is not None:
                            if prev == q:
                                runs[-1][1] = m * unit
                            else:
                                runs.append([(m - 1) * unit, m * unit, gg[col(m)[0]][col(m)[1]]])
                        prev = q
                    occ[lo] = [(max(a, 0), min(b, dout), w) for a, b, w in runs if max(a, 0) < min(b, dout)]
                for k, lo in enumerate(L):
                    if k == i:
                        continue
                    o = ov.get((ly, lo)) if (ly, lo) in ov else ov.get((lo, ly))
                    s = sot.get((ly, lo))
                    if o is None or s is None:
                        continue
                    cuts = [(lat, 10 ** 12)] if lat is not None else []
                    for q in range(min(i, k) + 1, max(i, k)):
                        cuts += [(a, b) for a, b, _ in occ[L[q]]]
                    for a, b, w in occ[lo]:
                        if w == net:
                            continue
                        for u, v in minus((a, b), merged(cuts)):
                            add(so, (ly, net, lo, w), fringe(t, dbu, length, u, v, o, s, c['scale']))
    return sw, so


def compare(what, got, want, rel, absol=1e-9):
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k, 0.0), want.get(k, 0.0)
        if abs(a - b) > rel * max(abs(a), abs(b)) + absol:
            return f'{what} {k}: {a} fF, expected {b} fF'
    return None


__all__ = [x for x in globals() if not x.startswith('__')]
