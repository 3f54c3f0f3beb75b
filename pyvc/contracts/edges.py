"""shared contract of SidewallAndFringeExtractor.PEXEdgeNeighborhoodVisitor.on_edge (used by C12 and C13)"""
from .rcx import *

MOD = 'klayout_pex.rcx25.c.sidewall_and_fringe_extractor'
UTIL = 'klayout_pex.rcx25.c.polygon_utils'
VIS = 'SidewallAndFringeExtractor.PEXEdgeNeighborhoodVisitor'
S = Reg.SORT
X1 = z3.Function('interval_start', Z, R)
X2 = z3.Function('interval_end', Z, R)
CHN = z3.Function('n_children', Z, Z)
CI = z3.Function('child_index', Z, Z, Z)              # (interval, position) -> child
POS = z3.Function('child_position', Z, Z, Z)          # (interval, child) -> position
NPC = z3.Function('n_child_polygons', Z, Z, Z)
PC = z3.Function('child_polygon', Z, Z, Z, S)
NETC = z3.Function('child_polygon_net', Z, Z, Z, NAME)
UC = z3.Function('child_union', Z, Z, S)
W = z3.Function('nearest_of_child', Z, Z, Z)          # (interval, child) -> index of the nearest polygon
D = z3.Function('distance_of_child', Z, Z, R)
EX = z3.Function('nearest_edge_coordinate', Z, Z, Z, R)   # (interval, child, 0..3: p1.x p1.y p2.x p2.y)
LAT = z3.Function('beyond_nearest_edge', Z, Z, S)
ACC = z3.Function('layers_between', Z, Z, Z, S)       # (interval, first, count)


def has_child(k, c): return z3.And(POS(k, c) >= 0, POS(k, c) < CHN(k), CI(k, POS(k, c)) == c)
def LS(k, c): return z3.If(has_child(k, c), UC(k, c), Reg.EMPTY)


def m(I, q):
    x = I.repo(MOD, f'{VIS}.{q}')
    return x[1] if isinstance(x, tuple) else x


def visitor_class(I):
    c = I.repo(MOD, VIS)
    return c[1] if isinstance(c, tuple) else c


class Child(SymSeq):
    """polygons of child c in interval k"""
    def __init__(self, k, c):
        self.k, self.c = k, c
        super().__init__(('child', k, c), NPC(k, c), self.elem)
        self.union_v = UC(k, c)

    def elem(self, I, j):
        p = Poly(PC(self.k, self.c, zint(j)), net=NETC(self.k, self.c, zint(j)))
        p.who = (self.k, self.c, zint(j))
        return p


class Children(SymDict):
    def __init__(self, I, k, n):
        def key(I, p):
            c = CI(k, zint(p))
            I.assume(c >= 0, c <= n, z3.Implies(z3.And(zint(p) >= 0, zint(p) < CHN(k)), POS(k, c) == p), NPC(k, c) >= 1)
            return c
        I.assume(CHN(k) >= 0)
        super().__init__(('hood', k), CHN(k), key, lambda I, p: Child(k, CI(k, zint(p))), unique=True)
        self.k = k
        self.finder = lambda I, keyfn, x: (has_child(k, zint(x)), POS(k, zint(x)))

    def val_at(self, I, c): return Child(self.k, c)


class RegArray(Model):
    """a list of regions, one per layer"""
    kind = 'RegArray'

    def __init__(self, n):
        super().__init__()
        self.n, self.v, self.view = n, z3.K(Z, Reg.EMPTY), None

    def length(self, I): return self.n

    def getitem(self, I, i):
        from ..engine import py_index
        i = py_index(I, i, self.n)
        return RegCell(self, i)


class RegCell(Reg):
    def __init__(self, arr, i):
        self.arr, self.i = arr, i
        super().__init__()

    @property
    def v(self):
        a = self.arr
        return a.view(self.i) if a.view is not None else a.v[self.i]

    @v.setter
    def v(self, x):
        if not hasattr(self, 'oid') or not hasattr(self, 'ready'):
            self.ready = True
            return
        if self.arr.view is not None:
            raise Undecided('fringe shields change after they are complete')
        self.arr.v = z3.Store(self.arr.v, self.i, x)

    def m_insert(self, I, o):
        I.note_write(self.arr)
        return super().m_insert(I, o)

    def inplace(self, I, op, other):
        r = self.binop(I, op, other, False)
        I.note_write(self.arr)
        self.v = r.v
        return self


class ChildLoop(Spec):
    """a loop over the children of one interval: it may complete the per-layer shields, find the nearest lateral polygon,
    and emit"""

    def __init__(self, n, s, tr, g, check):
        super().__init__('children', lambda I, it: isinstance(base_tag(it.tag), tuple) and base_tag(it.tag)[0] == 'hood')
        self.n, self.s, self.tr, self.g, self.check = n, s, tr, g, check

    def pre(self, I, L):
        G = L.ghost
        G['k'] = base_tag(L.it.tag)[1]
        G['arr'] = [o for o in L.written if isinstance(o, RegArray)]
        G['tr'] = [o for o in L.written if o is self.tr]
        if len(G['arr']) + len(G['tr']) != len(L.written) or len(G['arr']) > 1:
            raise Undecided(f'loop over the children writes {L.written}')
        c = [x for x in sorted(L.carried()) if L.env.lookup(x) is None]
        G['dist'] = [x for x in c if 'dist' in x]
        G['edge'] = [x for x in c if 'dist' not in x and 'edge' in x]
        if len(c) not in (0, 2) or len(G['dist']) != len(G['edge']):
            raise Undecided(f'loop over the children carries {c}')

    def havoc(self, I, L, k):
        G = L.ghost
        for a in G['arr']:
            a.v = I.fresh('shields', a.v.sort())
        if G['dist']:
            kk = G['k']
            none = z3.Not(z3.Or(self.seen(L, k, self.n), self.seen(L, k, self.s)))
            if I.branch(none):
                set_local(L, G['dist'][0], None)
                set_local(L, G['edge'][0], None)
            else:
                c = I.fresh('lateral_child', Z)
                I.assume(z3.Or(c == self.n, c == self.s))
                set_local(L, G['dist'][0], I.fresh('distance', R))
                set_local(L, G['edge'][0], near_edge(kk, c))
        if G['tr']:
            G['pre_events'] = list(self.tr.events)
            self.tr.events = [('sofar', self.name)]
        mark_havoc(L, *L.written)

    def seen(self, L, k, c): return z3.And(has_child(L.ghost['k'], c), POS(L.ghost['k'], c) < k)

    def inv(self, I, L, k):
        G, g = L.ghost, self.g
        kk = G['k']
        out = [('a layer is shielded by its polygons seen so far', z3.Implies(z3.And(g >= 0, g < self.n),
                a.v[g] == z3.If(self.seen(L, k, g), UC(kk, g), Reg.EMPTY))) for a in G['arr']]
        if G['dist']:
            d, e = L.env.lookup(G['dist'][0]), L.env.lookup(G['edge'][0])
            P, F = self.seen(L, k, self.n), self.seen(L, k, self.s)
            if (d is None) != (e is None):
                out.append(('distance and edge belong together', z3.BoolVal(False)))
            elif d is None:
                out.append(('the nearest lateral polygon seen so far', z3.Not(z3.Or(P, F))))
            else:
                c = e.c if hasattr(e, 'c') else None
                if c is None:
                    raise Undecided('nearest edge is something else')
                d = zreal(d)
                out.append(('the nearest lateral polygon seen so far', z3.And(
                    z3.Or(z3.And(P, c == self.n), z3.And(F, c == self.s)), e.k == kk, d == D(kk, c),
                    z3.Implies(P, d <= D(kk, self.n)), z3.Implies(F, d <= D(kk, self.s)))))
        return out

    def elem_done(self, I, L, k, ctx):
        G = L.ghost
        if G['tr']:
            ev = self.tr.events
            if not ev or ev[0] != ('sofar', self.name):
                raise Undecided('trace was replaced')
            G['rec'].setdefault('roles', set()).update(e[0] for e in ev[1:])
            self.check(I, G['k'], CI(G['k'], k), ev[1:], G['rec']['roles'])

    def after(self, I, L):
        G = L.ghost
        for a in G['arr']:
            # proved above for an arbitrary layer
            kk = G['k']
            a.view = lambda c: LS(kk, c)
        if G['tr']:
            self.tr.events = G['pre_events'] + [('loop', self.name, L)]


def near_edge(k, c):
    def pt(a):
        r = Record('pt', dict(x=EX(k, c, a), y=EX(k, c, a + 1)))
        r.of = (k, c)
        return r
    e = Record('edge', dict(p1=pt(0), p2=pt(2)))
    e.k, e.c = k, c
    return e


class BetweenLoop(Spec):
    """collects the shields of a range of layers into one region"""

    def __init__(self, get_k):
        super().__init__('layers between', lambda I, it: isinstance(it.tag, tuple) and it.tag[0] == 'range')
        self.get_k = get_k

    def pre(self, I, L):
        G = L.ghost
        G['k'] = self.get_k(I)
        G['regs'] = [o for o in L.written if isinstance(o, Reg)]
        G['loc'] = [n for n in L.carried() if isinstance(L.env.lookup(n), Reg)]
        G['loc'] = [n for n in G['loc'] if not any(L.env.lookup(n) is o for o in G['regs'])]
        if len(G['regs']) + len(G['loc']) != 1 or len(G['regs']) != len(L.written):
            raise Undecided('layers between: several regions grow')
        G['init'] = self.reg(L).v
        G['lo'] = zint(L.it.elem(I, z3.IntVal(0)))
        G['names'] = [n for n in L.carried() if any(L.env.lookup(n) is o for o in G['regs'])]
        I.assume(ACC(G['k'], G['lo'], 0) == Reg.EMPTY)

    def reg(self, L): return L.ghost['regs'][0] if L.ghost['regs'] else L.env.lookup(L.ghost['loc'][0])

    def havoc(self, I, L, k):
        v = I.fresh('shield', Reg.SORT)
        if L.ghost['regs']:
            L.ghost['regs'][0].v = v
            for n in L.ghost['names']:
                set_local(L, n, L.ghost['regs'][0])
        else:
            set_local(L, L.ghost['loc'][0], Reg(v))
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        G = L.ghost
        return [('the shield has all layers passed', self.reg(L).v == Reg.union(G['init'], ACC(G['k'], G['lo'], k)))]

    def facts(self, I, L, k):
        G = L.ghost
        return [ACC(G['k'], G['lo'], k + 1) == Reg.union(ACC(G['k'], G['lo'], k), LS(G['k'], G['lo'] + k))]


def on_edge(I, what, doc=False):
    """requires: an edge with intervals; per interval the polygons of child layers (child n: the polygon itself).
    ensures, for every interval longer than 1 dbu: (sidewall) exactly one sidewall is emitted if there are other polygons on
    the layer, for the nearest of them; (fringe) for every other layer with polygons exactly one fringe emission, with all its
    polygons and the shield = all layers strictly between + everything beyond the nearest lateral edge"""
    install_region(I)
    n, s = I.fresh('nlayers', Z), I.fresh('inside', Z)
    nk = I.fresh('n_intervals', Z)
    I.assume(n >= 1, s >= 0, s < n, nk >= 0)
    dbu, halo = I.fresh('dbu', R), I.fresh('halo', R)
    I.assume(dbu > 0, halo > 0)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    names = Layers(I, n)
    ti = tech(I, tech=Record('technology', dict(process_parasitics=Record('pp', dict(side_halo=halo)))))
    res, rep = Record('results', {}), Sink(tr, {}, ignore=True)
    g = I.fresh('any_layer', Z)
    I.ghost['comp'] = comp_hook(n)
    I.contracts['klayout_pex.log.logger:get_log_level'] = any_log_level
    base = ('hood0',)

    def hood(I, k):
        k = zint(k)
        I.ghost['interval'] = k
        return ((X1(k), X2(k)), Children(I, k, n))
    hoods = SymSeq('intervals', nk, hood)
    v = visitor(I, visitor_class(I), dict(all_layer_names=names, inside_layer_index=s, dbu=dbu, tech_info=ti,
                                   scale_ratio_to_fit_halo=I.fresh('scale', B), results=res, report=rep))
    v.fields['to_original_trans'] = Builtin('to_original_trans', lambda I, a, k: place if (list(a) + list(k.values()))[0] is edge else Placing())
    edge, place = Record('edge_with_properties', {}), Placing()

    # callee contracts
    def nearest_polygon(I, a, kw):
        ps = (list(a) + list(kw.values()))[0]
        if not isinstance(ps, Child):
            raise Undecided('nearest of other polygons')
        p = ps.elem(I, W(ps.k, ps.c))
        I.assume(W(ps.k, ps.c) >= 0, W(ps.k, ps.c) < NPC(ps.k, ps.c), D(ps.k, ps.c) >= 0)
        return (D(ps.k, ps.c), p)

    def nearest_edge(I, a, kw):
        p = (list(a) + list(kw.values()))[0]
        w = getattr(p, 'who', None)
        if w is None or not same(w[2], W(w[0], w[1])):
            raise Undecided('nearest edge of another polygon')
        return near_edge(w[0], w[1])
    I.contracts[f'{UTIL}:find_polygon_with_nearest_edge'] = nearest_polygon
    I.contracts[f'{UTIL}:nearest_edge'] = nearest_edge

    def point(I, a, kw):
        if len(a) != 2:
            raise Undecided('point')
        return Record('pt', dict(x=a[0], y=a[1]))
    I.externals['klayout.db.Point'] = Builtin('Point', point)

    def polygon(I, a, kw):
        ps = a[0].items if len(a) == 1 and isinstance(a[0], ListVal) else []
        pts = [(zreal(p.fields['x']), zreal(p.fields['y'])) for p in ps if isinstance(p, Record) and p.name == 'pt']
        src = [getattr(p, 'of', None) for p in ps]
        src = [x for x in src if x is not None]
        if len(pts) != 4 or len(ps) != 4 or not src:
            raise Undecided('lateral shield is not a quadrilateral on the nearest edge')
        k, c = src[0]
        a_, b_ = (EX(k, c, 0), EX(k, c, 1)), (EX(k, c, 2), EX(k, c, 3))
        for turn in range(4):
            r = pts[turn:] + pts[:turn]
            for q in (r, list(reversed(r))):
                if I._check(z3.Not(z3.And(q[0][0] == b_[0], q[0][1] == b_[1], q[1][0] == a_[0], q[1][1] == a_[1],
                                          q[2][0] == a_[0], q[3][0] == b_[0]))) == z3.unsat:
                    # the operation looks up to int(halo / dbu) + 1 database units away
                    I.assume(dbu <= 1)
                    I.prove('the lateral shield reaches as far as the halo',
                            z3.And(q[2][1] * dbu >= halo + dbu, q[3][1] * dbu >= halo + dbu))
                    return Poly(LAT(k, c))
        raise Undecided('lateral shield polygon')
    I.externals['klayout.db.Polygon'] = Builtin('Polygon', polygon)

    def emit(kind):
        def f(I, a, kw):
            env = I.bind(m(I, kind), a, kw)
            d = dict(env.vars)
            if isinstance(d.get('shield'), Reg):
                d['shield'] = d['shield'].v
            tr.emit(I, kind, d)
        return f
    for q in ('emit_sidewall', 'emit_fringe'):
        I.contracts[f'{MOD}:{VIS}.{q}'] = emit(q)

    def same_interval(I, d, k):
        x = d.get('edge_interval')
        ok = isinstance(x, tuple) and len(x) == 2
        I.prove('emitted for this edge and interval', z3.And(zreal(x[0]) == X1(k), zreal(x[1]) == X2(k), z3.BoolVal(d.get('edge') is edge))
                if ok else z3.BoolVal(False))
        if doc:
            r = d.get('geometry_restorer')
            in_place(I, 'shapes to document', I.call(I.getattr(r, 'restore_edge'), [edge]), place, edge)

    def sidewall_ok(I, k, d):
        p = d.get('polygon')
        who = getattr(p, 'who', None)
        if who is None:
            raise Undecided('sidewall with another polygon')
        I.prove('the sidewall goes to the nearest polygon of another shape on the layer',
                z3.And(who[0] == k, who[1] == s, who[2] == W(k, s)))
        I.prove('under the name of the layer', lay(I, d['layer_name']) == LN(s))
        same_interval(I, d, k)

    def fringe_ok(I, k, c, d):
        ps = d.get('outside_polygons')
        if not isinstance(ps, Child):
            raise Undecided('fringe with other polygons')
        I.prove('the fringe is for all polygons of the layer', z3.And(ps.k == k, ps.c == c))
        I.prove('under the names of both layers', z3.And(lay(I, d['inside_layer_name']) == LN(s), lay(I, d['outside_layer_name']) == LN(c)))
        same_interval(I, d, k)
        lo = z3.If(c < s, c, s) + 1
        cnt = z3.If(c < s, s - c - 1, c - s - 1)
        for l_ in (c + 1, s + 1):
            I.assume(ACC(k, l_, 0) == Reg.EMPTY)
        P, F = has_child(k, n), has_child(k, s)
        sh = d['shield']
        bt = ACC(k, lo, cnt)
        alts = [z3.And(z3.Not(P), z3.Not(F), sh == bt)]
        for x, here, y, there in ((n, P, s, F), (s, F, n, P)):
            alts.append(z3.And(here, z3.Implies(there, D(k, x) <= D(k, y)), sh == Reg.union(LAT(k, x), bt)))
        I.prove('shield: the layers strictly between and what is beyond the nearest lateral edge', z3.Or(*alts))

    def per_child(I, k, c, ev, roles):
        if what == 'emit_sidewall':
            x = [e for e in ev if e[0] == what]
            if len(x) > 1:
                I.prove('one sidewall per interval', z3.BoolVal(False))
            elif x:
                I.prove('a sidewall only where another shape of the layer is in reach', c == s)
                sidewall_ok(I, k, x[0][1])
            elif what in roles:
                I.prove('no sidewall is left out', c != s)
        else:
            x = [e for e in ev if e[0] == what]
            if len(x) > 1:
                I.prove('one fringe emission per layer', z3.BoolVal(False))
            elif x:
                I.prove('fringe only to other layers', z3.And(c >= 0, c < n, c != s))
                fringe_ok(I, k, c, x[0][1])
            elif what in roles:
                I.prove('no fringe is left out', z3.Or(c == s, c == n))

    def per_interval(I, L, k, ev):
        direct = [e for e in ev if e[0] == what]
        loops = [e[2] for e in ev if e[0] == 'loop' and what in e[2].ghost['rec'].get('roles', set())]
        short = z3.Or(X2(k) - X1(k) <= 1, CHN(k) <= 0)
        if len(direct) + len(loops) > 1:
            raise Undecided('emitted at several places')
        if not direct and not loops:
            I.prove('an interval is skipped only if it is at most 1 dbu long or without neighbors',
                    z3.Or(short, z3.Not(has_child(k, s))) if what == 'emit_sidewall' else short)
        elif direct:
            if what != 'emit_sidewall':
                raise Undecided('fringe outside a loop over the layers')
            I.prove('a sidewall only where another shape of the layer is in reach', has_child(k, s))
            sidewall_ok(I, k, direct[0][1])
        else:
            M_ = loops[0]
            I.prove('all children of the interval are looked at', z3.And(M_.ghost['k'] == k, zint(M_.it.n) == CHN(k)))
        if direct or loops:
            I.prove('nothing for intervals of at most 1 dbu', X2(k) - X1(k) > 1)
    it = TraceSpec('intervals', lambda I, it: base_tag(it.tag) == 'intervals', tr, per_interval)
    I.loop_specs = [ChildLoop(n, s, tr, g, per_child), BetweenLoop(lambda I: I.ghost['interval']), it]
    I.call(BoundMethod(m(I, 'on_edge'), v), [Record('layout', {}), Record('cell', {}), edge, hoods])
    loops = [e[2] for e in tr.events if e[0] == 'loop']
    I.prove('all intervals are looked at', z3.And(z3.BoolVal(len(loops) == len(tr.events) == 1), *[zint(L.it.n) == nk for L in loops]))


def any_log_level(I, a, k):
    ms = list(I.repo('klayout_pex.log.logger', 'LogLevel').members.values())
    for x in ms[:-1]:
        if x.name != 'DEBUG' and len(ms) > 2:
            continue
        if I.branch(I.ghost.setdefault('level_' + x.name, I.fresh('level_' + x.name, B))):
            return x
    return [x for x in ms if x.name != 'DEBUG'][-1]


def comp_hook(n):
    def h(I, seq):
        """[Region() for each layer] is an array of regions"""
        i = I.fresh('layer', Z)
        try:
            x = seq.at(I, i)
        except Undecided:
            return seq
        if isinstance(x, Reg) and not isinstance(x, (LayerRegion, RegCell)) and z3.eq(x.v, Reg.EMPTY) and not seq.filtered():
            return RegArray(seq.it.n)
        return seq
    return h



def floor_of(I, x):
    n = I.fresh('trunc', Z)
    x = zreal(x)
    I.assume(z3.Implies(x >= 0, z3.And(z3.ToReal(n) <= x, x < z3.ToReal(n) + 1)), z3.Implies(x < 0, z3.And(z3.ToReal(n) >= x, x > z3.ToReal(n) - 1)))
    return n


def geometry(I, kw, dbu, halo):
    """arguments of the edge neighborhood operation"""
    if set(kw) - {'bext', 'eext', 'din', 'dout'}:
        raise Undecided('arguments of the edge neighborhood operation')
    I.prove('the operation reaches the side halo and at most 2 dbu more', z3.And(zreal(kw['dout']) * dbu >= halo, (zreal(kw['dout']) - 2) * dbu <= halo))
    I.prove('only what faces the edge counts', z3.And(zreal(kw['bext']) <= 0, zreal(kw['eext']) <= 0, zreal(kw['din']) <= 0,
                                                      zreal(kw['bext']) >= -1, zreal(kw['eext']) >= -1, zreal(kw['din']) >= -1))


__all__ = [n for n in globals() if not n.startswith('__')]
