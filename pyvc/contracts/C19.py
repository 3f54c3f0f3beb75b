import ast
from .network import *

ASSUMPTIONS = ['Python lists hold one entry per append in some order (a star list is finite, in arbitrary order)', 'two kdb.Points are equal iff at the same location',
               'conductances are exact reals (floats in the code)', 'eliminate_all: termination follows from finitely many nodes (each round eliminates one or raises the limit), not proved']


def start(I, **kw):
    net = Net(I, **kw)
    install(I, net)
    return net, net.network(I)


def pair(I, net, *ks):
    """arbitrary node ids"""
    x, y = I.fresh('x', Z), I.fresh('y', Z)
    net.access(I, x, y)
    for k in ks:
        net.access(I, k, x)
        net.access(I, k, y)
    return x, y


def method(I, net, nw, name, *a):
    f = I.repo(MOD, 'ResistorNetwork').mro_attr(name)
    if f is None:
        raise Undecided(f'no method {name}')
    return I.call(BoundMethod(f[1], nw), list(a))


def final(net, nw): return net.st.set(nid=zint(nw.fields['next_id']))


def init(I):
    """ensures: an empty network"""
    nw = I.call(I.repo(MOD, 'ResistorNetwork'), [])
    for f in ('nodes', 'locations', 's', 'node_to_s', 'node_names'):
        v = nw.fields.get(f)
        I.prove(f'no {f}', z3.BoolVal(isinstance(v, DictVal) and not v.pairs))
    p = nw.fields.get('precious')
    I.prove('nothing precious', z3.BoolVal(p is not None and not getattr(p, 'items', getattr(p, 'pairs', [1]))))


def node_id(I):
    """ensures: the id of the location, a new one iff there was none; consistency and all resistors are kept"""
    net, nw = start(I)
    p = I.fresh('point', PT)
    net.point(I, p)
    x, y = pair(I, net)
    q = I.fresh('q', PT)
    net.point(I, q)
    s0 = net.st
    net.access(I, s0.NV[q], s0.NV[q])
    net.access(I, s0.NV[p], s0.NV[p])
    I.assume(s0.nid >= 0)
    has = method(I, net, nw, 'has_node', p)
    I.prove('has_node: there is a node at the location', zbool(has) == s0.NP[p])
    r = zint(method(I, net, nw, 'node_id', p))
    net.access(I, r, r)
    s1 = final(net, nw)
    I.prove('the node is at the location', z3.And(s1.PL[r], s1.LV[r] == p, s1.NP[p], s1.NV[p] == r))
    I.prove('an existing node is found again', z3.Implies(s0.NP[p], r == s0.NV[p]))
    I.prove('a new node is a new one', z3.Implies(z3.Not(s0.NP[p]), z3.Not(s0.PL[r])))
    I.prove('other locations keep their nodes', z3.Implies(q != p, z3.And(s1.NP[q] == s0.NP[q], s1.NV[q] == s0.NV[q])))
    I.prove('other nodes keep their locations', z3.Implies(z3.Or(x != r, s0.PL[r]), z3.And(s1.PL[x] == s0.PL[x], s1.LV[x] == s0.LV[x])))
    I.prove('resistors are kept', z3.And(s1.s(x, y) == s0.s(x, y), s1.g(x, y) == s0.g(x, y)))
    I.prove('consistent', z3.And(consistent(s1, x, y), at(s1, q), s1.nid >= s0.nid))
    loc = method(I, net, nw, 'location', r)
    I.prove('location of the node', zbool(I.eq(loc, p)))


def add_cond(I):
    """requires: two different nodes, a conductance that is not part of the network.  ensures: it is added to the conductance
    between the two, seen from both; nothing else changes; consistent"""
    net, nw = start(I)
    a, b = I.fresh('a', Z), I.fresh('b', Z)
    net.access(I, a, b)
    x, y = pair(I, net, a, b)
    s0 = net.st
    I.assume(a != b, s0.PL[a], s0.PL[b])
    v = I.fresh('conductance', R)
    c = new_cond(I, net, v)
    method(I, net, nw, 'add_cond', a, b, c)
    s1 = final(net, nw)
    same = z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a))
    I.prove('parallel conductances add up, others are kept', s1.g(x, y) == z3.If(same, s0.g(x, y) + v, s0.g(x, y)))
    I.prove('connected', (s1.s(x, y) != 0) == z3.Or(same, s0.s(x, y) != 0))
    I.prove('nodes are kept', z3.And(s1.PL[x] == s0.PL[x], s1.LV[x] == s0.LV[x], z3.Implies(s0.H[x], s1.H[x])))
    I.prove('consistent', consistent(s1, x, y))


def done(row, k, x): return z3.And(Row.nb(row)[x] != 0, POS(row, x) < k)


def remove_loop(net, n, s0, row):
    """the first k neighbours lose their resistor to n"""
    def known(k):
        def f(st, x, y):
            dx, dy = z3.And(y == n, done(row, k, x)), z3.And(x == n, done(row, k, y))
            return z3.And(st.s(y, x) == st.s(x, y), st.s(x, y) == z3.If(z3.Or(dx, dy), z3.IntVal(0), s0.s(x, y)),
                          z3.Implies(s0.H[x], st.entry(x, y) == z3.If(dx, z3.IntVal(0), s0.entry(x, y))), z3.Implies(s0.H[y], st.entry(y, x) == z3.If(dy, z3.IntVal(0), s0.entry(y, x))),
                          order(row, x), order(row, y), z3.Implies(x == n, st.row(x) == row), z3.Implies(y == n, st.row(y) == row))
        return f
    return known


KEEP = ('C', 'H', 'PL', 'LV', 'NP', 'NV', 'O1', 'O2', 'nid', 'nref')


def remove_node(I):
    """ensures: the node and its resistors are gone, everything else is as before; consistent.  An unconnected node: nothing happens"""
    net, nw = start(I)
    n = I.fresh('node', Z)
    x, y = pair(I, net, n)
    p = I.fresh('p', PT)
    net.point(I, p)
    s0 = net.st
    net.access(I, n, n)
    net.access(I, n, s0.NV[p])
    net.point(I, s0.LV[n])
    net.point(I, s0.LV[x])
    net.point(I, s0.LV[y])
    row = s0.row(n)
    I.assume(order(row, x), order(row, y))
    known = remove_loop(net, n, s0, row)
    I.loop_specs = [Spec('remove', lambda I, it: base_tag(it.tag)[0] == 'star',
                         havoc=lambda I, L, k: (mark_havoc(L, net), net.havoc(I, 'removing', known(k), pknown=None, keep=KEEP)) if L.written else None,
                         inv=lambda I, L, k: [('the resistors of the first neighbours are gone', known(k)(net.st, x, y)), ('the list is not modified meanwhile', net.st.row(n) == row)])]
    method(I, net, nw, 'remove_node', n)
    s1 = final(net, nw)
    I.prove('node and resistors gone, the rest kept', z3.If(s0.H[n], removed(s0, s1, n, x, y), z3.And(s1.s(x, y) == s0.s(x, y), gone(s0, s1, n - 1, n))))
    I.prove('conductances are kept', s1.C == s0.C)
    I.prove('its location is free', z3.Implies(s0.H[n], unplaced(s0, s1, n, p)))
    I.prove('consistent', z3.And(consistent(s1, x, y), at(s1, p)))


def remove_contract(I, net):
    """what remove_node proves, for callers"""
    def fn(I, a, k):
        v = I.bind(I.repo(MOD, 'ResistorNetwork').mro_attr('remove_node')[1], a, k).vars
        n = zint(v['nid'])
        s0 = net.st
        net.access(I, n, n)
        if not I.branch(s0.H[n]):
            return None
        # what callers must establish: the state is consistent (at an arbitrary pair)
        net.guarantee(I, n)
        I.note_write(net)
        net.havoc(I, 'removed', lambda st, x, y: z3.And(removed(s0, st, n, x, y), consistent(st, x, y)), pknown=lambda st, p: z3.And(unplaced(s0, st, n, p), at(st, p)), keep=('nid',))
        return None
    I.contracts[f'{MOD}:ResistorNetwork.remove_node'] = fn


def eliminate_node(I):
    """ensures: with s the total conductance at the node (beyond 1e-10): G'(x, y) = G(x, y) + G(n, x) G(n, y) / s for all pairs of
    other nodes, the node is gone, everything else kept; consistent"""
    net, nw = start(I)
    n = I.fresh('node', Z)
    x, y = pair(I, net, n)
    s0 = net.st
    net.access(I, n, n)
    row = s0.row(n)
    I.assume(order(row, x), order(row, y), LEN(row) >= 0)
    PS = z3.Function('sum', Z, R)
    I.assume(PS(0) == 0)
    g = lambda k: s0.C[Row.nb(row)[NBR(row, k)]]
    S = z3.Const('total', R)
    I.assume(S == PS(LEN(row)))
    member = lambda a: Row.nb(row)[a] != 0
    gn = lambda a: s0.C[Row.nb(row)[a]]
    MESH = lambda a, b: gn(a) * gn(b) / S

    def known(dn):
        def f(st, a, b):
            pa, pb = POS(row, a), POS(row, b)
            lo, hi = z3.If(pa < pb, pa, pb), z3.If(pa < pb, pb, pa)
            d = z3.And(member(a), member(b), a != b, dn(lo, hi))
            return z3.And(st.g(a, b) == z3.If(d, s0.g(a, b) + MESH(a, b), s0.g(a, b)), consistent(st, a, b), order(row, a), order(row, b),
                          z3.Implies(member(a), z3.And(st.C[Row.nb(row)[a]] == gn(a), st.s(n, a) == s0.s(n, a))), z3.Implies(member(b), z3.And(st.C[Row.nb(row)[b]] == gn(b), st.s(n, b) == s0.s(n, b))),
                          z3.Implies(z3.And(st.s(a, b) != 0, z3.Not(z3.And(member(a), member(b)))), s0.s(a, b) != 0),
                          st.H[a] == s0.H[a], st.H[b] == s0.H[b], st.row(n) == row)
        return f

    def mesh(name, match, dn):
        def havoc(I, L, k):
            if any(o is net for o in L.written):
                mark_havoc(L, net)
                net.havoc(I, name, known(dn(I, L.it, k)), keep=('PL', 'LV', 'NP', 'NV', 'nid'))
        def inv(I, L, k):
            if not any(o is net for o in L.written):
                return []
            return [('mesh of the pairs so far', known(dn(I, L.it, k))(net.st, x, y)), ('star unchanged', net.st.row(n) == row)]
        return Spec(name, match, havoc=havoc, inv=inv)

    def lo_of(I, it):
        """first position of the inner loop"""
        t = base_tag(it.tag)
        if t[0] == 'range':
            return zint(t[1])
        if t == ('star',):
            return z3.IntVal(0)
        if getattr(it.base, 'start', None) is not None:
            return it.base.start
        raise Undecided('inner loop')
    nested = lambda it: z3.simplify(lo_of(I, it)).get_id() != z3.IntVal(0).get_id()
    starlike = lambda it: base_tag(it.tag)[0] in ('range', 'star')
    fn = lambda I: any(q.endswith('eliminate_node') for q in I.cur_fn[-1:])

    def summing(I, it):
        return fn(I) and base_tag(it.tag)[0] == 'star' and it.tag[0] != 'enumerate' and not nested(it) and not I.__dict__.get('summed')

    def sum_havoc(I, L, k):
        for v in L.carried_num():
            havoc_num(I, L, v)

    def sum_inv(I, L, k):
        c = L.carried_num()
        if len(c) != 1:
            raise Undecided('sum of the conductances')
        return [('sum of the conductances so far', zreal(L.env.lookup(c[0])) == PS(k))]
    outer = lambda I, it, k: lambda lo, hi: lo < k
    inner = lambda I, it, k: (lambda first: lambda lo, hi: z3.Or(lo < first - 1, z3.And(lo == first - 1, hi < first + k)))(lo_of(I, it))
    sums = Spec('sum', summing, havoc=sum_havoc, inv=sum_inv, facts=lambda I, L, k: [PS(k + 1) == PS(k) + g(k)], after=lambda I, L: I.__dict__.__setitem__('summed', True))
    I.__dict__['summed'] = False
    I.loop_specs = [sums, mesh('inner', lambda I, it: fn(I) and starlike(it) and nested(it), inner), mesh('outer', lambda I, it: fn(I) and starlike(it) and not nested(it), outer)]

    def guarantee(I, m):
        I.prove('the node itself is removed', m == n)
        I.prove('consistent before the node is removed', consistent(net.st, x, y))
    net.guarantee = guarantee
    remove_contract(I, net)
    def total(I, it, start):
        if base_tag(it.tag) != ('star',) or it.guard is not None or not (isinstance(start, int) and start == 0):
            raise Undecided('sum')
        if isinstance(it.base, CompSeq) and it.base.filtered():
            raise Undecided('sum of some entries')
        k = I.fresh('k_sum', Z)
        I.assume(k >= 0, k < it.n)
        I.prove('the sum is over the conductances at the node', z3.And(zint(it.n) == LEN(row), zreal(it.elem(I, k)) == g(k)))
        return S
    I.ghost['sum'] = total
    method(I, net, nw, 'eliminate_node', n)
    s1 = final(net, nw)
    both = z3.And(x != n, y != n)
    heavy = z3.Or(S > z3.RealVal('1e-10'), S < z3.RealVal('-1e-10'))
    want = z3.If(z3.And(s0.H[n], both, x != y, member(x), member(y), heavy), s0.g(x, y) + MESH(x, y), z3.If(z3.And(s0.H[n], z3.Not(both)), z3.RealVal(0), s0.g(x, y)))
    I.prove('star-mesh equivalent', s1.g(x, y) == want)
    I.prove('the node is gone', z3.Implies(s0.H[n], z3.Not(s1.H[n])))
    I.prove('the other nodes are kept', z3.Implies(x != n, z3.And(s1.PL[x] == s0.PL[x], s1.LV[x] == s0.LV[x], s1.H[x] == s0.H[x])))
    I.prove('consistent', consistent(s1, x, y))


def star_mesh(I):
    """lemma: replacing a star by its mesh keeps the current into every neighbour, for all potentials: sum over the other neighbours of
    g(i) g(j) / s (V(i) - V(j)) = g(i) (V(i) - V(n)) where the currents at the eliminated node add up to zero.  By induction over the star"""
    gi, gk, vi, vk, pg, pv, s, u, vn = [I.fresh(n, R) for n in ('g_i', 'g_k', 'V_i', 'V_k', 'sum_g', 'sum_gV', 's', '1/s', 'Vn')]
    mesh = lambda pg, pv: gi * u * (vi * pg - pv)              # claim: the sum over the first k neighbours, with the prefix sums pg of g and pv of g V
    I.prove('induction: start', mesh(z3.RealVal(0), z3.RealVal(0)) == 0)
    I.prove('induction: step', mesh(pg, pv) + gi * gk * u * (vi - vk) == mesh(pg + gk, pv + gk * vk))
    # at the end pg = s, and Kirchhoff at the eliminated node, sum g(k) (V(k) - Vn) = 0, means pv = s Vn
    I.prove('the currents into the neighbours are kept', z3.Implies(s * u == 1, mesh(s, s * vn) == gi * (vi - vn)))


def connect_nodes(I):
    """requires: two different nodes.  ensures: every resistor of b (but the one to a) is one of a, in parallel to what a had; b is
    gone, everything else kept; consistent"""
    net, nw = start(I)
    a, b = I.fresh('a', Z), I.fresh('b', Z)
    net.access(I, a, b)
    x, y = pair(I, net, a, b)
    s0 = net.st
    p = I.fresh('p', PT)
    net.point(I, p)
    net.access(I, b, s0.NV[p])
    net.point(I, s0.LV[b])
    net.point(I, s0.LV[x])
    net.point(I, s0.LV[y])
    row = s0.row(b)
    I.assume(a != b, s0.PL[a], s0.PL[b], order(row, x), order(row, y))
    net.access(I, b, b)

    def known(k):
        def one(st, x, y):
            d = z3.And(x == b, done(row, k, y))
            moved = z3.And(x == a, y != b, y != a, done(row, k, y))
            r = st.s(x, y)
            return z3.And(z3.Implies(x == b, r == z3.If(d, z3.IntVal(0), s0.s(x, y))),
                          z3.Implies(z3.And(x == a, y != b, y != a), z3.And(st.g(x, y) == s0.g(x, y) + z3.If(done(row, k, y), s0.g(b, y), z3.RealVal(0)),
                                                                           r == z3.If(z3.And(moved, s0.s(x, y) == 0), s0.s(b, y), s0.s(x, y)))),
                          z3.Implies(z3.And(x != a, x != b, y != a, y != b), z3.And(r == s0.s(x, y), st.g(x, y) == s0.g(x, y))),
                          z3.Implies(z3.And(Row.nb(row)[y] != 0, z3.Not(done(row, k, y))), st.C[s0.s(b, y)] == s0.C[s0.s(b, y)]),
                          z3.Implies(z3.And(st.H[x], x != b), st.entry(x, y) == r), z3.Implies(r != 0, z3.And(st.H[x], r > 0, r < st.nref, x != y)),
                          z3.Implies(st.H[x], z3.And(st.PL[x], z3.Or(s0.H[x], x == a))), z3.Implies(s0.H[x], st.H[x]),
                          z3.Implies(x == b, st.row(x) == row), order(row, y), placed(st, x))
        def f(st, x, y):
            r = st.s(x, y)
            return z3.And(one(st, x, y), one(st, y, x), r == st.s(y, x), st.nref >= s0.nref,
                          z3.Implies(r != 0, z3.Or(z3.And(st.O1[r] == x, st.O2[r] == y), z3.And(st.O1[r] == y, st.O2[r] == x))))
        return f
    I.loop_specs = [Spec('connect', lambda I, it: base_tag(it.tag)[0] == 'star',
                         havoc=lambda I, L, k: (mark_havoc(L, net), net.havoc(I, 'connecting', known(k), pknown=None, keep=('PL', 'LV', 'NP', 'NV', 'nid'))) if L.written else None,
                         begin=lambda I, L, k: [net.access(I, q, NBR(row, k)) for q in (a, b, x, y)],
                         inv=lambda I, L, k: [('the resistors of the first neighbours are moved', known(k)(net.st, x, y)), ('the list is not modified meanwhile', net.st.row(b) == row)])]
    method(I, net, nw, 'connect_nodes', a, b)
    s1 = final(net, nw)
    I.assume(order(row, x), order(row, y))
    g = lambda x, y: z3.If(z3.Or(x == b, y == b), z3.RealVal(0), s0.g(x, y) + z3.If(z3.And(x == a, y != a), s0.g(b, y), z3.RealVal(0)) + z3.If(z3.And(y == a, x != a), s0.g(x, b), z3.RealVal(0)))
    I.prove('resistors of both, in parallel', z3.Implies(s0.H[b], s1.g(x, y) == g(x, y)))
    I.prove('an unconnected node: nothing happens', z3.Implies(z3.Not(s0.H[b]), s1.g(x, y) == s0.g(x, y)))
    I.prove('b is gone, the other nodes stay', z3.Implies(s0.H[b], z3.And(z3.Not(s1.H[b]), z3.Not(s1.PL[b]), unplaced(s0, s1, b, p), z3.Implies(x != b, z3.And(s1.PL[x] == s0.PL[x], s1.LV[x] == s0.LV[x])))))
    I.prove('consistent', z3.And(consistent(s1, x, y), at(s1, p)))


def maybe(I, name):
    """None or any number"""
    return None if I.branch(I.fresh(name + ' is None', B)) else I.fresh(name, Z)


def eliminate_all(I):
    """ensures: the network changes by eliminations of nodes that are not precious only; none of those is left connected.  The limit grows
    from round to round"""
    net, nw = start(I)
    z = I.fresh('z', Z)
    net.access(I, z, z)
    left = lambda: z3.And(net.st.H[z], z3.Not(Precious.IN(z)))

    def eliminate(I, a, k):
        n = zint(I.bind(I.repo(MOD, 'ResistorNetwork').mro_attr('eliminate_node')[1], a, k).vars['nid'])
        I.prove('no precious node is eliminated', z3.Not(Precious.IN(n)))
        s0 = net.st
        I.note_write(net)
        net.access(I, n, n)
        net.havoc(I, 'eliminated', lambda st, x, y: z3.And(consistent(st, x, y), z3.Not(st.H[n]), z3.Implies(x != n, st.H[x] == s0.H[x]), z3.Implies(y != n, st.H[y] == s0.H[y])))
        return None
    I.contracts[f'{MOD}:ResistorNetwork.eliminate_node'] = eliminate
    for f in ('remove_node', 'connect_nodes', 'add_cond', 'node_id'):
        def other(I, a, k):
            I.prove('nothing but eliminations', z3.BoolVal(False))
            raise PathEnd()
        I.contracts[f'{MOD}:ResistorNetwork.{f}'] = other

    has_while = lambda stmt: any(isinstance(x, ast.While) for b in stmt.body for x in ast.walk(b))
    fn = lambda it: it[1].endswith('eliminate_all')

    def limit(L): return limit_of(L.stmt)

    def limit_of(stmt):
        t = stmt.test
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and len(t.ops) == 1 and isinstance(t.ops[0], ast.IsNot):
            return t.left.id
        raise Undecided('outer loop of the elimination')

    def flag(L):
        if not isinstance(L.stmt.test, ast.Name):
            raise Undecided('inner loop of the elimination')
        return L.stmt.test.id
    LIMIT = []

    def numbers(I, L, but):
        for v in L.carried():
            if v not in but and isinstance(L.env.lookup(v), int) and not isinstance(L.env.lookup(v), bool) or is_sym(L.env.lookup(v)) and v not in but:
                havoc_num(I, L, v)
    any_net = lambda I, L, name: (mark_havoc(L, net), net.havoc(I, name, consistent)) if any(o is net for o in L.written) else None

    def outer_havoc(I, L, k):
        any_net(I, L, 'outer')
        v = limit(L)
        numbers(I, L, {v})
        set_local(L, v, maybe(I, v))

    def outer_inv(I, L, k):
        v = L.env.lookup(limit(L))
        return [('done when only precious nodes are left', z3.Not(left()) if v is None else z3.BoolVal(True))]

    def outer_begin(I, L, k): L.ghost['limit'] = L.env.lookup(limit(L))

    def outer_done(I, L, k):
        v = L.env.lookup(limit(L))
        I.prove('the limit grows', z3.BoolVal(True) if v is None else zint(v) > zint(L.ghost['limit']))
    def is_outer(I, it):
        if fn(it) and has_while(it[2]):
            LIMIT[:] = [limit_of(it[2])]
            return True
    outer = Spec('outer', is_outer, havoc=outer_havoc, inv=outer_inv, begin=outer_begin, done=outer_done)
    outer.is_while = True

    def inner_pre(I, L): L.ghost['limit'] = L.env.lookup(LIMIT[0])

    def inner_havoc(I, L, k):
        any_net(I, L, 'inner')
        f, v = flag(L), LIMIT[0]
        numbers(I, L, {f, v})
        b = I.branch(I.fresh(f, B))
        set_local(L, f, b)
        if b:
            set_local(L, v, L.ghost['limit'])
        else:
            n = maybe(I, v)
            set_local(L, v, n)

    def inner_inv(I, L, k):
        f, v, old = L.env.lookup(flag(L)), L.env.lookup(LIMIT[0]), L.ghost['limit']
        if not isinstance(f, bool):
            raise Undecided('flag')
        if f:
            return [('same limit', z3.BoolVal(v is old) if v is None or old is None else zint(v) == zint(old))]
        return [('ends with a higher limit, or with precious nodes only', z3.Not(left()) if v is None else zint(v) > zint(old))]
    inner = Spec('inner', lambda I, it: fn(it) and not has_while(it[2]), pre=inner_pre, havoc=inner_havoc, inv=inner_inv)
    inner.is_while = True

    def found(L):
        ls = [o for o in L.written if isinstance(o, (ListVal, SymList))]
        if len(ls) != 1:
            raise Undecided('list of the nodes to eliminate')
        return ls[0]

    def opt(L):
        c = [v for v in L.carried() if L.env.lookup(v) is None or is_num(L.env.lookup(v))]
        if len(c) != 1:
            raise Undecided('next limit')
        return c[0]

    def scan_pre(I, L):
        if not L.written:
            return
        L.ghost['next'], L.ghost['list'] = opt(L), found(L)
        I.assume(L.it.base.has(z))

    def scan_havoc(I, L, k):
        if not L.written:
            return
        o, v = L.ghost['list'], L.ghost['next']
        n = I.fresh('to_eliminate', Z)
        I.assume(n >= 0)
        E = z3.Function(f'to_eliminate.{I.fresh_n}', Z, Z)
        def get(I, i):
            e = E(zint(i))
            I.assume(z3.Implies(z3.And(zint(i) >= 0, zint(i) < n), z3.Not(Precious.IN(e))))
            return e
        mark_havoc(L, o)
        become_symlist(o, n, get, tag='to_eliminate')
        set_local(L, v, maybe(I, v))

    def scan_inv(I, L, k):
        if not L.written:
            return []
        o, v = L.ghost['list'], L.env.lookup(L.ghost['next'])
        n = zint(o.length(I)) if isinstance(o, SymList) else z3.IntVal(len(o.items))
        seq = L.it.base
        out = [('a node left is to be eliminated, or raises the limit', z3.Implies(z3.And(left(), seq.index(z) < k), z3.Or(n > 0, z3.BoolVal(v is not None))))]
        lim = L.env.lookup(LIMIT[0])
        if v is not None and lim is not None:
            out.append(('the next limit is higher', zint(v) > zint(lim)))
        return out

    def scan_done(I, L, k):
        if L.written:
            for t in L.ghost['list'].tail:
                I.prove('precious nodes are not to be eliminated', z3.Not(Precious.IN(zint(t))))

    scan = Spec('scan', lambda I, it: base_tag(it.tag) == ('node_to_s', 'keys'), pre=scan_pre, havoc=scan_havoc, inv=scan_inv, done=scan_done)
    each = Spec('eliminate', lambda I, it: base_tag(it.tag) == 'to_eliminate', havoc=lambda I, L, k: any_net(I, L, 'eliminating'))
    I.loop_specs = [outer, inner, scan, each]
    method(I, net, nw, 'eliminate_all')
    I.prove('only precious nodes are left', z3.Not(left()))


def self_check(I, good):
    """the loops of check(): errors are counted, never taken back"""
    net, nw = start(I, **({} if good else dict(known=lambda st, a, b: z3.And(st.nref > 0, order(st.row(a), b), order(st.row(b), a)), pknown=lambda st, p: z3.BoolVal(True))))
    x, y, z, w = [I.fresh(n, Z) for n in 'xyzw']
    q = I.fresh('q', PT)
    net.access(I, x, y)
    net.access(I, z, w)
    net.access(I, z, z)
    net.point(I, q)
    st = net.st
    row = st.row(z)
    bad = dict(locations=z3.And(st.PL[z], z3.Not(st.NP[st.LV[z]])), nodes=z3.And(st.NP[q], z3.Not(st.PL[st.NV[q]])),
               s=z3.And(st.s(x, y) != 0, z3.Or(st.s(y, x) == 0, z3.Not(st.H[x]), z3.Not(st.H[y]), st.entry(x, y) != st.s(x, y), st.entry(y, x) != st.s(x, y))),
               node_to_s=z3.And(st.H[z], st.entry(z, w) != 0, st.s(z, w) == 0))
    key = dict(locations=(z,), nodes=(q,), s=(x, y), node_to_s=(z,))

    def tag(it): return base_tag(it.tag)
    def pre(I, L):
        c = L.carried_num()
        if len(c) != 1:
            raise Undecided('error count')
        L.ghost['n'], L.ghost['entry'] = c[0], L.env.lookup(c[0])
        if tag(L.it)[0] in key:
            I.assume(L.it.base.has(*key[tag(L.it)[0]]))

    def seen(I, L, k):
        t = tag(L.it)[0]
        if t in key:
            return z3.And(bad[t], L.it.base.index(*key[t]) < k)
        r = L.it.base.row
        return z3.And(bad['node_to_s'], L.it.base.a == z, POS(r, w) < k)

    def inv(I, L, k):
        e, old = zint(L.env.lookup(L.ghost['n'])), zint(L.ghost['entry'])
        if good:
            return [('no error', e == 0)]
        return [('an inconsistency seen is counted', z3.And(e >= old, old >= 0, z3.Implies(seen(I, L, k), e >= 1)))]
    I.loop_specs = [Spec('check', lambda I, it: tag(it)[0] in ('star', *key), pre=pre, havoc=lambda I, L, k: havoc_num(I, L, L.ghost['n']), inv=inv)]
    r = zint(method(I, net, nw, 'check'))
    return net, bad, r


def check_passes(I):
    """requires: consistent.  ensures: the self check finds no error"""
    net, bad, r = self_check(I, True)
    I.prove('no errors in a consistent network', r == 0)


def check_finds(I):
    """ensures: any inconsistency (a resistor that is not seen from both ends, an entry without resistor, a node or location without
    counterpart) is found"""
    net, bad, r = self_check(I, False)
    for n, f in bad.items():
        I.prove(f'an inconsistency is found: {n}', z3.Implies(f, r >= 1))


def node_ids(I):
    """ensures: the ids of all nodes located on the edge, and no others"""
    net, nw = start(I)
    ON = z3.Function('on_edge', PT, B)
    edge = Record('edge', dict(contains=Builtin('contains', lambda I, a, k: ON(a[0]))))
    r = method(I, net, nw, 'node_ids', edge)
    if not isinstance(r, CompSeq) or base_tag(r.it.tag)[0] != 'nodes':
        raise Undecided('node_ids')
    k, q = I.fresh('k', Z), I.fresh('q', PT)
    I.assume(k >= 0, k < r.it.n)
    net.point(I, q)
    p, nid = r.it.elem(I, k) if isinstance(r.it.elem(I, k), tuple) else (None, None)
    if p is None:
        raise Undecided('node_ids')
    I.prove('nodes on the edge only', r.cond(I, k) == ON(p))
    I.prove('their ids', zint(r.at(I, k)) == net.st.NV[p])


class Vec(Model):
    """a point or vector of the plane"""
    kind = 'Vec'

    def __init__(self, x, y):
        super().__init__()
        self.x, self.y = x, y

    def a_x(self, I): return self.x
    def a_y(self, I): return self.y

    def binop(self, I, op, o, refl):
        if isinstance(o, Vec) and op in ('Add', 'Sub'):
            a, b = (o, self) if refl else (self, o)
            return Vec(a.x - b.x, a.y - b.y) if op == 'Sub' else Vec(a.x + b.x, a.y + b.y)
        if isinstance(o, Vec) and op == 'Mult':
            return self.m_sprod(I, o)
        if op == 'Mult' and is_num(o):
            t = I.fresh('t', R)
            I.assume(t == zreal(o))
            I.ghost.setdefault('factors', []).append(t)
            return Vec(self.x * t, self.y * t)
        raise Undecided(f'vector {op}')

    def m_sq_length(self, I): return self.x * self.x + self.y * self.y
    def m_sprod(self, I, o): return self.x * o.x + self.y * o.y
    def m_vprod(self, I, o): return self.x * o.y - self.y * o.x
    def eq(self, I, o): return z3.And(self.x == o.x, self.y == o.y)


def dot(a, b, c): return (b.x - a.x) * (c.x - a.x) + (b.y - a.y) * (c.y - a.y)
def sq(a, b): return dot(a, b, b)
def obtuse(p, q, r): return sq(p, r) + sq(q, r) < sq(p, q) * (1 - z3.RealVal('1e-10'))      # at r


def corners(I):
    return [Vec(I.fresh(f'x{i}', R), I.fresh(f'y{i}', R)) for i in range(3)]


def skinny(I):
    """ensures: the number of the first corner of the longest side of an obtuse triangle, none for others"""
    ps = corners(I)
    r = I.call(I.repo(MOD, 'ResistorNetwork.is_skinny_tri'), [ListVal(ps)])
    if r is None:
        for i in range(3):
            I.prove('not obtuse', z3.Not(obtuse(ps[i], ps[(i + 1) % 3], ps[(i + 2) % 3])))
    elif isinstance(r, int) and not isinstance(r, bool) and 0 <= r < 3:
        I.prove('obtuse, opposite the side from this corner to the next', obtuse(ps[r], ps[(r + 1) % 3], ps[(r + 2) % 3]))
    elif isinstance(r, bool):
        # a number all the same in Python
        I.prove('obtuse, opposite the side from this corner to the next', obtuse(ps[int(r)], ps[(int(r) + 1) % 3], ps[(int(r) + 2) % 3]))
    else:
        raise Undecided('result of is_skinny_tri')


def expand(I):
    """ensures: a triangle that is not obtuse stays; an obtuse one is cut along its height into two right-angled ones that cover it
    (coordinates exact; KLayout rounds to integers)"""
    ps = corners(I)
    made = []
    def polygon(I, a, k):
        made.append(I.to_items(a[0]))
        return Record('triangle', dict(pts=made[-1]))
    I.externals['klayout.db.Polygon'] = Builtin('Polygon', polygon)
    p = Record('triangle', dict(each_point_hull=Builtin('each_point_hull', lambda I, a, k: ListVal(ps))))
    case = I.choose(4)
    # the contract of is_skinny_tri: the corner opposite the side from here to the next is obtuse (used in the last lemmas)
    if case < 3:
        I.assume(sq(ps[case], ps[(case + 1) % 3]) > 0)
    I.contracts[f'{MOD}:ResistorNetwork.is_skinny_tri'] = lambda I, a, k: case if case < 3 else None
    r = I.call(I.repo(MOD, 'ResistorNetwork.expand_skinny_tris'), [p])
    out = I.to_items(r)
    if case == 3:
        I.prove('other triangles stay', z3.BoolVal(len(out) == 1 and out[0] is p))
        return
    if not (len(out) == 2 and all(isinstance(t, Record) and 'pts' in t.fields and len(t.fields['pts']) == 3 for t in out)):
        I.prove('two triangles', z3.BoolVal(False))
        return
    t1, t2 = [t.fields['pts'] for t in out]
    old = lambda v: any(v is c for c in ps)
    new = [v for v in t1 if not old(v)]
    if len(new) != 1 or not any(v is new[0] for v in t2):
        raise Undecided('cut of a triangle')
    foot = new[0]
    apex = [v for v in t1 if old(v) and any(v is u for u in t2)]
    q1, q2 = [v for v in t1 if old(v) and v not in apex], [v for v in t2 if old(v) and v not in apex]
    if not (len(apex) == len(q1) == len(q2) == 1):
        I.prove('each with the apex and one end of the longest side', z3.BoolVal(False))
        return
    c, a, b = apex[0], q1[0], q2[0]
    I.prove('the apex is the obtuse corner', z3.BoolVal(c is ps[(case + 2) % 3] and a is not b))
    ts = I.ghost.get('factors', [])
    if len(ts) != 1:
        raise Undecided('foot of the height')
    t = ts[0]
    L2, la, lb, d = [I.fresh(n, R) for n in ('side2', 'la', 'lb', 'd')]
    I.prove('law of cosines', sq(b, c) == sq(a, c) + sq(a, b) - 2 * dot(a, b, c))
    # abstraction of the squared lengths: the rest is linear
    tt = z3.If(z3.BoolVal(ps[case] is b), t, 1 - t)
    I.prove('foot of the height on the longest side', z3.And(foot.x == a.x + tt * (b.x - a.x), foot.y == a.y + tt * (b.y - a.y)))
    lemma(I, a, b, c, tt)


def lemma(I, a, b, c, t):
    """0 <= t <= 1 and the cut is along the height, given t |ab|^2 = ab.ac and the obtuse angle at c"""
    n, la, lb, d = [I.fresh(x, R) for x in ('ab2', 'ac2', 'bc2', 'ab.ac')]
    from_squares = z3.And(la >= 0, lb >= 0, la + lb < n * (1 - z3.RealVal('1e-10')), lb == la + n - 2 * d)
    I.prove('the foot is within the side', z3.Implies(from_squares, z3.And(n > 0, d >= 0, d <= n)))
    I.assume(n == sq(a, b), d == dot(a, b, c), n > 0)
    I.prove('cut along the height', t * n == d)


def find_nodes(I):
    """ensures: the nodes of all networks located in the search area, each with its network, and no others"""
    net = Net(I)
    I.roots = [net]
    IN = z3.Function('inside', PT, B)
    n, c = I.fresh('networks', Z), z3.Function('nodes', Z, Z)
    PTS, IDS = z3.Function('point_of', Z, Z, PT), z3.Function('id_of', Z, Z, Z)
    made = {}
    def network(i):
        i = zint(i)
        key = i.sexpr()
        if key not in made:
            items = lambda I, a, k: SymSeq(('nodes', i), c(i), lambda I, j: (PTS(i, zint(j)), IDS(i, zint(j))))
            made[key] = Record(f'network {key}', dict(nodes=Record('nodes', dict(items=Builtin('items', items)))), ident=i)
            made[key].i = i
        return made[key]
    nws = Obj(I.repo(MOD, 'ResistorNetworks'), dict(layer_name=I.fresh('layer', PT), layer_sheet_resistance=I.fresh('r', R), networks=SymSeq('networks', n, lambda I, i: network(i))))
    area = Record('polygon', dict(inside=Builtin('inside', lambda I, a, k: IN(a[0]))))
    def the(L):
        ls = [o for o in L.written if isinstance(o, (ListVal, SymList))]
        if len(L.written) != 1 or len(ls) != 1:
            raise Undecided('list of matches')
        return ls[0]
    def havoc(I, L, k):
        if L.written:
            m = I.fresh('found', Z)
            I.assume(m >= 0)
            mark_havoc(L, the(L))
            become_symlist(the(L), m, lambda I, i: Hidden(), tag='matches')
    def done(I, L, k):
        if not L.written:
            return
        new = the(L).tail
        t = base_tag(L.it.tag)
        if t == 'networks':
            I.prove('matches come from the nodes of a network', z3.BoolVal(not new))
            I.prove('the nodes of every network are searched', (lambda t: z3.BoolVal(False) if t is None else zint(t) == k)(I.ghost.pop('searched', None)))
            return
        p, i = PTS(t[1], k), IDS(t[1], k)
        if not new:
            I.prove('no node in the area is left out', z3.Not(IN(p)))
        else:
            e = new[0]
            ok = len(new) == 1 and isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], Record) and hasattr(e[0], 'i')
            I.prove('a node in the area, once, with its network', z3.And(z3.BoolVal(ok), IN(p), *([e[0].i == t[1], zint(e[1]) == i] if ok else [])))
    def after(I, L):
        t = base_tag(L.it.tag)
        if t != 'networks':
            I.ghost['searched'] = t[1]
    I.loop_specs = [Spec('find', lambda I, it: base_tag(it.tag) == 'networks' or base_tag(it.tag)[0] == 'nodes', havoc=havoc, done=done, after=after)]
    f = I.repo(MOD, 'ResistorNetworks').mro_attr('find_network_nodes')
    I.ghost['searched'] = None
    I.call(BoundMethod(f[1], nws), [area])


def conductance(I):
    """ensures: parallel conductances add up, serial ones are 1 / (1/a + 1/b) (0 if either is at most 1e-10); the copying forms leave
    their operands alone"""
    cls = I.repo(CMOD, 'Conductance')
    a, b = I.fresh('a', R), I.fresh('b', R)
    I.assume(a >= 0, b >= 0)
    tiny = z3.RealVal('1e-10')
    for name, in_place, want in (('add_parallel', True, lambda r: r == a + b), ('parallel', False, lambda r: r == a + b),
                                 ('add_serial', True, lambda r: z3.And(z3.Implies(z3.Or(a == 0, b == 0), r == 0), r * (a + b) >= a * b - tiny * (a + b), r * (a + b) <= a * b + tiny * (a + b))),
                                 ('serial', False, lambda r: z3.And(z3.Implies(z3.Or(a == 0, b == 0), r == 0), r * (a + b) >= a * b - tiny * (a + b), r * (a + b) <= a * b + tiny * (a + b)))):
        x, y = I.call(cls, [a]), I.call(cls, [b])
        r = I.call(BoundMethod(cls.mro_attr(name)[1], x), [y])
        I.prove(f'{name}: value', want(zreal(r.fields['cond'])))
        I.prove(f'{name}: operands', z3.And(zreal(y.fields['cond']) == b, z3.BoolVal(r is x) if in_place else zreal(x.fields['cond']) == a, z3.BoolVal(r is x or not in_place)))
    z = I.call(cls, [])
    I.prove('none by default', zreal(z.fields['cond']) == 0)


HARNESSES = [('init', init), ('node_id', node_id), ('add_cond', add_cond), ('remove_node', remove_node), ('eliminate_node', eliminate_node), ('star_mesh', star_mesh),
             ('connect_nodes', connect_nodes), ('eliminate_all', eliminate_all), ('check_passes', check_passes),
             ('check_finds', check_finds), ('node_ids', node_ids), ('skinny', skinny), ('expand', expand),
             ('find_nodes', find_nodes), ('conductance', conductance)]
