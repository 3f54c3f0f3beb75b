import re as _re
from .netlist import *

MOD = 'klayout_pex.klayout.netlist_expander'
CM = 'klayout_pex.common.capacitance_matrix'
ASSUMPTIONS = ['klayout.db netlist API as documented (see contracts/netlist.py); net names of a circuit are unique',
               'conductor names have the form g<number>_<net>; the regular expression is tried on sample names',
               'precondition: the conductors name pairwise different nets of the top circuit',
               'sums and differences of floats treated as exact']
CN = z3.Function('conductor_net', Z, NAME)
ROWSUM = z3.Function('offdiag_sum', Z, Z, R)       # sum over t < j, t != i of M[i][t]
SAMPLES = [('g0_VSUBS', 'VSUBS'), ('g1_A', 'A'), ('g12_net_1', 'net_1'), ('g3_g4_x', 'g4_x'), ('g7_a,b', 'a,b'),
           ('g8_$3', '$3'), ('g9_x.y[2]', 'x.y[2]'), ('g10_', '')]


class CondName(Model):
    kind = 'CondName'

    def __init__(self, i):
        super().__init__()
        self.i = i


class Pattern(Model):
    kind = 'Pattern'

    def __init__(self, p, flags):
        super().__init__()
        self.p = _re.compile(p, *flags)

    def do(self, I, how, nn):
        if not isinstance(nn, CondName):
            raise Undecided('pattern on something else')
        for grp in (1, 2, 3):
            try:
                if all(getattr(self.p, how)(a).group(grp) == b for a, b in SAMPLES):
                    break
            except (AttributeError, IndexError):
                continue
        else:
            raise Undecided('pattern does not recognise conductor names')

        class M(Model):
            kind = 'Match'
            def m_group(self, I, n=0):
                if n != grp:
                    raise Undecided('group')
                I.ghost['conductor'](I, nn.i)
                return CN(nn.i)
            def getitem(self, I, n): return self.m_group(I, n)
        return M()

    def m_match(self, I, nn): return self.do(I, 'match', nn)
    def m_fullmatch(self, I, nn): return self.do(I, 'fullmatch', nn)
    def m_search(self, I, nn): return self.do(I, 'search', nn)


def scene(I):
    nl, tr, otr = setup_netlist(I)
    n = I.fresh('n', Z)
    M = I.fresh('M', Mat.SORT)
    I.assume(n >= 0)
    names = SymSeq('conductors', n, lambda I, i: CondName(zint(i)))
    cm = Obj(I.repo(CM, 'CapacitanceMatrix'), {'conductor_names': names, 'rows': Mat(M, n, n)})
    I.externals['re.compile'] = Builtin('re.compile', lambda I, a, k: Pattern(a[0], a[1:]))
    for how in ('match', 'fullmatch', 'search'):
        I.externals['re.' + how] = Builtin('re.' + how, (lambda how: lambda I, a, k: Pattern(a[0], a[2:]).do(I, how, a[1]))(how))
    return nl, tr, otr, n, M, cm


def device(I, d, what, cname, a, b, par, val):
    I.prove(f'{what}: class', z3.BoolVal(d.cls.created == ('Capacitor' if par == 'C' else 'Resistor')))
    I.prove(f'{what}: connects the two nets', z3.And(z3.BoolVal(set(d.term) == {'A', 'B'}),
            d.term['A'].n == a, d.term['B'].n == b) if set(d.term) == {'A', 'B'} else z3.BoolVal(False))
    I.prove(f'{what}: value', zreal(d.par[par]) == val if set(d.par) == {par} else z3.BoolVal(False))
    if cname is not None:
        I.prove(f'{what}: name', z3.BoolVal(isinstance(d.dname, (str, StrCat))) if cname is True else cname(d.dname))


def idx_name(i, j):
    def f(nm):
        p = nm.parts if isinstance(nm, StrCat) else (nm,)
        if len(p) == 4 and p[0] == 'Cext_' and p[2] == '_' and isinstance(p[1], Fmt) and isinstance(p[3], Fmt):
            return z3.And(zint(p[1].v) == i, zint(p[3].v) == j)
        return z3.BoolVal(False)
    return f


def expand(I):
    """requires: netlist, matrix, conductors naming different nets.  ensures: result is a copy; iff not blackboxing every
    device is removed; for i < j one capacitor of value -M[i][j] between nets i and j iff that is > 0; for i > 0 one
    capacitor of value sum of row i between nets i and 0 iff that is > 0; no others; FC_GND and VSUBS tied to GND (0 ohm)"""
    nl, tr, otr, n, M, cm = scene(I)
    black = I.fresh('blackbox', B)
    i1, i2, t = z3.Ints('i1 i2 t')
    base = I.ghost['mkcircuit']

    def mk(I, nl):
        c = base(I, nl)
        start = c.names
        vs = I.literal('VSUBS', NAME)
        IDX = z3.Function('conductor_of', NAME, Z)
        # the precondition, instantiated for every conductor that is looked at
        I.ghost['conductor'] = lambda I, i: I.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(
            z3.Or(start[CN(i)], CN(i) == vs), IDX(CN(i)) == i)))
        return c
    I.ghost['mkcircuit'] = mk

    def ix(L, k):
        it, tg = L.it, L.it.tag
        if isinstance(tg, tuple) and tg[0] == 'range':
            return zint(tg[1]) + k
        return k

    def ranged(it):
        b = it.tag[1] if isinstance(it.tag, tuple) and it.tag[0] == 'enumerate' else it.tag
        return isinstance(b, tuple) and b[0] == 'range' or b in ('matrix.rows', 'matrix.row')

    def in_pair(I): return [x for x in I.loop_stack if x[0] in (outer, inner)]

    # ---- inner loop: row i, columns seen so far
    def in_inv(I, L, k):
        i, j = L.ghost['i'], ix(L, k)
        return [('start of the columns', ix(L, z3.IntVal(0)) == 0)] + \
            [('the remainder is the diagonal plus the off-diagonals seen so far', L.ghost['num'](L) == M[i][i] + ROWSUM(i, j))]

    def in_havoc(I, L, k):
        c = L.carried_num()
        c = [v for v in c if v not in L.ghost.get('targets', ())]
        if len(c) != 1:
            raise Undecided('inner loop carries something else')
        havoc_num(I, L, c[0])
        L.ghost['num'] = lambda L: zreal(L.env.lookup(c[0]))

    def in_pre(I, L):
        o = [x for x in I.loop_stack if x[0] is outer]
        if len(o) != 1:
            raise Undecided('nesting')
        L.ghost['i'] = ix(o[0][3], o[0][2]) if o[0][3] is not None else zint(o[0][2])
        I.assume(ROWSUM(L.ghost['i'], 0) == 0)
        c = L.carried_num()
        L.ghost['num'] = lambda L: zreal(L.env.lookup(c[0])) if len(c) == 1 else _no('carried')

    def in_facts(I, L, k):
        i, j = L.ghost['i'], ix(L, k)
        return [ROWSUM(i, 0) == 0, ROWSUM(i, j + 1) == ROWSUM(i, j) + z3.If(j == i, z3.RealVal(0), M[i][j])]

    def in_check(I, L, k, ev):
        i, j = L.ghost['i'], ix(L, k)
        want = z3.And(j > i, -M[i][j] > 0)
        devs = [e[1] for e in ev if e[0] == 'device']
        I.prove('cell: nothing but at most one capacitor', z3.BoolVal(len(devs) == len(ev) <= 1))
        if devs:
            I.prove('cell: only a cell right of the diagonal with a positive coupling makes a capacitor', want)
            device(I, devs[0], 'coupling', idx_name(i, j), CN(i), CN(j), 'C', -M[i][j])
        else:
            I.prove('cell: a positive coupling right of the diagonal makes a capacitor', z3.Not(want))
    class Inner(TraceSpec):
        def inv(self, I, L, k): return in_inv(I, L, k)
        def facts(self, I, L, k): return in_facts(I, L, k)
    inner = Inner('columns', lambda I, it: len(in_pair(I)) == 1 and ranged(it), tr, in_check, pre=in_pre, also_havoc=in_havoc)
    inner.exit_facts = lambda I, L, k: []

    def out_check(I, L, k, ev):
        i = ix(L, k)
        tot = M[i][i] + ROWSUM(i, n)
        want = z3.And(i > 0, tot > 0)
        lp = [e for e in ev if e[0] == 'loop']
        devs = [e[1] for e in ev if e[0] == 'device']
        I.prove('row: one pass over the columns and at most one capacitor',
                z3.BoolVal(len(lp) == 1 and len(devs) <= 1 and len(lp) + len(devs) == len(ev)))
        if lp:
            I.prove('row: the pass covers all columns', z3.And(ix(lp[0][2], z3.IntVal(0)) == 0, zint(lp[0][2].it.n) == n))
        if devs:
            I.prove('row: only a positive remainder of a row i > 0 makes a capacitor to conductor 0', want)
            device(I, devs[0], 'remainder', idx_name(i, i), CN(i), CN(z3.IntVal(0)), 'C', tot)
        else:
            I.prove('row: a positive remainder of a row i > 0 makes a capacitor', z3.Not(want))
    outer = TraceSpec('rows', lambda I, it: not in_pair(I) and ranged(it), tr, out_check)
    dev = AutoTrace('devices', tr, removal_loops(tr, lambda I, k: z3.BoolVal(True)),
                    match=lambda I, it: base_tag(it.tag) in ('devices', 'devices.live'))
    I.loop_specs = [dev, inner, outer]
    auto(I)
    res = I.call(I.repo(MOD, 'NetlistExpander.expand'), [nl, 'TOP', cm, black])
    I.prove('the result is a copy of the argument', z3.BoolVal(isinstance(res, Netlist) and res.orig is nl))
    I.prove('the argument is not modified', z3.BoolVal(otr.events == []))
    ev = list(tr.events)
    if ev and ev[0][0] == 'loop' and ev[0][1] == 'devices':
        I.prove('devices are only removed when not blackboxing', z3.Not(black))
        I.prove('the removal covers every device', zint(ev[0][2].it.n) == res.circ.nd)
        ev.pop(0)
    else:
        I.prove('devices are removed when not blackboxing', black)
    rows = [e for e in ev if e[0] == 'loop' and e[1] == 'rows']
    devs = [e[1] for e in ev if e[0] == 'device']
    I.prove('one pass over the rows, then the ties', z3.BoolVal(len(rows) == 1 and len(devs) == 2 and len(ev) == 3))
    if rows:
        I.prove('the pass covers all rows', z3.And(ix(rows[0][2], z3.IntVal(0)) == 0, zint(rows[0][2].it.n) == n))
    lit = lambda s: I.literal(s, NAME)
    if len(devs) == 2:
        first = devs[0].term.get('A')
        if first is not None and first.n.eq(lit('VSUBS')):
            devs.reverse()
        device(I, devs[0], 'tie', None, lit('FC_GND'), lit('GND'), 'R', z3.RealVal(0))
        device(I, devs[1], 'tie', None, lit('VSUBS'), lit('GND'), 'R', z3.RealVal(0))
    names = res.circ.names
    x = z3.Const('x', NAME)
    I.prove('nets: the old ones and FC_GND, VSUBS, GND',
            z3.ForAll([x], names[x] == z3.Or(res.circ.start[x], x == lit('FC_GND'), x == lit('VSUBS'), x == lit('GND'))))


def _no(m): raise Undecided(m)


def unknown_net(I):
    """a conductor that names no net of the circuit is rejected"""
    nl, tr, otr, n, M, cm = scene(I)
    bad = I.fresh('bad', Z)
    I.ghost['conductor'] = lambda I, i: None
    base = I.ghost['mkcircuit']

    def mk(I, nl):
        c = base(I, nl)
        I.assume(bad >= 0, bad < n, z3.Not(c.names[CN(bad)]))
        for s in ('FC_GND', 'VSUBS', 'GND'):
            I.assume(CN(bad) != I.literal(s, NAME))
        return c
    I.ghost['mkcircuit'] = mk
    reached = []
    I.loop_specs = [AutoTrace('devices', tr, lambda *a: None, match=lambda I, it: base_tag(it.tag) in ('devices', 'devices.live')),
                    Spec('names', lambda I, it: base_tag(it.tag) == 'conductors', inv=lambda I, L, k: [
                        ('conductors passed so far name nets', z3.ForAll([z3.Int('c?')], z3.Implies(
                            z3.And(z3.Int('c?') >= 0, z3.Int('c?') < k), z3.Int('c?') != bad)))],
                        havoc=lambda I, L, k: [(become_symlist(o, k, lambda I, i: _no('x')), mark_havoc(L, o)) for o in L.written]),
                    TraceSpec('rest', lambda I, it: True, tr, lambda *a: None)]
    try:
        I.call(I.repo(MOD, 'NetlistExpander.expand'), [nl, 'TOP', cm, True])
    except PyRaise:
        I.prove('rejected', z3.BoolVal(True))
        return
    I.prove('rejected', z3.BoolVal(False))


HARNESSES = [('expand', expand), ('unknown_net', unknown_net)]
