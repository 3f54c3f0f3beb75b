from .common import *
from .rcx import recorded

MOD = 'klayout_pex.rcx25.extraction_results'
ASSUMPTIONS = ['net names are modelled as elements of a totally ordered set (str < is a total order consistent with ==)',
               'sums of floats treated as exact', 'node ids of a resistor network are unique, elements refer to its nodes',
               'defaultdict(float), dict.items as documented']
RR = z3.ArraySort(R, z3.ArraySort(R, R))
RB = z3.ArraySort(R, z3.ArraySort(R, B))


class AccMap(Model):
    """Dict[NetCoupleKey, float]; only what it says about couple X (and X reversed) is ever needed"""
    kind = 'AccMap'

    def __init__(self, I, val=None, has=None, default=True):
        super().__init__()
        self.val = z3.K(R, z3.K(R, z3.RealVal(0))) if val is None else val
        self.has = z3.K(R, z3.K(R, z3.BoolVal(False))) if has is None else has
        self.default = default

    def key(self, k):
        if isinstance(k, Obj) and getattr(k.cls, 'name', '') == 'NetCoupleKey':
            return zreal(k.fields['net1']), zreal(k.fields['net2'])
        raise Undecided(f'key {k!r}')

    def V(self, a, b): return z3.If(self.has[a][b], self.val[a][b], z3.RealVal(0))

    def put(self, I, a, b, v):
        I.note_write(self)
        self.val = z3.Store(self.val, a, z3.Store(self.val[a], b, zreal(v)))
        self.has = z3.Store(self.has, a, z3.Store(self.has[a], b, True))

    def getitem(self, I, k):
        a, b = self.key(k)
        v = self.V(a, b)
        if self.default:
            self.put(I, a, b, v)
        else:
            I.guard(self.has[a][b], 'KeyError')
        return v

    def setitem(self, I, k, v): self.put(I, *self.key(k), v)
    def contains(self, I, k): return self.has[self.key(k)[0]][self.key(k)[1]]

    def m_get(self, I, k, default=None):
        a, b = self.key(k)
        if default is None:
            return self.val[a][b] if I.branch(self.has[a][b]) else None
        return z3.If(self.has[a][b], self.val[a][b], zreal(default))

    def snapshot(self): return None

    def it(self, I, what):
        n = I.fresh('nkeys', Z)
        I.assume(n >= 0)
        K1, K2 = z3.Function(f'k1_{n}', Z, R), z3.Function(f'k2_{n}', Z, R)
        IDX = z3.Function(f'idx_{n}', R, R, Z)
        val, has = self.val, self.has
        for a, b in both(I):
            i = IDX(a, b)
            I.assume(z3.Implies(has[a][b], z3.And(i >= 0, i < n, K1(i) == a, K2(i) == b)))

        def key(I, i):
            i = zint(i)
            I.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(has[K1(i)][K2(i)], IDX(K1(i), K2(i)) == i)))
            return Obj(I.repo(MOD, 'NetCoupleKey'), {'net1': K1(i), 'net2': K2(i)})

        def value(I, i):
            i = zint(i)
            return val[K1(i)][K2(i)]
        r = IterSpec((what, 'accmap'), n, {'items': lambda I, i: (key(I, i), value(I, i)), 'keys': key,
                                           'values': value}[what], base=self)
        # what the couples processed so far contribute
        r.done = lambda a, b, k: z3.And(has[a][b], IDX(a, b) < k)
        r.part = lambda a, b, k: z3.If(r.done(a, b, k), val[a][b], z3.RealVal(0))
        r.whole = has, val
        return r

    def m_items(self, I): return self.it(I, 'items')
    def m_keys(self, I): return self.it(I, 'keys')
    def iterate(self, I): return self.it(I, 'keys')
    def m_copy(self, I): return AccMap(I, self.val, self.has, self.default)


def X(I):
    if 'X' not in I.ghost:
        I.ghost['X'] = (I.fresh('xa', R), I.fresh('xb', R))
    return I.ghost['X']


def both(I):
    a, b = X(I)
    return (a, b), (b, a)


def view(I, m):
    """(has[X], value[X]) of a dictionary"""
    if isinstance(m, AccMap):
        a, b = X(I)
        return m.has[a][b], m.V(a, b)
    if isinstance(m, DictVal) and not m.pairs:
        return z3.BoolVal(False), z3.RealVal(0)
    raise Undecided(f'dictionary {m!r}')


def rview(I, m):
    a, b = X(I)
    return m.has[b][a], m.V(b, a)


def unordered(I, o, s):
    """nothing is stored under the reversed key"""
    a, b = X(I)
    return ('nothing new under the reversed key', z3.Implies(a < b, z3.And(o.has[b][a] == s[0], o.V(b, a) == s[1])))


def normed_view(I, m):
    """the same after its keys are put in order: what belongs to the couple X"""
    a, b = X(I)
    if isinstance(m, DictVal) and not m.pairs:
        return z3.BoolVal(False), z3.RealVal(0)
    if not isinstance(m, AccMap):
        raise Undecided(f'dictionary {m!r}')
    has = z3.Or(m.has[a][b], m.has[b][a])
    val = z3.If(a == b, m.V(a, b), m.V(a, b) + m.V(b, a))
    return z3.And(a <= b, has), z3.If(a <= b, val, z3.RealVal(0))


class Acc(Spec):
    """loop that adds to dictionaries.  seen(I, L, k) / total(I, L, k): what the first k iterations give to couple X,
    per written dictionary relative to its state before"""

    def __init__(self, name, match, total, seen, facts=None):
        super().__init__(name, match, facts=facts)
        self.total, self.seen = total, seen

    def pre(self, I, L):
        for o in L.written:
            if not isinstance(o, AccMap):
                raise Undecided(f'{self.name}: writes {o!r}')
        if len(L.written) > 1:
            raise Undecided(f'{self.name}: writes several dictionaries')
        L.ghost['start'] = [view(I, o) for o in L.written]
        L.ghost['rstart'] = [rview(I, o) for o in L.written]
        L.ghost['nums'] = {}

    def havoc(self, I, L, k):
        for o in L.written:
            o.val, o.has = I.fresh('val', RR), I.fresh('has', RB)
        mark_havoc(L, *L.written)
        for n in L.ghost['nums']:
            havoc_num(I, L, n)

    def inv(self, I, L, k):
        a, b = X(I)
        out = [unordered(I, o, s) for o, s in zip(L.written, L.ghost['rstart'])]
        out += [('nothing belongs to a couple that is not in order', z3.Implies(a > b, z3.And(z3.Not(self.seen(I, L, k)), self.total(I, L, k) == 0)))]
        for o, (h0, v0) in zip(L.written, L.ghost['start']):
            h, v = view(I, o)
            out += [('couple X holds what the entries so far add up to', v == v0 + self.total(I, L, k)),
                    ('couple X is there iff an entry so far names it', h == z3.Or(h0, self.seen(I, L, k)))]
        return out


# --------------------------------------------------------------------------------------------------------------- merged
def acc_items():
    """iteration over the items of a dictionary: what belongs to X once keys are put in order"""
    def total(I, L, k):
        a, b = X(I)
        p = L.it.part
        return z3.If(a <= b, z3.If(a == b, p(a, b, k), p(a, b, k) + p(b, a, k)), z3.RealVal(0))

    def seen(I, L, k):
        a, b = X(I)
        d = L.it.done
        return z3.And(a <= b, z3.Or(d(a, b, k), d(b, a, k)))
    return Acc('items', lambda I, it: isinstance(it.base, AccMap), total, seen)


def merged(I):
    """requires: any list of summaries.  ensures: for every ordered couple the result holds, for capacitances and for
    resistances, the sum over the summaries of the entries of that couple in either order; nothing under other keys"""
    n = I.fresh('n', Z)
    I.assume(n >= 0)
    cls = I.repo(MOD, 'ExtractionSummary')
    F = {w: (z3.Function('val_' + w, Z, RR), z3.Function('has_' + w, Z, RB)) for w in ('c', 'r')}

    def summary(I, i):
        return Obj(cls, {f: AccMap(I, F[w][0](zint(i)), F[w][1](zint(i)), False)
                         for f, w in (('capacitances', 'c'), ('resistances', 'r'))})
    I.ghost['defaultdict'] = lambda I, f: AccMap(I) if isinstance(f, Builtin) and f.name == 'float' else None
    tot = {w: z3.Function('T_' + w, Z, R) for w in F}
    see = {w: z3.Function('S_' + w, Z, B) for w in F}

    def step(I, w, i):
        h, v = normed_view(I, AccMap(I, F[w][0](i), F[w][1](i), False))
        return [tot[w](0) == 0, see[w](0) == False, tot[w](i + 1) == tot[w](i) + v, see[w](i + 1) == z3.Or(see[w](i), h)]  # noqa: E712

    class Summaries(Acc):
        """the dictionaries collected so far, capacitances and resistances told apart by what one iteration adds"""
        def pre(self, I, L):
            if any(not isinstance(o, AccMap) for o in L.written) or len(L.written) > 2:
                raise Undecided('merging writes something else')
            L.ghost['start'] = [view(I, o) for o in L.written]
            L.ghost['rstart'] = [rview(I, o) for o in L.written]
            L.ghost['nums'] = {}
            L.ghost['w'] = ['c', 'r'] if len(L.written) == 2 else [I.ghost.get('only', 'c')]
            if I.ghost.get('swap'):
                L.ghost['w'].reverse()

        def facts(self, I, L, k): return [f for w in F for f in step(I, w, k)] + [f for w in F for f in step(I, w, z3.IntVal(0))[:2]]

        def inv(self, I, L, k):
            a, b = X(I)
            out = [unordered(I, o, s) for o, s in zip(L.written, L.ghost['rstart'])]
            out += [('nothing belongs to a couple that is not in order', z3.Implies(a > b, z3.And(z3.Not(see[w](k)), tot[w](k) == 0))) for w in F]
            for o, (h0, v0), w in zip(L.written, L.ghost['start'], L.ghost['w']):
                h, v = view(I, o)
                out += [('sum of the summaries so far', v == v0 + tot[w](k)), ('key there iff in a summary so far', h == z3.Or(h0, see[w](k)))]
            return out
    for w in F:
        I.assume(*step(I, w, z3.IntVal(0))[:2])
    I.loop_specs = [acc_items(), Summaries('summaries', lambda I, it: base_tag(it.tag) == 'summaries', None, None)]
    seq = SymSeq('summaries', n, summary)
    res = I.call(I.repo(MOD, 'ExtractionSummary.merged'), [cls, seq])
    for f, w in (('capacitances', 'c'), ('resistances', 'r')):
        h, v = view(I, res.fields[f])
        I.prove(f'{f} of a couple are the sum over the summaries', v == tot[w](n))
        I.prove(f'{f}: a couple is there iff a summary has it (in either order)', h == see[w](n))
        I.prove(f'{f}: nothing under a key that is not in order', z3.Implies(X(I)[0] > X(I)[1], z3.Not(h)))


def merged_contract(I, args, kw):
    """contract of ExtractionSummary.merged, for lists of known and unknown length"""
    xs = args[-1] if args and not isinstance(args[-1], ClassVal) else kw['summaries']
    cls = I.repo(MOD, 'ExtractionSummary')
    it = I.iterate(xs)
    out = {}
    a, b = X(I)
    for f in ('capacitances', 'resistances'):
        m = AccMap(I, I.fresh('mval', RR), I.fresh('mhas', RB))
        if isinstance(it, list):
            vs = [normed_view(I, s.fields[f]) for s in it]
            h, v = z3.Or(False, *[x[0] for x in vs]), sum((x[1] for x in vs), z3.RealVal(0))
        else:
            h, v = I.ghost['fold_summaries'](I, it, f)
        I.assume(m.has[a][b] == z3.And(a <= b, h), m.has[b][a] == (z3.And(a <= b, h) if a is b else m.has[b][a]), m.V(a, b) == v)
        I.assume(z3.Implies(a > b, z3.Not(m.has[a][b])), z3.Implies(b > a, z3.Not(m.has[b][a])))
        out[f] = m
    return Obj(cls, out)


# --------------------------------------------------------------------------------------------------------------- cell
TABLES = {'overlap': ('OverlapKey', ('layer_top', 'net_top', 'layer_bot', 'net_bot'), ('net_bot', 'net_top')),
          'sidewall': ('SidewallKey', ('layer', 'net1', 'net2'), ('net1', 'net2')),
          'sideoverlap': ('SideOverlapKey', ('layer_inside', 'net_inside', 'layer_outside', 'net_outside'), ('net_inside', 'net_outside'))}


def belongs(I, p, q):
    a, b = X(I)
    return z3.And(a <= b, z3.Or(z3.And(p == a, q == b), z3.And(p == b, q == a)))


def cell(I):
    """requires: tables of extracted capacitors and resistor networks.  ensures: for every couple of nets the summary
    holds the sum of all its capacitors in the three tables (either direction), and of all resistors between two nodes of
    these names; a couple is listed iff there is such an entry"""
    G = {}
    for t, (kc, fields, nets) in TABLES.items():
        n = I.fresh('n_' + t, Z)
        I.assume(n >= 0)
        col = {f: z3.Function(f'{t}_{f}', Z, R) for f in fields}
        ne = z3.Function(f'{t}_entries', Z, Z)
        CAP = z3.Function(f'{t}_cap', Z, Z, R)
        S = z3.Function(f'{t}_sum', Z, Z, R)
        T, H = z3.Function(f'{t}_total', Z, R), z3.Function(f'{t}_seen', Z, B)
        G[t] = dict(n=n, col=col, ne=ne, CAP=CAP, S=S, T=T, H=H, nets=nets)
        I.assume(T(0) == 0, H(0) == False)  # noqa: E712

        def mk(t=t, kc=kc, n=n, col=col, ne=ne, CAP=CAP):
            def key(I, i): return Obj(I.repo(MOD, kc), {f: c(zint(i)) for f, c in col.items()})

            def entries(I, i):
                i = zint(i)
                I.assume(ne(i) >= 0)
                s = SymSeq(('entries', t), ne(i), lambda I, j: Record('cap', {'cap_value': CAP(i, zint(j)), 'key': key(I, i)}))
                s.row = i
                s.table = t
                return s
            d = SymDict(('table', t), n, key, entries, unique=True)
            d.table = t
            return d
        G[t]['d'] = mk()
    # networks
    nn = I.fresh('n_networks', Z)
    I.assume(nn >= 0)
    NC, EC = z3.Function('nodes_of', Z, Z), z3.Function('elements_of', Z, Z)
    NID, NN = z3.Function('node_id', Z, Z, Z), z3.Function('node_net', Z, Z, R)
    POS = z3.Function('node_pos', Z, Z, Z)
    EA, EB, ER = (z3.Function(x, Z, Z, Z) for x in ('el_a', 'el_b', 'x')) if False else (z3.Function('el_a', Z, Z, Z), z3.Function('el_b', Z, Z, Z), z3.Function('el_r', Z, Z, R))
    RS, RH = z3.Function('r_sum', Z, Z, R), z3.Function('r_seen', Z, Z, B)
    RT, RHT = z3.Function('r_total', Z, R), z3.Function('r_any', Z, B)
    I.assume(RT(0) == 0, RHT(0) == False)  # noqa: E712

    class Nodes(SymSeq):
        def find_key(self, I, key, x):
            u = self.u
            j = z3.Int('j?node')
            kv = I.pure_val(lambda: key(I, j))
            if not (is_sym(kv) and kv.eq(NID(u, j))):
                return None
            p = POS(u, x)
            return z3.And(p >= 0, p < NC(u), NID(u, p) == x), p

    def network(I, u):
        u = zint(u)

        def node(I, i):
            i = zint(i)
            I.assume(z3.Implies(z3.And(i >= 0, i < NC(u)), POS(u, NID(u, i)) == i))
            return Record('node', {'node_id': NID(u, i), 'net_name': NN(u, i)})

        def element(I, e):
            e = zint(e)
            for E in (EA, EB):      # elements refer to nodes of the network
                p = POS(u, E(u, e))
                I.assume(z3.Implies(z3.And(e >= 0, e < EC(u)), z3.And(p >= 0, p < NC(u), NID(u, p) == E(u, e))))
            return Record('element', {'node_a': Record('na', {'node_id': EA(u, e)}), 'node_b': Record('nb', {'node_id': EB(u, e)}),
                                      'resistance': ER(u, e)})
        I.assume(NC(u) >= 0, EC(u) >= 0, RS(u, 0) == 0, RH(u, 0) == False)  # noqa: E712
        nodes = Nodes('nodes', NC(u), node)
        nodes.u = u
        els = SymSeq('elements', EC(u), element)
        els.u = u
        return Record('network', {'nodes': nodes, 'elements': els})
    I.ghost['defaultdict'] = lambda I, f: AccMap(I) if isinstance(f, Builtin) and f.name == 'float' else None
    I.contracts[f'{MOD}:ExtractionSummary.merged'] = merged_contract

    def fold(I, it, start):
        b = it.base
        while isinstance(b, CompSeq) and not b.filtered():
            b = b.it.base
        if not hasattr(b, 'row') or it.guard is not None:
            raise Undecided('sum of something else')
        g = G[b.table]
        j = I.fresh('j', Z)
        I.assume(j >= 0, j < g['ne'](b.row))
        I.obligation('the sum runs over the capacitances of the entries', zreal(it.elem(I, j)) == g['CAP'](b.row, j))
        I.obligation('the sum runs over all entries', zint(it.n) == g['ne'](b.row))
        return g['S'](b.row, g['ne'](b.row)) + zreal(start)
    I.ghost['sum'] = fold

    def tab(it): return getattr(it.base, 'table', None) if isinstance(it.base, SymDict) else None

    def tab_facts(I, L, k):
        g = G[tab(L.it)]
        p, q = (g['col'][x](k) for x in g['nets'])
        m = belongs(I, p, q)
        return [g['T'](k + 1) == g['T'](k) + z3.If(m, g['S'](k, g['ne'](k)), z3.RealVal(0)), g['H'](k + 1) == z3.Or(g['H'](k), m)]

    class Entries(Spec):
        """for e in entries: ..  adds to a number or straight to the dictionary"""
        def pre(self, I, L):
            g = self.g(L)
            I.assume(g['S'](self.row(L), 0) == 0)
            L.ghost['nums'] = {n: zreal(L.env.lookup(n)) for n in L.carried_num()}
            L.ghost['start'] = [view(I, o) for o in L.written]
            L.ghost['rstart'] = [rview(I, o) for o in L.written]
        def g(self, L): return G[self.b(L).table]
        def row(self, L): return self.b(L).row

        def b(self, L):
            b = L.it.base
            while isinstance(b, CompSeq) and not b.filtered():
                b = b.it.base
            return b

        def havoc(self, I, L, k):
            for o in L.written:
                o.val, o.has = I.fresh('val', RR), I.fresh('has', RB)
            mark_havoc(L, *L.written)
            for n in L.ghost['nums']:
                havoc_num(I, L, n)

        def inv(self, I, L, k):
            g, i = self.g(L), self.row(L)
            m = belongs(I, *(g['col'][x](i) for x in g['nets']))
            out = [('sum so far', zreal(L.env.lookup(n)) == v + g['S'](i, k)) for n, v in L.ghost['nums'].items()]
            out += [unordered(I, o, s) for o, s in zip(L.written, L.ghost['rstart'])]
            for o, (h0, v0) in zip(L.written, L.ghost['start']):
                h, v = view(I, o)
                out += [('sum so far', v == v0 + z3.If(m, g['S'](i, k), z3.RealVal(0))), ('seen', h == z3.Or(h0, z3.And(m, k > 0)))]
            return out

        def facts(self, I, L, k):
            g, i = self.g(L), self.row(L)
            return [g['S'](i, k + 1) == g['S'](i, k) + g['CAP'](i, k), g['S'](i, 0) == 0]

    def elem_match(I, it): return base_tag(it.tag) == 'elements'

    def el_facts(I, L, k):
        u = L.it.base.u
        m = belongs(I, NN(u, POS(u, EA(u, k))), NN(u, POS(u, EB(u, k))))
        return [RS(u, 0) == 0, RH(u, 0) == False, RS(u, k + 1) == RS(u, k) + z3.If(m, ER(u, k), z3.RealVal(0)), RH(u, k + 1) == z3.Or(RH(u, k), m)]  # noqa: E712
    I.loop_specs = [
        acc_items(),
        Acc('table', lambda I, it: tab(it) is not None, lambda I, L, k: G[tab(L.it)]['T'](k), lambda I, L, k: G[tab(L.it)]['H'](k), facts=tab_facts),
        Entries('entries', lambda I, it: isinstance(base_tag(it.tag), tuple) and base_tag(it.tag)[0] == 'entries'),
        Acc('elements', elem_match, lambda I, L, k: RS(L.it.base.u, k), lambda I, L, k: RH(L.it.base.u, k), facts=el_facts),
        Acc('networks', lambda I, it: base_tag(it.tag) == 'networks', lambda I, L, k: RT(k), lambda I, L, k: RHT(k),
            facts=lambda I, L, k: [RT(k + 1) == RT(k) + RS(k, EC(k)), RHT(k + 1) == z3.Or(RHT(k), RH(k, EC(k)))])]
    auto(I)
    self_ = Obj(I.repo(MOD, 'CellExtractionResults'), {
        'cell_name': 'TOP', **{f'{t}_table': g['d'] for t, g in G.items()},
        'r_extraction_result': Record('rex', {'networks': SymSeq('networks', nn, network)})})
    res = I.call(BoundMethod(I.repo(MOD, 'CellExtractionResults.summarize')[1], self_), [])
    h, v = view(I, res.fields['capacitances'])
    I.prove('capacitance of a couple is the sum of its entries in all tables', v == sum((g['T'](g['n']) for g in G.values()), z3.RealVal(0)))
    I.prove('a couple has a capacitance iff some table lists it', h == z3.Or(*[g['H'](g['n']) for g in G.values()]))
    h, v = view(I, res.fields['resistances'])
    I.prove('resistance of a couple is the sum of its elements', v == RT(nn))
    I.prove('a couple has a resistance iff an element connects it', h == RHT(nn))


def results(I):
    """requires: any number of cells.  ensures: the summary is the merge of the summaries of all cells"""
    n = I.fresh('n', Z)
    I.assume(n >= 0)
    a, b = X(I)
    CT = {f: z3.Function('cell_' + f, Z, R) for f in ('capacitances', 'resistances')}
    CH = {f: z3.Function('cellhas_' + f, Z, B) for f in CT}
    TT = {f: z3.Function('sum_' + f, Z, R) for f in CT}
    TH = {f: z3.Function('any_' + f, Z, B) for f in CT}

    def cell_contract(I, args, kw):
        i = args[0].fields['__i']
        out = {}
        for f in CT:
            m = AccMap(I, I.fresh('cval', RR), I.fresh('chas', RB))
            I.assume(m.has[a][b] == CH[f](i), m.V(a, b) == CT[f](i), z3.Implies(a > b, z3.Not(m.has[a][b])), z3.Implies(b > a, z3.Not(m.has[b][a])),
                     z3.Implies(z3.Not(CH[f](i)), CT[f](i) == 0))
            out[f] = m
        return Obj(I.repo(MOD, 'ExtractionSummary'), out)
    I.contracts[f'{MOD}:CellExtractionResults.summarize'] = cell_contract
    I.contracts[f'{MOD}:ExtractionSummary.merged'] = merged_contract

    def fold(I, it, f):
        I.obligation('all cells are merged', z3.And(zint(it.n) == n, z3.BoolVal(it.guard is None)))
        i = I.fresh('i', Z)
        I.assume(i >= 0, i < n)
        h, v = normed_view(I, it.elem(I, i).fields[f])
        I.obligation('cell i contributes its own summary', z3.And(h == CH[f](i), v == CT[f](i)))
        return TH[f](n), TT[f](n)
    I.ghost['fold_summaries'] = fold
    cells = SymDict('cells', n, lambda I, i: i, lambda I, i: Obj(I.repo(MOD, 'CellExtractionResults'), {'__i': zint(i)}), unique=True)
    auto(I)
    for f in CT:
        I.assume(z3.Implies(a > b, z3.And(z3.Not(TH[f](n)), TT[f](n) == 0)))
    self_ = Obj(I.repo(MOD, 'ExtractionResults'), {'cell_extraction_results': cells})
    res = I.call(BoundMethod(I.repo(MOD, 'ExtractionResults.summarize')[1], self_), [])
    for f in CT:
        h, v = view(I, res.fields[f])
        I.prove(f'{f} are the sum over the cells', v == TT[f](n))
        I.prove(f'{f}: listed iff some cell lists them', h == TH[f](n))


def normed(I):
    """the normed key has the same two nets, in order; it does not depend on the direction"""
    p, q = I.fresh('p', R), I.fresh('q', R)
    cls = I.repo(MOD, 'NetCoupleKey')
    f = I.repo(MOD, 'NetCoupleKey.normed')[1]
    k1 = I.call(BoundMethod(f, I.call(cls, [p, q])), [])
    k2 = I.call(BoundMethod(f, I.call(cls, [q, p])), [])
    for k in (k1, k2):
        x, y = k.fields['net1'], k.fields['net2']
        I.prove('same nets, in order', z3.And(x <= y, z3.Or(z3.And(x == p, y == q), z3.And(x == q, y == p))))


HARNESSES = [('merged', merged), ('cell', cell), ('results', results), ('normed', normed),
             ('recorded_overlap', recorded('add_overlap_cap', 'overlap_table', 'OverlapKey')),
             ('recorded_sidewall', recorded('add_sidewall_cap', 'sidewall_table', 'SidewallKey')),
             ('recorded_sideoverlap', recorded('add_sideoverlap_cap', 'sideoverlap_table', 'SideOverlapKey'))]
