from .netlist import *

MOD = 'klayout_pex.rcx25.netlist_expander'
ER = 'klayout_pex.rcx25.extraction_results'
ASSUMPTIONS = ['klayout.db netlist API as documented (see contracts/netlist.py); net names of a circuit are unique',
               'contract of ExtractionResults.summarize (property C10): one entry per couple of nets',
               'sorted() returns a permutation', 'floats treated as exact']
NS = NSET


class NameMap(Model):
    """name -> net, for exactly the names in ``has``"""
    kind = 'NameMap'

    def __init__(self, has):
        super().__init__()
        self.has = has

    def nm(self, x):
        if is_sym(x) and x.sort() == NAME:
            return x
        raise Undecided(f'name {x!r}')

    def contains(self, I, x): return self.has[self.nm(x)]

    def getitem(self, I, x):
        x = self.nm(x)
        I.guard(self.has[x], 'KeyError')
        return NetM(x)

    def m_get(self, I, x, default=None):
        return NetM(self.nm(x)) if I.branch(self.has[self.nm(x)]) else default

    def setitem(self, I, x, v):
        I.note_write(self)
        I.obligation('a name maps to the net of that name', v.n == self.nm(x) if isinstance(v, NetM) else z3.BoolVal(False))
        self.has = z3.Store(self.has, self.nm(x), True)

    def m_setdefault(self, I, x, v):
        if not I.branch(self.has[self.nm(x)]):
            self.setitem(I, x, v)
        return self.getitem(I, x)


def has_set(I, d):
    """the set of names a table knows"""
    if isinstance(d, NameMap):
        return d.has
    if isinstance(d, SymDict):
        b = d.base_names if hasattr(d, 'base_names') else None
        if b is None:
            raise Undecided('a table of something else')
        for k, v in d.extra:
            I.obligation('a name maps to the net of that name', v.n == k if isinstance(v, NetM) and is_sym(k) else z3.BoolVal(False))
            b = z3.Store(b, k, True)
        return b
    raise Undecided(f'table {d!r}')


class Items(Spec):
    """loop over the (sorted) items of one kind of couple: may create missing nets, record them, and create one device"""

    def __init__(self, tr, kinds):
        super().__init__('couples', lambda I, it: self.kind(it) is not None)
        self.tr, self.kinds = tr, kinds

    def kind(self, it):
        for w in self.kinds:
            if tag_has(it.tag, ('summary', w)):
                return w

    def base(self, it):
        b = it.base
        return b

    def pre(self, I, L):
        g = L.ghost
        g['tr'] = [o for o in L.written if o is self.tr]
        g['circ'] = [o for o in L.written if isinstance(o, Circuit)]
        g['map'] = [o for o in L.written if isinstance(o, (NameMap, SymDict))]
        if len(g['map']) > 1 or len(g['tr']) + len(g['circ']) + len(g['map']) != len(L.written):
            raise Undecided(f'loop over couples writes something else {L.written}')
        w = self.kind(L.it)
        K = self.kinds[w]
        g['P'] = lambda i: self.index(I, L.it, i)
        g['K'] = K
        if g['circ']:
            g['names0'] = g['circ'][0].names
            g['pres'] = z3.Function(f'pres_{w}_{I.fresh("u", Z)}', Z, B)
            I.assume(g['pres'](0) == False)  # noqa: E712
            if g['map']:
                g['map0'] = has_set(I, g['map'][0])

    def index(self, I, it, i):
        """which couple iteration i is about"""
        v = it.elem(I, i)
        while isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple):
            v = v[1]
        k = v[0] if isinstance(v, tuple) else v
        if not isinstance(k, Obj) or '__i' not in k.fields:
            raise Undecided('iteration over something else')
        return k.fields['__i']

    def havoc(self, I, L, k):
        g = L.ghost
        if g['circ']:
            A = I.fresh('names', NS)
            g['circ'][0].names = A
            A0 = g['names0']
            g['A'] = A
            I.ghost['gen'].append(lambda x: z3.Implies(A0[x], A[x]))
            if g['map']:
                d = g['map'][0]
                if not isinstance(d, NameMap):
                    d.__class__ = NameMap
                d.has = A
        elif g['map']:
            raise Undecided('table changes, circuit does not')
        if g['tr']:
            g['pre_events'] = list(self.tr.events)
            self.tr.events = [('sofar', self.name)]
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        g = L.ghost
        if not g['circ']:
            return []
        A, N, M = g['circ'][0].names, I.ghost['N'], I.ghost['M']
        K, J = g['K'], g['K']['J']
        out = [('no net disappears', z3.Implies(g['names0'][M], A[M])),
               ('only names of couples are added', A[N] == z3.Or(g['names0'][N], g['pres'](k))),
               ('couples passed have their nets', z3.Implies(z3.And(J >= 0, J < K['n'], K['pos'](J) >= 0, K['pos'](J) < k), z3.And(A[K['n1'](J)], A[K['n2'](J)])))]
        if g['map']:
            out.append(('the table knows exactly the nets of the circuit', has_set(I, g['map'][0]) == A))
        return out

    def facts(self, I, L, k):
        g = L.ghost
        if not g['circ']:
            return []
        i = g['P'](k)
        N = I.ghost['N']
        return [g['pres'](k + 1) == z3.Or(g['pres'](k), g['K']['n1'](i) == N, g['K']['n2'](i) == N)]

    def elem_done(self, I, L, k, ctx):
        g = L.ghost
        if not g['tr']:
            return
        ev = self.tr.events[1:]
        devs = [e[1] for e in ev if e[0] == 'device']
        w = self.kind(L.it)
        I.prove(f'{w}: one device per couple', z3.BoolVal(len(devs) == len(ev) == 1))
        if len(devs) != 1:
            return
        d, i = devs[0], g['P'](k)
        K = g['K']
        I.prove(f'{w}: device class', z3.BoolVal(d.cls.created == K['cls']))
        I.prove(f'{w}: connects the nets of the couple', z3.And(d.term['A'].n == K['n1'](i), d.term['B'].n == K['n2'](i)) if set(d.term) == {'A', 'B'} else z3.BoolVal(False))
        I.prove(f'{w}: value in the unit of the netlist', zreal(d.par[K['par']]) == K['v'](i) * zreal(K['scale']) if set(d.par) == {K['par']} else z3.BoolVal(False))
        nums = [x.v for x in (d.dname.parts if isinstance(d.dname, StrCat) else []) if isinstance(x, Fmt)]
        ok = len(nums) == 1 and z3.is_int_value(z3.simplify(zint(nums[0]) - k))
        if not ok:
            raise Undecided('device name')
        I.ghost.setdefault('names_ok', []).append(w)

    def after(self, I, L):
        g = L.ghost
        if g['tr']:
            self.tr.events = g['pre_events'] + [('loop', self.kind(L.it), L)]
        if g['circ']:
            I.ghost.setdefault('pres', []).append(g['pres'](L.it.n))
            I.ghost.setdefault('passes', []).append((self.kind(L.it), L))
            # the invariants were proved for an arbitrary name M / couple J: from here on they may be used for any
            A, A0, K, n = g['circ'][0].names, g['names0'], g['K'], zint(L.it.n)
            I.ghost['gen'].append(lambda x: z3.Implies(A0[x], A[x]))
            I.ghost['gen_' + self.kind(L.it)].append(lambda j: z3.Implies(z3.And(j >= 0, j < K['n'], K['pos'](j) >= 0, K['pos'](j) < n), z3.And(A[K['n1'](j)], A[K['n2'](j)])))


def expand(I):
    """requires: netlist, extraction results.  ensures: result is a copy; iff not blackboxing every capacitor of it is removed;
    for every couple of the summary exactly one capacitor (in farad) / resistor between nets of these names, which are
    created iff missing; no other devices; nets are the old ones, VSUBS, FC_GND and those of the couples"""
    nl, tr, otr = setup_netlist(I)
    black = I.fresh('blackbox', B)
    N = I.ghost['N'] = I.fresh('N', NAME)
    I.ghost['M'] = I.fresh('M', NAME)
    I.ghost['gen'] = []
    kinds = {}
    for w, cls, par, scale in (('capacitances', 'Capacitor', 'C', Fraction(1, 10 ** 15)), ('resistances', 'Resistor', 'R', Fraction(1))):
        n = I.fresh('n_' + w, Z)
        I.assume(n >= 0)
        kinds[w] = dict(n=n, n1=z3.Function(w + '_n1', Z, NAME), n2=z3.Function(w + '_n2', Z, NAME), v=z3.Function(w + '_v', Z, R), cls=cls,
                        par=par, scale=scale, pos=lambda j: j, J=I.fresh('J_' + w, Z))
        I.ghost['gen_' + w] = []

    def key(w):
        def get(I, i):
            i = zint(i)
            a, b = kinds[w]['n1'](i), kinds[w]['n2'](i)
            for gen in I.ghost['gen_' + w]:
                I.assume(gen(i))
            for gen in I.ghost['gen']:
                I.assume(gen(a), gen(b))
            return Obj(I.repo(ER, 'NetCoupleKey'), {'net1': a, 'net2': b, '__i': i})
        return get

    def summarize(I, args, kw):
        return Obj(I.repo(ER, 'ExtractionSummary'), {w: SymDict(('summary', w), K['n'], key(w), (lambda K: lambda I, i: K['v'](zint(i)))(K), unique=True)
                                                     for w, K in kinds.items()})
    I.contracts[f'{ER}:ExtractionResults.summarize'] = summarize
    order = {}

    def srt(I, it, key, reverse):
        w = [w for w in kinds if tag_has(it.tag, ('summary', w))]
        if not w or it.guard is not None or not same(it.n, kinds[w[0]]['n']):
            raise Undecided('sorted of something else')
        w = w[0]
        P, Q = z3.Function(f'perm_{w}', Z, Z), z3.Function(f'pos_{w}', Z, Z)
        n = kinds[w]['n']
        def surj(j): return z3.Implies(z3.And(j >= 0, j < n), z3.And(Q(j) >= 0, Q(j) < n, P(Q(j)) == j))
        I.assume(surj(kinds[w]['J']))
        I.ghost['gen_' + w].append(surj)
        kinds[w]['pos'] = Q

        def get(I, i):
            i = zint(i)
            I.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n, Q(P(i)) == i)))
            return it.elem(I, P(i))
        return SymSeq(('sorted', it.tag), n, get)
    I.ghost['sorted'] = srt
    base = I.ghost['mkcircuit']

    # a table built from all nets of the circuit knows the names the circuit had then
    old = SymDict.from_comp

    def from_comp(I, c):
        d = old(I, c)
        if isinstance(c.it.base, SymSeq) and c.it.base.tag == 'nets' and d.finder is not None:
            x = I.fresh('x', NAME)
            r = d.finder(I, d.key, x)
            if r is not None:
                d.base_names = c.it.base.names
        return d
    SymDict.from_comp = staticmethod(from_comp)
    try:
        dev = AutoTrace('devices', tr, removal_loops(tr, lambda I, k: z3.Or(KIND(k) == 2, KIND(k) == 3)),
                        match=lambda I, it: base_tag(it.tag) in ('devices', 'devices.live'))
        I.loop_specs = [dev, Items(tr, kinds)]
        auto(I)
        res = I.call(I.repo(MOD, 'RCX25NetlistExpander.expand'), [nl, 'TOP', Obj(I.repo(ER, 'ExtractionResults'), {}), black])
    finally:
        SymDict.from_comp = staticmethod(old)
    I.prove('the result is a copy of the argument', z3.BoolVal(isinstance(res, Netlist) and res.orig is nl))
    I.prove('the argument is not modified', z3.BoolVal(otr.events == []))
    ev = list(tr.events)
    if ev and ev[0][0] == 'loop' and ev[0][1] == 'devices':
        I.prove('devices are only removed when not blackboxing', z3.Not(black))
        I.prove('the removal covers every device', zint(ev[0][2].it.n) == res.circ.nd)
        ev.pop(0)
    else:
        I.prove('devices are removed when not blackboxing', black)
    I.prove('one pass over the capacitances and one over the resistances', z3.BoolVal(sorted(e[1] for e in ev if e[0] == 'loop') == ['capacitances', 'resistances'] and len(ev) == 2))
    for e in ev:
        if e[0] == 'loop':
            I.prove('the pass covers every couple', zint(e[2].it.n) == kinds[e[1]]['n'])
    for w, L in I.ghost.get('passes', []):
        I.prove('nets are made for every couple', zint(L.it.n) == kinds[w]['n'])
    lit = lambda s: I.literal(s, NAME)
    circ = res.circ
    I.prove('nets: the old ones, VSUBS, FC_GND and those of the couples',
            circ.names[N] == z3.Or(circ.start[N], N == lit('VSUBS'), N == lit('FC_GND'), *I.ghost.get('pres', [])))


HARNESSES = [('expand', expand)]
