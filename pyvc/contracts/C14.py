from .rcx import *

MOD = 'klayout_pex.rcx25.extractor'
ASSUMPTIONS = ['kdb.Region += and insert are set union, Box.enlarged a function of the amount',
               'KLayoutExtractionContext.shapes_of_layer returns the shapes of the layer or None (own contract, C16)',
               'every metal layer of the process stack has a GDS pair with a canonical layer (holds for the shipped technologies)',
               'OverlapExtractor.extract, SidewallAndFringeExtractor.extract, RExtractor.extract: separate contracts (C11-C13, C18)',
               'floats treated as exact']
STACK = z3.Function('stack_name', Z, NAME)
PL, PD = z3.Function('gds_layer', NAME, Z), z3.Function('gds_datatype', NAME, Z)
def PAIR(n): return (PL(n), PD(n))
_C, _H, _S = z3.Function('canonical', Z, Z, NAME), z3.Function('has_shapes', Z, Z, B), z3.Function('shapes_of', Z, Z, Reg.SORT)
def CANON(p): return _C(zint(p[0]), zint(p[1]))
def HAS(p): return _H(zint(p[0]), zint(p[1]))
def SHAPES(p): return _S(zint(p[0]), zint(p[1]))
CONTACT = z3.Function('contact_above', Z, NAME)
HASC = z3.Function('has_contact', Z, B)
BOX = z3.Function('bbox_enlarged', R, Reg.SORT)
FIRST = z3.Function('first_index', NAME, Z)
UN = z3.Function('shapes_before', NAME, Z, Reg.SORT)


class CellReg(Reg):
    """the region stored under a key: changes go through to the dictionary"""
    def __init__(self, owner, key, other):
        self.owner, self.key, self.other = owner, key, other
        Model.__init__(self)

    @property
    def v(self): return z3.If(self.key == self.owner.a, self.owner.val, self.other)

    @v.setter
    def v(self, x):
        o = self.owner
        o.val = z3.If(self.key == o.a, x, o.val)
        self.other = x


class Regions(Model):
    """a dictionary name -> region (missing ones are created empty), seen through two arbitrary names a and b: whether
    and at which position they are present, and the region of a"""
    kind = 'Regions'

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b
        self.has = [z3.BoolVal(False)] * 2
        self.pos = [z3.IntVal(-1)] * 2
        self.count = z3.IntVal(0)
        self.val = Reg.EMPTY

    def add(self, I, k):
        I.note_write(self)
        h = I.fresh('present', B)
        for i, g in enumerate((self.a, self.b)):
            I.assume(z3.Implies(k == g, h == self.has[i]))
        for i, g in enumerate((self.a, self.b)):
            self.pos[i] = z3.If(z3.And(z3.Not(self.has[i]), k == g), self.count, self.pos[i])
            self.has[i] = z3.Or(self.has[i], k == g)
        self.count = self.count + z3.If(h, 0, 1)
        return h

    def getitem(self, I, k):
        k = lay(I, k)
        self.add(I, k)
        return CellReg(self, k, I.fresh('other_region', Reg.SORT))

    def setitem(self, I, k, r):
        k = lay(I, k)
        v = r.v
        self.add(I, k)
        self.val = z3.If(k == self.a, v, self.val)

    def contains(self, I, k):
        k = lay(I, k)
        h = I.fresh('present', B)
        I.assume(*[z3.Implies(k == g, h == self.has[i]) for i, g in enumerate((self.a, self.b))])
        return h

    def m_keys(self, I): return KeysOf(self)
    def m_values(self, I): return Hidden()
    def iterate(self, I): raise Undecided('iteration over the regions')
    def snapshot(self): return (list(self.has), list(self.pos), self.count, self.val)


class KeysOf(SymSeq):
    def __init__(self, owner):
        self.owner, self.state = owner, owner.snapshot()
        super().__init__('keys', owner.count, lambda I, i: LN(zint(i)))


class MetalLoop(Spec):
    """over the metal layers of the stack; regions[a] is everything of the layers passed whose canonical name is a; the
    names appear in the order of the stack"""
    def __init__(self, G):
        super().__init__('metal layers', lambda I, it: base_tag(it.tag) == 'metals')
        self.G = G

    def cond(self, g, k): return z3.And(CANON(PAIR(STACK(k))) == g, HAS(PAIR(STACK(k))))
    def first(self, g): return z3.If(g == self.G['vsubs'], z3.IntVal(-1), FIRST(g))

    def pre(self, I, L):
        d = L.ghost['d'] = self.G['regions']
        if d is None:
            raise Undecided('the layer regions are built elsewhere')
        I.assume(*self.base())
        L.ghost['hide'] = [o for o in L.written if o is not d]
        for o in L.ghost['hide']:
            if not (isinstance(o, (DictVal, Regions, Reg, SymDict, Hidden))):
                raise Undecided(f'writes {o!r}')

    def havoc(self, I, L, k):
        d = L.ghost['d']
        d.has = [I.fresh('has', B) for _ in 'ab']
        d.pos = [I.fresh('pos', Z) for _ in 'ab']
        d.count, d.val = I.fresh('count', Z), I.fresh('val', Reg.SORT)
        for o in L.ghost['hide']:
            if isinstance(o, Reg):
                o.v = I.fresh('hidden', Reg.SORT)
            elif not isinstance(o, Regions):
                o.__class__ = Hidden
            else:
                o.val = I.fresh('hidden', Reg.SORT)
        for n in L.carried():
            v = L.env.lookup(n)
            if n in L.assigned and (v is None or is_sym(v) or isinstance(v, str)):
                set_local(L, n, Hidden())
        for n in L.carried():
            if n in L.assigned and isinstance(L.env.lookup(n), Reg):
                set_local(L, n, Reg(I.fresh('hidden', Reg.SORT)))
        mark_havoc(L, d, *L.written)

    def inv(self, I, L, k):
        d = L.ghost['d']
        a, b = d.a, d.b
        fa, fb = self.first(a), self.first(b)
        return [('a layer is listed iff it is the substrate or a layer so far has shapes for it',
                 z3.And(d.has[0] == (fa < k), d.has[1] == (fb < k))),
                ('it has all shapes of the layers passed under that name', d.val == UN(a, k)),
                ('positions are below the count', z3.And(d.count >= 0, *[z3.Implies(h, p < d.count) for h, p in zip(d.has, d.pos)])),
                ('the names are in the order of the stack',
                 z3.Implies(z3.And(a != b, *d.has), (d.pos[0] < d.pos[1]) == (fa < fb)))]

    def base(self):
        d = self.G['regions']
        return [UN(d.a, 0) == z3.If(d.a == self.G['vsubs'], self.G['substrate'], Reg.EMPTY)] + \
            [z3.And(FIRST(g) >= 0, FIRST(g) <= self.G['n']) for g in (d.a, d.b)]

    def facts(self, I, L, k):
        d = L.ghost['d']
        out = [UN(d.a, k + 1) == z3.If(self.cond(d.a, k), Reg.union(UN(d.a, k), SHAPES(PAIR(STACK(k)))), UN(d.a, k))]
        for g in (d.a, d.b):
            out += [z3.Implies(k < FIRST(g), z3.Not(self.cond(g, k))),
                    z3.Implies(z3.And(k == FIRST(g), k < self.G['n']), self.cond(g, k))]
        return out


def run(mode, cap, res, documented=False):
    def harness(I):
        install_region(I)
        n, dbu, halo = I.fresh('nmetals', Z), I.fresh('dbu', R), I.fresh('halo', R)
        I.assume(n >= 0, dbu > 0)
        a, b = I.fresh('a', NAME), I.fresh('b', NAME)
        vs = I.literal('VSUBS', NAME)
        G = dict(vsubs=vs, n=n, substrate=Reg.union(Reg.EMPTY, BOX(halo / dbu)), regions=None)

        def dd(I, factory):
            d = Regions(a, b)
            if G['regions'] is None:
                G['regions'] = d
            return d
        I.ghost['defaultdict'] = dd
        I.externals['klayout.db.__all__'] = ListVal(['PolygonWithProperties'])

        def metal(I, i):
            i = zint(i)
            con = Record('contact', dict(name=CONTACT(i)))
            return Record('metal', dict(name=STACK(i), metal_layer=Record('m', dict(contact_above=con), has=dict(contact_above=HASC(i)))))
        ti = tech(I, process_metal_layers=SymSeq('metals', n, metal),
                  tech=Record('technology', dict(process_parasitics=Record('pp', dict(side_halo=halo)))),
                  canonical_layer_name_by_gds_pair=PairTable(lambda k: CANON(k)))
        I.contracts[TI + ':TechInfo.gds_pair'] = lambda I, args, kw: PAIR(lay(I, args[1] if len(args) > 1 else kw['layer_name']))
        tr = I.ghost['trace'] = Trace()
        I.roots = [tr]

        def shapes(I, a, k):
            p = a[0] if a else k['gds_pair']
            if I.branch(HAS(p)):
                return Reg(SHAPES(p))
            return None
        box = Record('bbox', dict(enlarged=Builtin('enlarged', lambda I, a, k: Poly(BOX(zreal(a[0]))))))
        cell = Record('cell', dict(name=I.literal('TOP', NAME)))
        circ = Record('circuit', dict(pin_count=Builtin('pin_count', lambda I, a, k: I.fresh('pins', Z))))
        nl = Record('netlist', dict(top_circuit=Builtin('top_circuit', lambda I, a, k: circ)))
        ctx = Record('context', dict(dbu=dbu, lvsdb=Record('lvsdb', dict(netlist=Builtin('netlist', lambda I, a, k: nl))),
                                     shapes_of_layer=Builtin('shapes_of_layer', shapes), annotated_top_cell=cell,
                                     top_cell_bbox=Builtin('top_cell_bbox', lambda I, a, k: box)))
        for m, c in (('klayout_pex.rcx25.c.overlap_extractor', 'OverlapExtractor'),
                     ('klayout_pex.rcx25.c.sidewall_and_fringe_extractor', 'SidewallAndFringeExtractor')):
            I.contracts[f'{m}:{c}.extract'] = lambda I, args, kw, c=c: tr.emit(I, c, args[0])
        rx = 'klayout_pex.rcx25.r.r_extractor:RExtractor.'
        req, result = Record('request', {}), Record('r result', {})

        def prep(I, args, kw):
            tr.emit(I, 'prepare', args[0])
            return req

        def rex(I, args, kw):
            q = args[1] if len(args) > 1 else kw['rex_request']
            tr.emit(I, 'rex', args[0], q)
            return result
        I.contracts[rx + 'prepare_request'] = prep
        I.contracts[rx + 'extract'] = rex
        I.loop_specs = [MetalLoop(G)]
        md = I.getattr(I.repo('klayout_pex.rcx25.pex_mode', 'PEXMode'), mode)
        scale, amax, db = I.fresh('scale', B), I.fresh('amax', R), I.fresh('b', R)
        me = I.instantiate(I.repo(MOD, 'RCX25Extractor'), [], dict(pex_context=ctx, pex_mode=md, scale_ratio_to_fit_halo=scale,
                           delaunay_amax=amax, delaunay_b=db, tech_info=ti, report_path='x'))
        results = Obj(I.repo(ER, 'CellExtractionResults'), {'cell_name': 'TOP', 'r_extraction_result': None})
        rep = Sink(tr, dict(output_rex_request='document request', output_rex_result='document result'), ignore=True)
        m = I.repo(MOD, 'RCX25Extractor.extract_cell')
        I.call(BoundMethod(m[1] if isinstance(m, tuple) else m, me), [], dict(results=results, report=rep))
        ev = tr.events
        kinds = [e[0] for e in ev]
        if documented:
            for x, m in (('request', req), ('result', result)):
                doc = [e for e in ev if e[0] == 'document ' + x]
                I.prove(f'the {x} of a resistance extraction is documented: once', z3.BoolVal(len(doc) == (1 if res else 0) and all(e[1] is m for e in doc)))
            for e in ev:
                if e[0].endswith('Extractor'):
                    I.prove('the capacitances are documented in this report', z3.BoolVal(e[1].fields['report'] is rep))
            return
        I.prove('capacitances are extracted iff the mode asks for them: once each',
                z3.BoolVal(sorted(x for x in kinds if x.endswith('Extractor')) ==
                           (['OverlapExtractor', 'SidewallAndFringeExtractor'] if cap else [])))
        I.prove('resistances are extracted iff the mode asks for them: once', z3.BoolVal(
            [x for x in kinds if x in ('prepare', 'rex')] == (['prepare', 'rex'] if res else [])))
        rr = results.fields.get('r_extraction_result')
        I.prove('the resistances found are in the results', z3.BoolVal((rr is result) if res else not (isinstance(rr, Record))))
        for e in ev:
            f = e[1].fields
            if e[0].endswith('Extractor'):
                d = f['layer_regions_by_name']
                ks = f['all_layer_names']
                if isinstance(ks, SymList) or not isinstance(ks, KeysOf):
                    ks = getattr(ks, 'base', ks)
                if not isinstance(d, Regions) or not isinstance(ks, KeysOf):
                    raise Undecided('the layers are passed on in another form')
                I.prove('the layer names are those of the regions', z3.BoolVal(ks.owner is d and d is G['regions']))
                fa, fb = [z3.If(g == vs, z3.IntVal(-1), FIRST(g)) for g in (a, b)]
                I.prove('a layer is listed iff it is the substrate or a metal layer has shapes for it',
                        z3.And(ks.state[0][0] == (fa < n), ks.state[0][1] == (fb < n)))
                I.prove('the layers are in the order of the stack, substrate first',
                        z3.Implies(z3.And(a != b, *ks.state[0]), (ks.state[1][0] < ks.state[1][1]) == (fa < fb)))
                I.prove('each layer has all its shapes', d.val == UN(a, n))
                I.prove('with the extraction\'s database unit, tables, results and report',
                        z3.And(zreal(f['dbu']) == dbu, z3.BoolVal(f['tech_info'] is ti and f['results'] is results and f['report'] is rep)))
                if 'scale_ratio_to_fit_halo' in f:
                    I.prove('and its scaling option', f['scale_ratio_to_fit_halo'] == scale)
            elif e[0] == 'rex':
                I.prove('the prepared request is extracted', z3.BoolVal(e[2] is req))
            if e[0] in ('rex', 'prepare'):
                I.prove('resistance extraction of this layout', z3.BoolVal(f['pex_context'] is ctx))
                I.prove('with the triangulation options', z3.And(zreal(f['delaunay_b']) == db, zreal(f['delaunay_amax']) == amax))
    harness.__doc__ = '''requires: any process stack, any shapes.  ensures: the request and the result of the resistance extraction are documented in the
    report, once, and the capacitance extractors document in it''' if documented else '''requires: any process stack, any shapes.  ensures: both capacitance extractions (mode CC, RC) get every layer with
    shapes under its canonical name with all its shapes, in stack order after the substrate; the resistance extraction (R, RC)
    runs on the prepared request and its result is kept'''
    return harness


class PairTable(Model):
    kind = 'PairTable'
    def __init__(self, f):
        super().__init__()
        self.f = f
    def getitem(self, I, k): return self.f(k)
    def m_get(self, I, k, d=None): return self.f(k)
    def contains(self, I, k): return z3.BoolVal(True)


HARNESSES = [('mode_cc', run('CC', True, False)), ('mode_rc', run('RC', True, True)), ('mode_r', run('R', False, True))]
