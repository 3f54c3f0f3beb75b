from .rcx import *

MOD = 'klayout_pex.rcx25.r.r_extractor'
ASSUMPTIONS = ['klayout.pex.RNetExtractor puts nodes on conductor and via layers of the technology (or on the ends of vias), and port i of a layer is the '
               'i-th entry of that layer\'s port list', 'protobuf messages are records; MergeFrom of a repeated field concatenates',
               'Layout.layer(layer, datatype) is a function; layers of the stack that vias connect have a GDS pair (C20 checks the shipped technologies)',
               'a via layer with bottom/top layers has its contact entry (both tables are built from the same entries, C17)',
               'KLayoutExtractionContext.shapes_of_net (C16), ShapesConverter (C26): their own contracts', 'floats treated as exact']
PUR = dict(PURPOSE_UNSPECIFIED=0, PURPOSE_DNWELL=1, PURPOSE_NWELL=2, PURPOSE_PWELL=3, PURPOSE_DIFF=4, PURPOSE_NTAP_OR_PTAP=5, PURPOSE_NTAP=6,
           PURPOSE_PTAP=7, PURPOSE_P_IMPLANT=8, PURPOSE_N_IMPLANT=9, PURPOSE_CONTACT=10, PURPOSE_METAL=11, PURPOSE_VIA=12, PURPOSE_MIM_CAP=13)
KIND = dict(KIND_UNSPECIFIED=0, KIND_REGULAR=1, KIND_DEVICE_CAPACITOR=2, KIND_DEVICE_RESISTOR=3, KIND_PIN=4, KIND_LABEL=5)
PB = 'klayout_pex_protobuf.kpex.'


def enums(I):
    for k, v in PUR.items():
        for p in ('LayerInfo.Purpose.', 'LayerInfo.'):
            I.externals[PB + 'tech.tech_pb2.' + p + k] = v
    for k, v in KIND.items():
        for p in ('ComputedLayerInfo.Kind.', 'ComputedLayerInfo.'):
            I.externals[PB + 'tech.tech_pb2.' + p + k] = v
    for p in ('Algorithm.', ''):
        I.externals[PB + f'klayout.r_extractor_tech_pb2.RExtractorTech.{p}ALGORITHM_SQUARE_COUNTING'] = 1
        I.externals[PB + f'klayout.r_extractor_tech_pb2.RExtractorTech.{p}ALGORITHM_TESSELATION'] = 2


# ---------------------------------------------------------------- messages being written
class Pb(Model):
    """a message being filled: sub-messages and repeated fields come into being on first use; additions to repeated fields are events"""
    kind = 'Pb'

    def __init__(self, tr, schema, path=()):
        super().__init__()
        self.tr, self.schema, self.path, self.f = tr, schema, path, {}

    def getattr(self, I, name):
        if name in self.f:
            return self.f[name]
        s = self.schema.get(name) if self.schema else None
        if isinstance(s, dict):
            self.f[name] = Pb(self.tr, s, self.path + (name,))
            return self.f[name]
        if isinstance(s, list):
            self.f[name] = Rep(self.tr, s[0], self.path + (name,))
            return self.f[name]
        if name == 'CopyFrom':
            return Builtin(name, lambda I, a, k: self.copy(I, a[0]))
        raise Undecided(f'field {name} of message {"/".join(map(str, self.path))} is read')

    def setattr(self, I, name, v):
        I.note_write(self)
        self.f[name] = v

    def copy(self, I, o):
        I.note_write(self)
        self.f['__copy__'] = o

    def get(self, *path):
        v = self
        for p in path:
            v = v.f.get(p) if isinstance(v, Pb) else None
        return v

    def isinst(self, I, d): return None
    def snapshot(self): return None


class Rep(Model):
    kind = 'Rep'

    def __init__(self, tr, schema, path):
        super().__init__()
        self.tr, self.schema, self.path = tr, schema, path

    def m_add(self, I):
        m = Pb(self.tr, self.schema, self.path + ('*',))
        self.tr.emit(I, self.path, m)
        return m

    def m_MergeFrom(self, I, o): self.tr.emit(I, self.path + ('merge',), o)
    def m_extend(self, I, o): self.tr.emit(I, self.path + ('merge',), o)


LREF = dict(layer={})
CONDUCTOR, VIA = dict(layer={}), dict(layer={}, bottom_conductor={}, top_conductor={})
TECH = dict(conductors=[CONDUCTOR], vias=[VIA])

# ---------------------------------------------------------------- the technology of the solver
L_, D_ = z3.Function('gds_layer', Z, Z), z3.Function('gds_datatype', Z, Z)
NS = z3.Function('n_sources', Z, Z)
SL, SD, SN = z3.Function('source_gds_layer', Z, Z, Z), z3.Function('source_gds_datatype', Z, Z, Z), z3.Function('source_name', Z, Z, NAME)
INFO, KD, PURP = z3.Function('has_info', Z, Z, B), z3.Function('kind', Z, Z, Z), z3.Function('purpose', Z, Z, Z)
CANON = z3.Function('canonical', Z, Z, NAME)
GPL, GPD = z3.Function('pair_layer_of', NAME, Z), z3.Function('pair_datatype_of', NAME, Z)
LAYER = z3.Function('layout_layer', Z, Z, Z)
BOT, TOP, HASBT = z3.Function('via_bottom', NAME, NAME), z3.Function('via_top', NAME, NAME), z3.Function('has_bottom_top', NAME, B)
HASC, CB, CA, CW = z3.Function('has_contact', NAME, B), z3.Function('contact_below', NAME, NAME), z3.Function('contact_above', NAME, NAME), \
    z3.Function('contact_width', NAME, R)


class Lookup(Model):
    kind = 'Lookup'

    def __init__(self, has, val):
        super().__init__()
        self.h, self.v = has, val

    def m_get(self, I, k, default=None): return self.v(I, k) if I.branch(self.h(I, k)) else default
    def contains(self, I, k): return self.h(I, k)

    def getitem(self, I, k):
        I.guard(self.h(I, k), 'KeyError')
        return self.v(I, k)


def res_table(name):
    has, val = z3.Function('has_' + name, NAME, B), z3.Function(name, NAME, R)
    return Lookup(lambda I, k: has(lay(I, k)), lambda I, k: Record(name, dict(resistance=val(lay(I, k))))), has, val


LR, HASLR, LRV = res_table('layer_resistance')
CR, HASCR, CRV = res_table('contact_resistance')
VR, HASVR, VRV = res_table('via_resistance')


def pair_of(I, p): return zint(p[0]), zint(p[1])


def technology(I):
    def info(I, p):
        p = pair_of(I, p)
        return Record('computed', dict(kind=KD(*p), layer_info=Record('info', dict(purpose=PURP(*p)))))
    contact = Lookup(lambda I, k: HASC(lay(I, k)), lambda I, k: Record('contact', dict(layer_below=CB(lay(I, k)), metal_above=CA(lay(I, k)),
                                                                                      width=CW(lay(I, k)))))
    def hasbt(I, k):
        k = lay(I, k)
        I.assume(z3.Implies(HASBT(k), HASC(k)))
        return HASBT(k)
    I.contracts[TI + ':TechInfo.gds_pair'] = lambda I, args, kw: (lambda n: (GPL(n), GPD(n)))(lay(I, args[1] if len(args) > 1 else kw['layer_name']))
    return tech(I, computed_layer_info_by_gds_pair=Lookup(lambda I, p: INFO(*pair_of(I, p)), info),
                canonical_layer_name_by_gds_pair=Lookup(lambda I, p: INFO(*pair_of(I, p)), lambda I, p: CANON(*pair_of(I, p))),
                layer_resistance_by_layer_name=LR, contact_resistance_by_device_layer_name=CR, via_resistance_by_layer_name=VR,
                contact_by_contact_lvs_layer_name=contact,
                bottom_and_top_layer_name_by_via_computed_layer_name=Lookup(hasbt, lambda I, k: (BOT(lay(I, k)), TOP(lay(I, k)))))


def layout_layer(I, a, k):
    if len(a) != 2:
        raise Undecided('layer lookup')
    return LAYER(zint(a[0]), zint(a[1]))


def source(k, j): return Record('source', dict(gds_pair=(SL(k, j), SD(k, j)), lvs_layer_name=SN(k, j)), ident=(k, j))


def extracted_layers(I, known=False):
    n = I.fresh('nlayers', Z)
    I.assume(n >= 0)

    def val(I, k):
        k = zint(k)
        I.assume(NS(k) >= 0)
        if known:      # only known layers are extracted (C16)
            I.assume(INFO(L_(k), D_(k)))

        def src(I, j):
            if known:
                I.assume(INFO(SL(k, zint(j)), SD(k, zint(j))))
            return source(k, zint(j))
        return Record('merged', dict(source_layers=SymSeq(('sources', k), NS(k), src), gds_pair=(L_(k), D_(k))))
    return SymDict('extracted', n, lambda I, k: (L_(zint(k)), D_(zint(k))), val, unique=True), n


def num(x): return zreal(x)


def at(I, m, *path):
    v = m.get(*path)
    if v is None:
        I.prove(f'{".".join(path)} is set', z3.BoolVal(False))
        raise PathEnd()
    return v


def extractor(I, tr, ti, known=False, **more):
    lt = Record('layout', dict(layer=Builtin('layer', layout_layer)))
    el, n = extracted_layers(I, known)
    ctx = Record('context', dict(tech=ti, annotated_layout=lt, extracted_layers=el, dbu=I.fresh('dbu', R), **more))
    opts = {x: I.fresh(x, Z) for x in ('substrate_algorithm', 'wire_algorithm')}
    opts.update({x: I.fresh(x, R) for x in ('delaunay_b', 'delaunay_amax', 'via_merge_distance')}, skip_simplify=I.fresh('skip', B))
    ex = I.instantiate(I.repo(MOD, 'RExtractor'), [], dict(pex_context=ctx, **opts))
    return ex, opts, n, ctx


def wants(I, k, j):
    p = (L_(k), D_(k))
    pu, n, c = PURP(*p), SN(k, j), CANON(*p)
    live = z3.And(INFO(*p), KD(*p) != KIND['KIND_PIN'])
    imp = z3.Or(pu == PUR['PURPOSE_N_IMPLANT'], pu == PUR['PURPOSE_P_IMPLANT'])
    cond = z3.And(live, z3.Or(imp, z3.And(pu == PUR['PURPOSE_METAL'], HASLR(c))))
    con = z3.And(live, pu == PUR['PURPOSE_CONTACT'], HASC(n), HASCR(CB(n)))
    via = z3.And(live, pu == PUR['PURPOSE_VIA'], HASVR(c), HASBT(n))
    return cond, con, via, imp


def solver_tech(I):
    """requires: any extracted layers, any technology.  ensures: per source layer exactly the conductor / via the technology describes (layer numbers,
    names, resistance in ohm, algorithm), nothing for layers without a resistance"""
    enums(I)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    ti = technology(I)
    ex, o, n, ctx = extractor(I, tr, ti)
    out = Pb(tr, TECH, ('tech',))
    state = {}

    def one(I, L, k, ev):
        """source j of layer k"""
        K = state['layer']
        cond, con, via, imp = wants(I, K, k)
        cs = [e[1] for e in ev if e[0] == ('tech', 'conductors')]
        vs = [e[1] for e in ev if e[0] == ('tech', 'vias')]
        if len(cs) + len(vs) != len(ev):
            raise Undecided('other events')
        I.prove('a conductor iff the source is on a metal with a resistance or a diffusion: one', z3.If(cond, 1, 0) == len(cs))
        I.prove('a via iff the source is a contact or via with a resistance: one', z3.If(z3.Or(con, via), 1, 0) == len(vs))
        p, n = (L_(K), D_(K)), SN(K, k)

        def ref(m, x, names=True):
            I.prove('its layer number', zint(at(I, m, 'layer', 'id')) == LAYER(SL(K, k), SD(K, k)))
            I.prove('its layer names', z3.And(lay(I, at(I, m, 'layer', 'canonical_layer_name')) == CANON(*p),
                                              lay(I, at(I, m, 'layer', 'lvs_layer_name')) == n))
        for m in cs:
            ref(m, 'layer')
            I.prove('its resistance in ohm per square (none for diffusions)', num(at(I, m, 'resistance')) == z3.If(imp, 0, LRV(CANON(*p)) / 1000))
            vs_ = I.literal('VSUBS', NAME)
            I.prove('its algorithm', zint(at(I, m, 'algorithm')) == z3.If(z3.Or(imp, CANON(*p) == vs_), o['substrate_algorithm'], o['wire_algorithm']))
            I.prove('the triangulation options', z3.And(num(at(I, m, 'triangulation_min_b')) == o['delaunay_b'],
                                                        num(at(I, m, 'triangulation_max_area')) == o['delaunay_amax']))
        for m in vs:
            ref(m, 'layer')
            b, t = z3.If(con, CB(n), BOT(n)), z3.If(con, CA(n), TOP(n))
            for end, w in (('bottom_conductor', b), ('top_conductor', t)):
                I.prove(f'{end}: the layer of the stack', z3.And(zint(at(I, m, end, 'id')) == LAYER(GPL(w), GPD(w)),
                                                                  lay(I, at(I, m, end, 'canonical_layer_name')) == w))
            r = z3.If(con, CRV(CB(n)), VRV(CANON(*p)))
            I.prove('its resistance: that of one cut times its area', num(at(I, m, 'resistance')) == r / 1000 * (CW(n) * CW(n)))
            I.prove('its merge distance', num(at(I, m, 'merge_distance')) == o['via_merge_distance'])

    def layer(I, L, k, ev):
        ls = [e for e in ev if e[0] == 'loop']
        if len(ls) != len(ev) or len(ls) > 1:
            raise Undecided('other events')
        if not ls:
            j = I.fresh('j', Z)
            c, a, v, _ = wants(I, k, j)
            I.prove('a layer that is passed over has nothing to describe', z3.Not(z3.Or(z3.And(j >= 0, j < NS(k), z3.Or(c, a, v)))))
        else:
            I.prove('all its sources are visited', z3.And(z3.BoolVal(same(ls[0][2].it.n, NS(k)))))

    def spec(it):
        t = base_tag(it.tag)
        if isinstance(t, tuple) and t[0] == 'sources':
            state['layer'] = t[1]
            return AutoTrace('sources', tr, one)
        return AutoTrace('layers', tr, layer)
    I.auto_loop = spec
    r = I.call(I.getattr(ex, 'prepare_r_extractor_tech_pb'), [], dict(rex_tech=out))
    I.prove('simplification option', out.f.get('skip_simplify', z3.BoolVal(False)) == o['skip_simplify'])
    ls = [e[2] for e in tr.events if e[0] == 'loop']
    if len(ls) > 1:
        raise Undecided('several passes over the layers')
    I.prove('all layers are visited', z3.And(z3.BoolVal(len(ls) == len(tr.events) == 1), *[zint(L.it.n) == n for L in ls]))


def klayout_tech(I):
    """requires: any technology message.  ensures: one conductor and one via of the solver for each of the message, field for field"""
    enums(I)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    K = 'klayout.pex.'
    I.externals[K + 'Algorithm.SquareCounting'], I.externals[K + 'Algorithm.Tesselation'] = 11, 12

    class Kly(Pb):
        kind = 'Kly'

        def getattr(self, I, name):
            if name in ('add_conductor', 'add_via'):
                # the solver copies what it is given
                return Builtin(name, lambda I, a, k: tr.emit(I, name, dict(a[0].f)))
            return super().getattr(I, name)
    for c in ('RExtractorTech', 'RExtractorTechConductor', 'RExtractorTechVia'):
        I.externals[K + c] = Builtin(c, lambda I, a, k, c=c: Kly(tr, {}, (c,)))
    f = lambda n, s: z3.Function(n, Z, s)
    cf = {x: f('c.' + x, s) for x, s in dict(id=Z, algorithm=Z, triangulation_min_b=R, triangulation_max_area=R, resistance=R).items()}
    vf = {x: f('v.' + x, s) for x, s in dict(id=Z, bottom=Z, top=Z, resistance=R, merge_distance=R).items()}
    nc, nv = I.fresh('nc', Z), I.fresh('nv', Z)
    I.assume(nc >= 0, nv >= 0)

    def cnd(I, i):
        i = zint(i)
        I.assume(z3.Or(cf['algorithm'](i) == 1, cf['algorithm'](i) == 2))
        return Record('c', dict(layer=Record('l', dict(id=cf['id'](i))), **{x: cf[x](i) for x in cf if x != 'id'}))

    def via(I, i):
        i = zint(i)
        return Record('v', dict(layer=Record('l', dict(id=vf['id'](i))), bottom_conductor=Record('l', dict(id=vf['bottom'](i))),
                                top_conductor=Record('l', dict(id=vf['top'](i))), resistance=vf['resistance'](i), merge_distance=vf['merge_distance'](i)))
    skip = I.fresh('skip', B)
    msg = Record('tech', dict(skip_simplify=skip, conductors=SymSeq('conductors', nc, cnd), vias=SymSeq('vias', nv, via)))

    def one(I, L, k, ev):
        t = base_tag(L.it.tag)
        I.prove('one is added for each', z3.BoolVal([e[0] for e in ev] == [dict(conductors='add_conductor', vias='add_via')[t]]))
        for e in ev:
            m = e[1]
            if t == 'conductors':
                w = dict(layer=cf['id'](k), algorithm=z3.If(cf['algorithm'](k) == 1, 11, 12), **{x: cf[x](k) for x in cf if x not in ('id', 'algorithm')})
            else:
                w = dict(cut_layer=vf['id'](k), bottom_conductor=vf['bottom'](k), top_conductor=vf['top'](k), resistance=vf['resistance'](k),
                         merge_distance=vf['merge_distance'](k))
            for x, v in w.items():
                I.prove(f'{t}: {x}', z3.BoolVal(False) if x not in m else num(m[x]) == num(v))
    I.auto_loop = lambda it: AutoTrace(base_tag(it.tag), tr, one)
    r = I.call(I.repo('klayout_pex.klayout.rex_core', 'klayout_r_extractor_tech'), [], dict(pb_tech=msg))
    if not isinstance(r, Pb):
        raise Undecided('something else is returned')
    I.prove('simplification option', r.f.get('skip_simplify', z3.BoolVal(False)) == skip)
    I.prove('all conductors and vias', z3.BoolVal(sorted(e[1] for e in tr.events if e[0] == 'loop') == ['conductors', 'vias']))
    for e in tr.events:
        if e[0] == 'loop':
            I.prove('all of them', zint(e[2].it.n) == dict(conductors=nc, vias=nv)[e[1]])


# ---------------------------------------------------------------- the request
PINNET, NT = z3.Function('pin_net', Z, NAME), z3.Function('n_terminals', Z, Z)
TNET = z3.Function('terminal_net', Z, Z, NAME)
NETN = z3.Function('net_name', Z, NAME)
HASR, RSHAPES = z3.Function('net_has_layer', Z, Z, Z, B), z3.Function('net_shapes', Z, Z, Z, Reg.SORT)


class ByName(Model):
    """name -> request of a net: a request is stored when it is created, under its name, once"""
    kind = 'ByName'

    def there(self, I, k):
        for x, h in self.seen:
            if x.eq(k):
                return h
        h = I.fresh('present', B)
        for x, g in self.seen:
            I.assume(z3.Implies(x == k, h == g))
        self.seen = self.seen + [(k, h)]
        return h

    def m_get(self, I, k, default=None):
        k = lay(I, k)
        return self.entry(I, k) if I.branch(self.there(I, k)) else default

    def entry(self, I, k): return NetReq(self.tr, k)
    def contains(self, I, k): return self.there(I, lay(I, k))

    def getitem(self, I, k):
        k = lay(I, k)
        I.guard(self.there(I, k), 'KeyError')
        return self.entry(I, k)

    def setitem(self, I, k, v):
        k = lay(I, k)
        h = self.there(I, k)
        I.note_write(self)
        I.prove('a net has one request', z3.Not(h))
        if not isinstance(v, Pb) or 'net_name' not in v.f:
            raise Undecided('another kind of request')
        I.prove('a request is stored under its name', lay(I, v.f['net_name']) == k)
        self.tr.emit(I, 'store', k, v)
        self.seen = [(x, z3.Or(h, x == k)) for x, h in self.seen]

    def snapshot(self): return None


class NetReq(Model):
    kind = 'NetReq'

    def __init__(self, tr, name):
        super().__init__()
        self.tr, self.name = tr, name

    def getattr(self, I, name):
        if name in ('pins', 'device_terminals', 'region_by_layer'):
            return Rep(self.tr, dict(layer={}, region={}), (name, self.name))
        raise Undecided(name)


class Lists(Model):
    """pins / devices of the request: merged in, then read"""
    kind = 'Lists'

    def __init__(self, tr, name, seq):
        super().__init__()
        self.tr, self.name, self.seq = tr, name, seq

    def m_MergeFrom(self, I, o): self.tr.emit(I, 'merge', self.name, o)
    m_extend = m_MergeFrom

    def iterate(self, I):
        I.prove(f'{self.name}: complete before they are looked at', z3.BoolVal(self.complete()))
        return self.seq.iterate(I)

    def complete(self):
        ev = [e for e in self.tr.events]
        if self.name == 'devices':
            return any(e[0] == 'merge' and e[1] == 'devices' and is_values(e[2], 'devices') for e in ev)
        return any(e[0] == 'loop' and e[1] == 'pins of layers' for e in ev)


def is_values(o, tag):
    if isinstance(o, IterSpec):
        return tag_has(o.tag, tag)
    return isinstance(o, SymSeq) and tag_has(o.tag, tag)


def request(I):
    """requires: any pins, devices, nets and extracted layers.  ensures: every pin, terminal and non-empty layer of a net is in the request of its net
    once, with the right layer; each net has at most one request"""
    enums(I)
    install_region(I)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    ti = technology(I)
    npn, nd, nl, nn = [I.fresh(x, Z) for x in ('npins', 'ndevices', 'npinlayers', 'nnets')]
    I.assume(npn >= 0, nd >= 0, nl >= 0, nn >= 0)

    def dev(I, i):
        i = zint(i)
        I.assume(NT(i) >= 0)
        return Record('device', dict(terminals=SymSeq(('terminals', i), NT(i), lambda I, j: Record('terminal', dict(net_name=TNET(i, zint(j))),
                                                                                                   ident=(i, zint(j))))), ident=i)
    devs = SymDict('devices', nd, lambda I, i: z3.Function('device_name', Z, NAME)(zint(i)), dev, unique=True)
    pinlists = SymDict('pin layers', nl, lambda I, i: z3.Function('pin_pair', Z, NAME)(zint(i)), lambda I, i: Record('pin list', {}, ident=zint(i)), unique=True)

    st = {}

    def net(I, i):
        i = st['net'] = zint(i)
        nm = z3.Function('plain_net_name', Z, NAME)(i)
        return Record('net', dict(name=nm, expanded_name=Builtin('expanded_name', lambda I, a, k: NETN(i))), ident=i)

    def shapes(I, a, k):
        p, nt = (list(a) + list(k.values()))[:2] if len(a) != 0 else (k['gds_pair'], k['net'])
        if not isinstance(nt, Record) or nt.name != 'net':
            raise Undecided('shapes of something else')
        p = pair_of(I, p)
        if not I.branch(HASR(nt.ident, *p)):
            return None
        r = Reg(RSHAPES(nt.ident, *p))
        r.of = (nt.ident, p)
        return r
    circ = Record('circuit', dict(each_net=Builtin('each_net', lambda I, a, k: SymSeq('nets', nn, net))))
    cell = Record('cell', dict(name=I.literal('TOP', NAME)))

    def by_name(I, a, k):
        I.prove('the circuit of the cell', lay(I, a[0]) == cell.fields['name'])
        return circ
    nl_ = Record('netlist', dict(circuit_by_name=Builtin('circuit_by_name', by_name)))
    ex, o, n, ctx = extractor(I, tr, ti, known=True, devices_by_name=devs, pins_pb2_by_layer=pinlists, annotated_top_cell=cell,
                              lvsdb=Record('lvsdb', dict(netlist=Builtin('netlist', lambda I, a, k: nl_))),
                              shapes_of_net=Builtin('shapes_of_net', shapes))
    req = Pb(tr, dict(tech=TECH, net_extraction_requests=[dict(pins=[{}], device_terminals=[{}], region_by_layer=[dict(layer={}, region={})])]), ('req',))
    allpins = SymSeq('pins', npn, lambda I, i: Record('pin', dict(net_name=PINNET(zint(i))), ident=zint(i)))
    req.f['pins'], req.f['devices'] = Lists(tr, 'pins', allpins), Lists(tr, 'devices', SymSeq('device list', nd, dev))
    I.externals[PB + 'request.pex_request_pb2.RExtractionRequest'] = Builtin('RExtractionRequest', lambda I, a, k: req)
    I.contracts[MOD + ':RExtractor.prepare_r_extractor_tech_pb'] = lambda I, a, k: tr.emit(I, 'tech', (a[1:] or list(k.values()))[0])
    I.contracts['klayout_pex.klayout.shapes_pb2_converter:ShapesConverter.klayout_region_to_pb'] = \
        lambda I, a, k: tr.emit(I, 'convert', *(list(a[1:]) + [k[x] for x in ('region_kly', 'region_pb')[len(a) - 1:]]))

    def created(I, ev):
        """requests that came into being are stored"""
        new = [e[1] for e in ev if e[0] == ('req', 'net_extraction_requests')]
        sto = [e[2] for e in ev if e[0] == 'store']
        I.prove('new requests are stored, so that a net has one', z3.BoolVal(len(new) == len(sto) and all(x is y for x, y in zip(new, sto))))
        return [e for e in ev if e[0] not in (('req', 'net_extraction_requests'), 'store')]

    def additions(I, ev, field, name):
        """messages added to the field of requests: (name, message)"""
        out = []
        for e in ev:
            if isinstance(e[0], tuple) and e[0][0] == field:
                out.append((e[0][1], e[1]))
            elif isinstance(e[0], tuple) and e[0][:2] == ('req', 'net_extraction_requests') and e[0][-1] == field:
                # of a request created in this iteration
                own = [q for q in st['new'] if isinstance(q.f.get(field), Rep) and q.f[field].path == e[0]]
                if len(own) != 1:
                    raise Undecided('several new requests')
                out.append((own[0].f['net_name'], e[1]))
        return out

    def flat(I, ev, field, want, name, ident):
        st['new'] = [e[1] for e in ev if e[0] == ('req', 'net_extraction_requests')]
        ev = created(I, ev)
        adds = additions(I, ev, field, name)
        rest = [e for e in ev if not (isinstance(e[0], tuple) and (e[0][0] == field or e[0][-1] == field))]
        return adds, rest

    def per(I, L, k, ev):
        t = base_tag(L.it.tag)
        if t == 'pin layers':
            I.prove('the pins of each layer are taken', z3.BoolVal(len(ev) == 1 and ev[0][:2] == ('merge', 'pins') and isinstance(ev[0][2], Record) and
                    ev[0][2].name == 'pin list' and same(ev[0][2].ident, k)))
            return
        if t == 'pins' or (isinstance(t, tuple) and t[0] == 'terminals'):
            field, nm, w = ('pins', PINNET(k), k) if t == 'pins' else ('device_terminals', TNET(t[1], k), (t[1], k))
            adds, rest = flat(I, ev, field, True, nm, w)
            I.prove(f'{field}: one in the request of its net', z3.BoolVal(len(adds) == 1 and not rest))
            for x, m in adds:
                I.prove(f'{field}: in the request of its net', lay(I, x) == nm)
                c = m.f.get('__copy__')
                ok = isinstance(c, Record) and (same(c.ident, k) if t == 'pins' else isinstance(c.ident, tuple) and same(c.ident[0], t[1]) and same(c.ident[1], k))
                I.prove(f'{field}: a copy of it', z3.BoolVal(bool(ok)))
            return
        if t == 'device list':
            I.prove('all terminals of a device', z3.BoolVal([e[0] for e in ev] == ['loop'] and same(ev[0][2].it.n, NT(k))))
            return
        if t == 'nets':
            I.prove('all layers of a net', z3.And(z3.BoolVal([e[0] for e in ev] == ['loop'] and ev[0][1] == 'extracted'), zint(ev[0][2].it.n) == n) if ev else z3.BoolVal(False))
            return
        if t == 'extracted':
            if not ev:
                raise Undecided('layers are skipped')
            I.prove('all sources of a layer', z3.And(z3.BoolVal([e[0] for e in ev] == ['loop'] and ev[0][1] == 'sources'), zint(ev[0][2].it.n) == NS(k)))
            return
        if isinstance(t, tuple) and t[0] == 'sources':
            K, q = t[1], st['net']
            p = (SL(K, k), SD(K, k))
            I.assume(INFO(*p))
            adds, rest = flat(I, ev, 'region_by_layer', True, NETN(q), None)
            kd = KD(*p)
            live = z3.And(z3.Or(*[kd == KIND[x] for x in ('KIND_REGULAR', 'KIND_DEVICE_CAPACITOR', 'KIND_DEVICE_RESISTOR')]), HASR(q, *p))
            full = z3.And(live, RSHAPES(q, *p) != Reg.EMPTY)
            I.prove('the shapes of a net on a layer are in its request iff there are any', z3.And(z3.Implies(full, z3.BoolVal(len(adds) == 1)),
                                                                                                  z3.Implies(z3.BoolVal(len(adds) > 0), live)))
            I.prove('once', z3.BoolVal(len(adds) <= 1 and len(adds) == len(rest)))
            for x, m in adds:
                I.prove('in the request of the net', lay(I, x) == NETN(q))
                I.prove('with the layer\'s number', zint(at(I, m, 'layer', 'id')) == LAYER(L_(K), D_(K)))
                I.prove('with the layer\'s names', z3.And(lay(I, at(I, m, 'layer', 'canonical_layer_name')) == CANON(L_(K), D_(K)),
                                                         lay(I, at(I, m, 'layer', 'lvs_layer_name')) == SN(K, k)))
            for e in rest:
                if e[0] != 'convert' or not isinstance(e[1], Reg):
                    raise Undecided('other events')
                I.prove('with all its shapes', z3.And(e[1].v == RSHAPES(q, *p), z3.BoolVal(len(adds) == 1 and e[2] is adds[0][1].f.get('region'))))
            return
        raise Undecided(f'loop over {t}')

    class Loop(AutoTrace):
        def own(self, L): return [o for o in super().own(L) if not isinstance(o, ByName)]

        def pre(self, I, L):
            for o in L.written:
                if isinstance(o, DictVal) and not o.pairs and o.default is None and base_tag(L.it.tag) != 'pin layers':
                    o.__class__ = ByName
                    o.__dict__.pop('pairs', None)
                    o.seen, o.tr = [], tr
            super().pre(I, L)

        def havoc(self, I, L, k):
            super().havoc(I, L, k)
            for o in L.written:
                if isinstance(o, ByName):
                    o.seen = []
                    mark_havoc(L, o)

    names = {'pin layers': 'pins of layers'}

    def spec(it):
        t = base_tag(it.tag)
        return Loop(names.get(t, t[0] if isinstance(t, tuple) else t), tr, per)
    I.auto_loop = spec
    r = I.call(I.getattr(ex, 'prepare_request'), [])
    I.prove('the request is returned', z3.BoolVal(r is req))
    I.prove('it has the technology', z3.BoolVal([e for e in tr.events if e[0] == 'tech'] != [] and
                                                 all(e[1] is req.f.get('tech') for e in tr.events if e[0] == 'tech')))
    ls = [e for e in tr.events if e[0] == 'loop']
    I.prove('all pins, devices and nets', z3.BoolVal(sorted(e[1] for e in ls) == ['device list', 'nets', 'pins', 'pins of layers']))
    for e in ls:
        I.prove(f'all {e[1]}', zint(e[2].it.n) == {'device list': nd, 'nets': nn, 'pins': npn, 'pins of layers': nl}.get(e[1], -1))


# ---------------------------------------------------------------- the result
NREQ = z3.Function('request_net', Z, NAME)
PINL, PNET = z3.Function('pin_layer', Z, Z, Z), z3.Function('pin_net_of_request', Z, Z, NAME)
TMN = z3.Function('terminal_net_of_request', Z, Z, NAME)
TLL = z3.Function('terminal_layer', Z, Z, Z, Z)
PIDX = z3.Function('vertex_port_is_pin', Z, Z, Z, Z)                    # request, layer, port index
QT, QL, QP = [z3.Function('polygon_port_' + x, Z, Z, Z, Z) for x in ('terminal', 'layer', 'polygon')]
LNAME = z3.Function('name_of_layer', Z, NAME)
NODE = {x: z3.Function('node_' + x, Z, Z, t) for x, t in dict(layer=Z, id=Z, type=Z, port=Z, cx=Z, cy=Z, x1=Z, y1=Z, x2=Z, y2=Z).items()}
NODENAME = z3.Function('node_name', Z, Z, NAME)
EL = {x: z3.Function('element_' + x, Z, Z, t) for x, t in dict(id=Z, a=Z, b=Z, resistance=R).items()}
VERTEX, POLYGON, INTERNAL = 21, 22, 23


class Ports(Model):
    """layer -> list, filled by loops (each append is an event), then read by (layer, index) through the index the solver numbers ports with"""
    kind = 'Ports'

    def __init__(self, tr):
        super().__init__()
        self.tr = tr

    def getitem(self, I, k): return Slot(self, zint(k))
    def contains(self, I, k): return I.fresh('present', B)
    def m_get(self, I, k, default=None): return Slot(self, zint(k))
    def setitem(self, I, k, v): self.tr.emit(I, 'set', self, zint(k), v)


class Slot(Model):
    kind = 'Slot'

    def __init__(self, owner, layer):
        super().__init__()
        self.owner, self.layer = owner, layer

    def m_append(self, I, x): self.owner.tr.emit(I, 'append', self.owner, self.layer, x)

    def getitem(self, I, k):
        return I.ghost['port'](I, self.owner, self.layer, zint(k))


class NameDict(Model):
    """layer number -> name"""
    kind = 'NameDict'

    def setitem(self, I, k, v): self.tr.emit(I, 'name', zint(k), lay(I, v))

    def m_setdefault(self, I, k, v):
        self.tr.emit(I, 'name', zint(k), lay(I, v))
        return LNAME(zint(k))

    def contains(self, I, k): return I.fresh('present', B)
    def m_get(self, I, k, default=None): return LNAME(zint(k))

    def getitem(self, I, k):
        I.prove('the layer of the node has a name', z3.BoolVal(I.ghost['names_complete']()))
        return LNAME(zint(k))


def result(I):
    """requires: any request, any network the solver returns.  ensures: the solver gets the shapes of the net, its pins as vertex ports and its terminals
    as polygon ports; one network per net whose nodes and elements are those of the solver; a port node has the net of the pin / terminal behind
    the port, an inner node a name of its own net"""
    enums(I)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    nr, nc, nv = [I.fresh(x, Z) for x in ('nrequests', 'nconductors', 'nvias')]
    I.assume(nr >= 0, nc >= 0, nv >= 0)
    CID, VID, VB, VT = [z3.Function(x, Z, Z) for x in ('conductor_id', 'via_id', 'via_bottom_id', 'via_top_id')]

    def ref(i): return Record('layer ref', dict(id=i, canonical_layer_name=LNAME(i)))
    tech_ = Record('tech', dict(conductors=SymSeq('conductors', nc, lambda I, i: Record('conductor', dict(layer=ref(CID(zint(i)))))),
                                vias=SymSeq('vias', nv, lambda I, i: Record('via', dict(layer=ref(VID(zint(i))), bottom_conductor=ref(VB(zint(i))),
                                                                                        top_conductor=ref(VT(zint(i))))))))
    N = {x: z3.Function('n_' + x, *([Z] * k), Z) for x, k in dict(pins=2 - 1, terms=1, regs=1, tl=2, tp=3, nodes=1, els=1).items()}

    def count(I, x, *a):
        v = N[x](*a)
        I.assume(v >= 0)
        return v

    def req(I, r):
        r = zint(r)
        I.ghost['r'] = r

        def poly(t, l): return lambda I, p: Record('polygon', {}, ident=(r, t, l, zint(p)))

        def tl(t):
            return lambda I, l: Record('l2r', dict(layer=ref(TLL(r, t, zint(l)) if False else z3.Function('tl_layer', Z, Z, Z, Z)(r, t, zint(l))),
                                                   region=Record('region', dict(polygons=SymSeq(('polygons', r, t, zint(l)), count(I, 'tp', r, t, zint(l)),
                                                                                                poly(t, zint(l)))))))
        def term(I, t):
            t = zint(t)
            return Record('terminal', dict(net_name=TMN(r, t), region_by_layer=SymSeq(('tlayers', r, t), count(I, 'tl', r, t), tl(t))), ident=(r, t))

        def pin(I, p):
            p = zint(p)
            return Record('pin', dict(layer=ref(PINL(r, p)), label_point=Record('point', {}, ident=(r, p)), net_name=PNET(r, p),
                                      label=z3.Function('pin_label', Z, Z, NAME)(r, p)), ident=(r, p))

        def reg(I, l):
            l = zint(l)
            return Record('l2r', dict(layer=ref(z3.Function('region_layer', Z, Z, Z)(r, l)), region=Record('region', {}, ident=(r, l))), ident=(r, l))
        return Record('request', dict(net_name=NREQ(r), device_terminals=SymSeq(('terms', r), count(I, 'terms', r), term),
                                      pins=SymSeq(('pins', r), count(I, 'pins', r), pin), region_by_layer=SymSeq(('regions', r), count(I, 'regs', r), reg)))
    request_ = Record('request', dict(tech=tech_, net_extraction_requests=SymSeq('requests', nr, req)))
    kt = Record('kly tech', {})

    def kly(I, a, k):
        t = (a or list(k.values()))[0]
        I.prove('the solver gets the technology of the request', z3.BoolVal(t is tech_))
        return kt
    I.contracts['klayout_pex.klayout.rex_core:klayout_r_extractor_tech'] = kly
    SC = 'klayout_pex.klayout.shapes_pb2_converter:ShapesConverter.'

    def conv(what, arg):
        def f(I, a, k):
            x = a[1] if len(a) > 1 else k[arg]
            return Record('kly ' + what, {}, ident=x.ident)
        return f
    for what, arg in (('point', 'point'), ('polygon', 'polygon'), ('region', 'region')):
        I.contracts[SC + 'klayout_' + what] = conv(what, arg)
    I.ghost['defaultdict'] = lambda I, f: Ports(tr)
    dbu = I.fresh('dbu', R)
    ctx = Record('context', dict(dbu=dbu))
    ex = Obj(I.repo(MOD, 'RExtractor'), dict(pex_context=ctx, shapes_converter=Obj(I.repo('klayout_pex.klayout.shapes_pb2_converter', 'ShapesConverter'), dict(dbu=dbu))))

    def pt(r, i, x, y):
        def it(I, a, k):
            I.prove('in database units', zreal((a or list(k.values()))[0]) == dbu)
            return Record('p', dict(x=NODE[x](r, i), y=NODE[y](r, i)))
        return Record('dp', dict(to_itype=Builtin('to_itype', it)))

    def node(r):
        def f(I, i):
            i = zint(i)
            ty = NODE['type'](r, i)
            I.assume(z3.Or(ty == VERTEX, ty == POLYGON, ty == INTERNAL), NODE['port'](r, i) >= 0)
            loc = Record('box', dict(center=Builtin('center', lambda I, a, k: pt(r, i, 'cx', 'cy')), p1=pt(r, i, 'x1', 'y1'), p2=pt(r, i, 'x2', 'y2')))
            c = lambda v: Builtin('get', lambda I, a, k: v)
            return Record('rnode', dict(location=c(loc), layer=c(NODE['layer'](r, i)), object_id=c(NODE['id'](r, i)), to_s=c(NODENAME(r, i)),
                                        type=c(ty), port_index=c(NODE['port'](r, i))), ident=i)
        return f

    def element(r):
        def f(I, i):
            i = zint(i)
            c = lambda v: Builtin('get', lambda I, a, k: v)
            return Record('relement', dict(object_id=c(EL['id'](r, i)), a=c(Record('n', dict(object_id=c(EL['a'](r, i))))),
                                           b=c(Record('n', dict(object_id=c(EL['b'](r, i))))), resistance=c(EL['resistance'](r, i))))
        return f

    def solver(I, a, k):
        I.prove('the solver works with the database unit', zreal((a or list(k.values()))[0]) == dbu)

        def run(I, a, k):
            r = I.ghost['r']
            tr.emit(I, 'solve', list(a) + list(k.values()))
            return Record('network', dict(each_node=Builtin('each_node', lambda I, a, k: SymSeq(('nodes', r), count(I, 'nodes', r), node(r))),
                                          each_element=Builtin('each_element', lambda I, a, k: SymSeq(('elements', r), count(I, 'els', r), element(r)))))
        return Record('solver', dict(extract=Builtin('extract', run)))
    I.externals['klayout.pex.RNetExtractor'] = Builtin('RNetExtractor', solver)
    for n, v in (('VertexPort', VERTEX), ('PolygonPort', POLYGON), ('Internal', INTERNAL)):
        I.externals['klayout.pex.RNodeType.' + n] = v
    for p in ('Location.Kind.', 'Location.'):
        for n, v in (('POINT', 1), ('BOX', 2)):
            I.externals[PB + f'layout.location_pb2.{p}LOCATION_KIND_{n}'] = v
    for p in ('RNode.Kind.', 'RNode.'):
        I.externals[PB + f'r.r_network_pb2.{p}KIND_UNSPECIFIED'] = 0
    NODE_S = dict(location=dict(point={}, box=dict(lower_left={}, upper_right={})))
    EL_S = dict(node_a={}, node_b={})
    out = Pb(tr, dict(networks=[dict(nodes=[NODE_S], elements=[EL_S])]), ('result',))
    I.externals[PB + 'result.pex_result_pb2.RExtractionResult'] = Builtin('RExtractionResult', lambda I, a, k: out)
    # found out by the loop bodies, used after the loops (other paths): dict -> how it is filled: (kind, value template, substitution constants)
    keep = I.__dict__.setdefault('c18', dict(fills={}, named=set(), st={}))
    fills, named, st = keep['fills'], keep['named'], keep['st']
    I.ghost['names_complete'] = lambda: named >= {'conductor', 'via', 'via_bottom', 'via_top'}

    def fill(I, ev, kind, layer, what, consts):
        """the appends of one iteration: one to the list of ports, the others to companions at the same layer"""
        n = 0
        for _, d, l, x in ev:
            I.prove(f'{what}: under its layer', l == layer)
            if isinstance(x, Record) and x.name == 'kly ' + kind:
                n += 1
                ok = all(same(p, q) for p, q in zip(x.ident, consts[0])) and len(x.ident) == len(consts[0])
                I.prove(f'{what}: the {kind} itself', z3.BoolVal(ok))
                x = 'port'
            old = fills.get(d.oid)
            if old is not None and (old[0] != kind or (old[1] == 'port') != (isinstance(x, str) and x == 'port')):
                raise Undecided('a list is filled from two places')
            fills[d.oid] = (kind, x, consts[1])
        ds = [e[1].oid for e in ev]
        I.prove(f'{what}: one port, its companions in step', z3.BoolVal(n == 1 and len(set(ds)) == len(ds)))

    def port(I, d, layer, idx):
        f = fills.get(d.oid)
        if f is None or f[1] == 'port':
            raise Undecided('a port is looked up elsewhere')
        r = I.ghost['r']
        tgt = [PIDX(r, layer, idx)] if f[0] == 'point' else [QT(r, layer, idx), QL(r, layer, idx), QP(r, layer, idx)]
        return subst(f[1], list(zip(f[2], tgt)))
    I.ghost['port'] = port

    def subst(v, pairs):
        if is_sym(v):
            return z3.substitute(v, *pairs)
        if isinstance(v, tuple):
            return tuple(subst(x, pairs) for x in v)
        if isinstance(v, ListVal):
            return ListVal([subst(x, pairs) for x in v.items])
        if isinstance(v, Record):
            return Record(v.name, {k: subst(x, pairs) for k, x in v.fields.items() if is_sym(x) or isinstance(x, (tuple, Record))},
                          ident=subst(v.ident, pairs) if v.ident is not None else None)
        if isinstance(v, str):
            return v
        raise Undecided(f'companion of a port {v!r}')

    def per(I, L, k, ev):
        t = base_tag(L.it.tag)
        r = I.ghost.get('r')
        if t in ('conductors', 'vias'):
            ids = [('conductor', CID(k))] if t == 'conductors' else [('via', VID(k)), ('via_bottom', VB(k)), ('via_top', VT(k))]
            for e in ev:
                if e[0] != 'name':
                    raise Undecided('other events')
                I.prove('a layer has its canonical name', e[2] == LNAME(e[1]))
            for w, i in ids:
                if any(e[1].eq(i) for e in ev):
                    named.add(w)
            return
        if t[0] == 'pins':
            fill(I, ev, 'point', PINL(r, k), 'pin', ([r, k], [k]))
            return
        if t[0] == 'polygons':
            _, _, tt, ll = t
            fill(I, ev, 'polygon', z3.Function('tl_layer', Z, Z, Z, Z)(r, tt, ll), 'terminal', ([r, tt, ll, k], [tt, ll, k]))
            return
        if t[0] in ('terms', 'tlayers'):
            w = ('tlayers', 'tl', (r, k)) if t[0] == 'terms' else ('polygons', 'tp', (r, t[2], k) if t[0] == 'tlayers' else None)
            I.prove('all shapes of a terminal', z3.BoolVal([e[0] for e in ev] == ['loop'] and ev[0][1] == w[0] and same(ev[0][2].it.n, N[w[1]](*w[2]))))
            return
        if t[0] == 'regions':
            ok = len(ev) == 1 and ev[0][0] == 'set' and isinstance(ev[0][3], Record) and ev[0][3].name == 'kly region' and \
                all(same(a, b) for a, b in zip(ev[0][3].ident, (r, k)))
            I.prove('the shapes of a layer are given to the solver', z3.BoolVal(bool(ok)))
            for e in ev:
                I.prove('under its layer', e[2] == z3.Function('region_layer', Z, Z, Z)(r, k))
                st['regions'] = e[1].oid
            return
        if t[0] == 'nodes':
            I.prove('one node for each of the solver', z3.BoolVal(len(ev) == 1 and isinstance(ev[0][1], Pb) and ev[0][0][-1] == 'nodes'))
            for e in ev:
                check_node(I, r, k, e[1])
            return
        if t[0] == 'elements':
            I.prove('one element for each of the solver', z3.BoolVal(len(ev) == 1 and isinstance(ev[0][1], Pb) and ev[0][0][-1] == 'elements'))
            for e in ev:
                m = e[1]
                I.prove('an element connects the nodes it connects in the solver', z3.And(zint(at(I, m, 'node_a', 'node_id')) == EL['a'](r, k),
                                                                                       zint(at(I, m, 'node_b', 'node_id')) == EL['b'](r, k)))
                I.prove('with its resistance', num(at(I, m, 'resistance')) == EL['resistance'](r, k))
            return
        if t == 'requests':
            nets = [e[1] for e in ev if isinstance(e[0], tuple) and e[0][-1] == 'networks']
            I.prove('one network per net', z3.BoolVal(len(nets) == 1))
            for m in nets:
                I.prove('with the name of the net', lay(I, at(I, m, 'net_name')) == NREQ(r))
            ls = [e for e in ev if e[0] == 'loop']
            names = [e[1] for e in ls]
            if sorted(names) != sorted(['terms', 'pins', 'regions', 'nodes', 'elements']):
                raise Undecided(f'loops {names}')
            for e in ls:
                I.prove(f'all {e[1]}', z3.BoolVal(same(e[2].it.n, N[dict(terms='terms', pins='pins', regions='regs', nodes='nodes', elements='els')[e[1]]](r))))
            so = [e for e in ev if e[0] == 'solve']
            I.prove('the network is solved once', z3.BoolVal(len(so) == 1))
            for e in so:
                a = e[1]
                fk = lambda d: fills.get(getattr(d, 'oid', None), (None, None))[:2]
                I.prove('the solver gets technology, shapes, pins and terminals', z3.BoolVal(
                    len(a) == 4 and a[0] is kt and getattr(a[1], 'oid', None) == st.get('regions') and fk(a[2]) == ('point', 'port') and fk(a[3]) == ('polygon', 'port')))
            order = [e[0] if e[0] == 'solve' else e[1] for e in ev if e[0] in ('solve', 'loop')]
            I.prove('it is solved when everything is there', z3.BoolVal('solve' in order and set(order[:order.index('solve')]) == {'terms', 'pins', 'regions'}))
            return
        raise Undecided(f'loop over {t}')

    def check_node(I, r, k, m):
        ly, ty, ix = NODE['layer'](r, k), NODE['type'](r, k), NODE['port'](r, k)
        I.prove('a node has its number', zint(at(I, m, 'node_id')) == NODE['id'](r, k))
        I.prove('a node has its name', z3.BoolVal(text_is(at(I, m, 'node_name'), [NODENAME(r, k)])))
        I.prove('a node has the name of its layer', lay(I, at(I, m, 'layer_name')) == LNAME(ly))
        nn = at(I, m, 'net_name')
        if is_sym(nn):
            I.prove('a port node has the net of the pin or terminal of the port', z3.And(
                z3.Implies(ty == VERTEX, nn == PNET(r, PIDX(r, ly, ix))), z3.Implies(ty == POLYGON, nn == TMN(r, QT(r, ly, ix)))))
            I.prove('an inner node does not have the name of another net or node', ty != INTERNAL)
        else:
            parts = nn.parts if isinstance(nn, StrCat) else (nn,)
            own = any(same_part(x, NREQ(r)) for x in parts) and any(same_part(x, NODENAME(r, k)) for x in parts)
            own = own or any(same_part(x, NODE['id'](r, k)) for x in parts)
            I.prove('a port node has the net of the pin or terminal of the port', ty == INTERNAL)
            I.prove('an inner node does not have the name of another net or node', z3.BoolVal(own))
        kind = at(I, m, 'location', 'kind')
        I.prove('where it is: a point for pins, else a box', zint(kind) == z3.If(ty == VERTEX, 1, 2))
        if I.branch(ty == VERTEX):
            I.prove('its place', z3.And(*[zint(at(I, m, 'location', 'point', x)) == NODE['c' + x](r, k) for x in 'xy']))
        else:
            I.prove('its place', z3.And(*[zint(at(I, m, 'location', 'box', c, x)) == NODE[x + n](r, k)
                                          for c, n in (('lower_left', '1'), ('upper_right', '2')) for x in 'xy']))

    def same_part(x, v):
        x = getattr(x, 'value', getattr(x, 'v', x)) if not is_sym(x) and not isinstance(x, str) else x
        return is_sym(x) and x.eq(v)

    def text_is(x, parts):
        ps = x.parts if isinstance(x, StrCat) else (x,)
        return len(ps) == len(parts) and all(same_part(a, b) for a, b in zip(ps, parts))

    class Loop(AutoTrace):
        def own(self, L): return [o for o in super().own(L) if not isinstance(o, (NameDict, Ports))]

        def pre(self, I, L):
            if base_tag(L.it.tag) in ('conductors', 'vias'):
                for o in L.written:
                    if isinstance(o, DictVal) and not o.pairs:
                        o.__class__ = NameDict
                        o.__dict__.pop('pairs', None)
                        o.tr = tr
            super().pre(I, L)

        def havoc(self, I, L, k):
            super().havoc(I, L, k)
            mark_havoc(L, *[o for o in L.written if isinstance(o, (NameDict, Ports))])
    I.auto_loop = lambda it: Loop((lambda t: t[0] if isinstance(t, tuple) else t)(base_tag(it.tag)), tr, per)
    x = I.call(I.getattr(ex, 'extract'), [], dict(rex_request=request_))
    I.prove('the result is returned', z3.BoolVal(x is out))
    ls = [e for e in tr.events if e[0] == 'loop' and e[1] == 'requests']
    I.prove('all nets', z3.And(z3.BoolVal(len(ls) == 1), *[zint(e[2].it.n) == nr for e in ls]))


HARNESSES = [('solver_technology', solver_tech), ('klayout_technology', klayout_tech), ('request', request), ('result', result)]
