import ast
from .rcx import *

MOD = 'klayout_pex.fastercap.fastercap_input_builder'
ASSUMPTIONS = ['TechInfo look-ups as C17 proves them (a sidewall dielectric is of type sidewall or conformal), shapes_of_net / shapes_of_layer as C16 proves them',
               'FasterCapModelBuilder records what it is given (C22)', 'kdb.Region: -, insert and sized(d >= 0) (which covers what it starts from) as documented',
               'dbu > 0, thicknesses and widths are not negative', 'a chain of sidewall dielectrics ends', 'floats treated as exact']
PS = 'klayout_pex_protobuf.kpex.tech.process_stack_pb2.ProcessStackInfo.'
RS = Reg.SORT
F = lambda n, *s: z3.Function(n, *s)
MN, MZ, MT, MHC, MCN, MCT = F('metal', Z, NAME), F('metal.z', Z, R), F('metal.thickness', Z, R), F('metal.has_contact', Z, B), F('metal.contact', Z, NAME), F('metal.contact.thickness', Z, R)
DN, DCN, DCT = F('diffusion', Z, NAME), F('diffusion.contact', Z, NAME), F('diffusion.contact.thickness', Z, R)
NET = F('net', Z, NAME)
HASP, PL, PD = F('has_pair', NAME, B), F('pair.layer', NAME, Z), F('pair.datatype', NAME, Z)
SH, HSH = F('shapes_of_net', NAME, Z, Z, RS), F('has_shapes_of_net', NAME, Z, Z, B)
SL, HSL = F('shapes_of_layer', Z, Z, RS), F('has_shapes_of_layer', Z, Z, B)
SIZED, BOXR = F('sized', RS, Z, RS), F('bbox_enlarged', Z, RS)
SWH, SWT, SWN = F('has_sidewall', NAME, B), F('sidewall.type', NAME, Z), F('sidewall.name', NAME, NAME)
SWW, SWA, CFS, CFO, CFN = (F(x, NAME, R) for x in ('sidewall.width', 'sidewall.above', 'conformal.side', 'conformal.over', 'conformal.no_metal'))
SDH, SDN, SDZ = F('has_simple', NAME, B), F('simple.name', NAME, NAME), F('simple.height', NAME, R)
W, RR, HH = F('chain.layer', Z, Z, NAME), F('chain.region', Z, Z, RS), F('chain.height', Z, Z, R)
NMP, NMS, NMH = F('chain.no_metal', Z, Z, B), F('chain.no_metal_around', Z, Z, RS), F('chain.no_metal_height', Z, Z, R)
DR, SUB = F('diffusion_region', Z, RS), F('substrate_without', Z, RS)
KDN, KDV = F('dielectric', Z, NAME), F('dielectric.k', Z, R)
SIDE, CONF = 70, 60


class Shp(Reg):
    """shapes; sized is a function of the shapes and the distance"""
    def binop(self, I, op, other, refl): return Shp(super().binop(I, op, other, refl).v)
    def val(self, o): return o.v if isinstance(o, BoxM) else super().val(o)
    def m_dup(self, I): return Shp(self.v)
    def m_merged(self, I): return Shp(self.v)

    def m_sized(self, I, d, *a):
        if a:
            raise Undecided('sized with a mode')
        d = zint(d)
        r = SIZED(self.v, d)
        I.assume(z3.Implies(d >= 0, z3.IsSubset(self.v, r)))
        return Shp(r)

    def m_size(self, I, d, *a):
        r = self.m_sized(I, d, *a)
        I.note_write(self)
        self.v = r.v
        return self

    def m_count(self, I):
        n = I.fresh('count', Z)
        I.assume(n >= 0, (n >= 1) == (self.v != Reg.EMPTY))
        return n
    def m_hier_count(self, I): return self.m_count(I)
    def length(self, I): return self.m_count(I)


class BoxM(Model):
    kind = 'Box'

    def __init__(self, d):
        super().__init__()
        self.d = d
        self.v = BOXR(zint(d))

    def m_enlarged(self, I, d, *a):
        if a and not (len(a) == 1 and same(zint(a[0]), zint(d))):
            raise Undecided('enlarged by different amounts')
        return BoxM(z3.simplify(zint(self.d) + zint(d)))
    def m_dup(self, I): return BoxM(self.d)


def region(I, a, k):
    r = Shp()
    for x in a:
        if not isinstance(x, (Reg, BoxM)):
            raise Undecided('Region constructor')
        r.v = x.v
    return r


class Growing(Model):
    """a list that is appended to in (nested) loops"""
    kind = 'Growing'
    def m_append(self, I, x):
        I.note_write(self)
        self.tail.append(x)
    def snapshot(self): return list(self.tail)


def become_growing(o):
    o.__class__ = Growing
    o.__dict__.pop('items', None)
    o.tail = []


def ev_eq(a, b):
    """event with the wanted (name, z, height, region)"""
    return z3.And(a[0] == b[0], zreal(a[1]) == zreal(b[1]), zreal(a[2]) == zreal(b[2]), a[3] == b[3])


def exactly(I, what, got, want):
    """got (events) are the wanted ones [(condition, event)]; what is empty does not count"""
    for g in got:
        I.prove(f'{what}: nothing else is added', z3.Or(g[3] == Reg.EMPTY, *[z3.And(c, ev_eq(g, w)) for c, w in want]))
    for i, (c, w) in enumerate(want):
        I.prove(f'{what}: {w[4] if len(w) > 4 else i} is there', z3.Implies(z3.And(c, w[3] != Reg.EMPTY), z3.Or(*[ev_eq(g, w) for g in got])))


def shapes_on(net, nm):
    """(there are shapes of the net on the layer, which)"""
    return z3.And(HASP(nm), HSH(net, PL(nm), PD(nm)), SH(net, PL(nm), PD(nm)) != Reg.EMPTY), SH(net, PL(nm), PD(nm))


def layer_shapes(nm): return z3.And(HASP(nm), HSL(PL(nm), PD(nm)), SL(PL(nm), PD(nm)) != Reg.EMPTY), SL(PL(nm), PD(nm))


class Chain(Spec):
    """around metal i: sidewall and conformal dielectrics, each around the one before"""
    is_while = True

    def __init__(self, st):
        super().__init__('chain', lambda I, it: True)
        self.st = st

    def roles(self, L):
        if 'roles' in L.ghost:
            return L.ghost['roles']
        aug = {x.target.id for x in ast.walk(L.stmt) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        for x in ast.walk(L.stmt):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.BinOp) and \
                    any(isinstance(y, ast.Name) and y.id == x.targets[0].id for y in ast.walk(x.value)):
                aug.add(x.targets[0].id)
        look = {x.targets[0].id for x in ast.walk(L.stmt) if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and
                any(isinstance(y, ast.Attribute) and y.attr == 'sidewall_dielectric_layer' for y in ast.walk(x.value))}
        look |= {x.target.id for x in ast.walk(L.stmt) if isinstance(x, ast.NamedExpr)}
        r = {}
        for n in L.carried():
            if n not in L.assigned:
                continue
            v = L.env.lookup(n)
            if n in look:
                r[n] = 'record'
            elif isinstance(v, Reg):
                r[n] = 'region'
            elif v is None:
                r[n] = 'no_metal_region'
            elif is_sym(v) and v.sort() == NAME:
                r[n] = 'layer'
            elif isinstance(v, (int, Fraction)) or is_sym(v):
                r[n] = 'height' if n in aug else 'no_metal_height'
        if len(set(r.values())) != len(r):
            raise Undecided(f'locals of the chain {r}')
        L.ghost['roles'] = r
        return r

    def pre(self, I, L):
        if any(o is not self.st['tr'] for o in L.written):
            raise Undecided('the chain writes')
        L.ghost['tr'] = list(L.written)
        i = self.st['metal']
        I.assume(W(i, 0) == MN(i), RR(i, 0) == layer_shapes(MN(i))[1], HH(i, 0) == 0, z3.Not(NMP(i, 0)), NMH(i, 0) == 0)
        self.roles(L)

    def step(self, i, t):
        w = W(i, t)
        conf = SWT(w) == CONF
        d = z3.ToInt(z3.If(conf, CFS(w), SWW(w)) / self.st['dbu'])
        nm = z3.And(conf, CFN(w) > 0)
        return z3.Implies(SWH(w), z3.And(
            W(i, t + 1) == SWN(w), RR(i, t + 1) == SIZED(RR(i, t), d), z3.IsSubset(RR(i, t), RR(i, t + 1)),
            HH(i, t + 1) == HH(i, t) + z3.If(conf, MT(i) + CFO(w), z3.If(SWA(w) != 0, SWA(w), MT(i))),
            NMP(i, t + 1) == z3.Or(nm, NMP(i, t)), NMS(i, t + 1) == z3.If(nm, RR(i, t + 1), NMS(i, t)), NMH(i, t + 1) == z3.If(nm, CFN(w), NMH(i, t))))

    def value(self, I, L, role, t):
        i = self.st['metal']
        if role == 'region':
            return Shp(RR(i, t))
        if role == 'no_metal_region':
            return Shp(Reg.minus(self.st['blk'], NMS(i, t))) if I.branch(NMP(i, t)) else None
        if role == 'record':
            return side_record(W(i, t)) if I.branch(SWH(W(i, t))) else None
        return dict(layer=W, height=HH, no_metal_height=NMH)[role](i, t)

    def havoc(self, I, L, t):
        for n, r in self.roles(L).items():
            set_local(L, n, self.value(I, L, r, t))
        L.ghost['t'] = t
        self.st['t'] = t
        if L.ghost['tr']:
            L.ghost['pre_events'] = list(self.st['tr'].events)
            self.st['tr'].events = [('sofar', 'chain')]
        mark_havoc(L, *L.written)

    def inv(self, I, L, t):
        i = self.st['metal']
        out = [('heights are not negative', HH(i, t) >= 0), ('what is added where there is no metal lies around the previous', z3.Implies(NMP(i, t), z3.IsSubset(NMS(i, t), RR(i, t))))]
        for n, r in self.roles(L).items():
            v = L.env.lookup(n)
            if r in ('no_metal_region', 'record'):
                c = NMP(i, t) if r == 'no_metal_region' else SWH(W(i, t))
                if v is None:
                    f = z3.Not(c)
                elif r == 'record':
                    f = z3.And(c, v.ident == W(i, t)) if isinstance(v, Record) and v.ident is not None else z3.BoolVal(False)
                else:
                    f = z3.And(c, v.v == Reg.minus(self.st['blk'], NMS(i, t)))
            elif r == 'region':
                f = v.v == RR(i, t) if isinstance(v, Reg) else z3.BoolVal(False)
            elif r == 'layer':
                f = lay(I, v) == W(i, t)
            else:
                f = zreal(v) == dict(height=HH, no_metal_height=NMH)[r](i, t)
            out.append((f'{r}: that of the dielectrics so far', f))
        return out

    def facts(self, I, L, t):
        i = self.st['metal']
        w = W(i, t)
        return [t >= 0, self.step(i, t), *side_facts(w), MT(i) >= 0]

    def events(self, L):
        if not L.ghost['tr']:
            return []
        ev = self.st['tr'].events
        if not ev or ev[0] != ('sofar', 'chain'):
            raise Undecided('trace was replaced')
        return ev[1:]

    def elem_done(self, I, L, t, ctx):
        i = self.st['metal']
        w = W(i, t)
        got = [e[1:] for e in self.events(L)]
        if any(e[0] != 'd' for e in self.events(L)):
            raise Undecided('other events')
        I.prove('there is another dielectric', SWH(w))
        exactly(I, 'around a metal', got, [
            (z3.BoolVal(True), (SWN(w), MZ(i), HH(i, t + 1), RR(i, t + 1), 'the dielectric grown around the previous one')),
            (z3.And(SWT(w) == CONF, CFN(w) > 0), (SWN(w), MZ(i), CFN(w), Reg.minus(self.st['blk'], RR(i, t + 1)), 'the conformal dielectric where there is no metal'))])

    def done(self, I, L, t):
        i = self.st['metal']
        if self.events(L):
            raise Undecided('events of the last round')
        I.prove('the chain ends where no dielectric refers to the last one', z3.Not(SWH(W(i, t))))
        if L.ghost['tr']:
            self.st['tr'].events = L.ghost['pre_events'] + [('loop', 'chain', L)]
        self.st['ended'] = (i, t)

    def on_break(self, I, L, t): self.done(I, L, t)

    def after(self, I, L):
        self.done(I, L, L.ghost['t'])


def side_facts(w): return [z3.Or(SWT(w) == SIDE, SWT(w) == CONF), SWW(w) >= 0, SWA(w) >= 0, CFS(w) >= 0, CFO(w) >= 0]


def side_record(w):
    return Record('sidewall layer', dict(
        name=SWN(w), layer_type=SWT(w), sidewall_dielectric_layer=Record('s', dict(width_outside_sidewall=SWW(w), height_above_metal=SWA(w))),
        conformal_dielectric_layer=Record('c', dict(thickness_sidewall=CFS(w), thickness_over_metal=CFO(w), thickness_where_no_metal=CFN(w)))), ident=w)


def build(I):
    """requires: any technology, any nets with any shapes.  ensures: materials, conductors and dielectrics of the model are exactly those of the stack"""
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    for k, v in dict(SIDEWALL_DIELECTRIC=SIDE, CONFORMAL_DIELECTRIC=CONF).items():
        for p in ('', 'LayerType.'):
            I.externals[PS + p + 'LAYER_TYPE_' + k] = v
    I.externals['klayout.db.Region'] = Builtin('Region', region)
    dbu = I.fresh('dbu', R)
    I.assume(dbu > 0)
    cnt = {x: I.fresh('n_' + x, Z) for x in ('metals', 'diffusions', 'nets', 'dielectrics', 'regions')}
    I.assume(*[v >= 0 for v in cnt.values()], cnt['metals'] >= 1)
    blk = BOXR(z3.ToInt(8 / dbu))
    margin = z3.ToInt(1 / dbu)
    st = dict(tr=tr, dbu=dbu, blk=blk)

    def metal(I, i):
        i = zint(i)
        c = Record('contact', dict(name=MCN(i), thickness=MCT(i)))
        return Record('layer', dict(name=MN(i), metal_layer=Record('metal', dict(z=MZ(i), thickness=MT(i), contact_above=c), has=dict(contact_above=MHC(i)))))

    def diffusion(I, j):
        j = zint(j)
        return Record('layer', dict(name=DN(j), diffusion_layer=Record('diff', dict(contact_above=Record('contact', dict(name=DCN(j), thickness=DCT(j)))))))
    subh, subt = I.fresh('substrate.height', R), I.fresh('substrate.thickness', R)
    fox, foxk = I.fresh('fox', NAME), I.fresh('fox.k', R)
    lookup = lambda has, val: Lookup(lambda I, k: has(lay(I, k)), lambda I, k: val(lay(I, k)))
    ti = Obj(I.repo(TI, 'TechInfo'), dict(
        field_oxide_layer=Record('fox', dict(name=fox, field_oxide_layer=Record('f', dict(dielectric_k=foxk)))),
        dielectric_by_name=SymDict('dielectrics', cnt['dielectrics'], lambda I, i: KDN(zint(i)), lambda I, i: KDV(zint(i)), unique=True),
        process_metal_layers=SymSeq('metals', cnt['metals'], metal), process_diffusion_layers=SymSeq('diffusions', cnt['diffusions'], diffusion),
        gate_poly_layer=metal(I, 0), process_substrate_layer=Record('subs', dict(substrate_layer=Record('s', dict(height=subh, thickness=subt))))))
    arg = lambda a, k, i, n: a[i] if len(a) > i else k[n]

    def sidewall(I, a, k):
        w = lay(I, arg(a, k, 1, 'layer_name'))
        if not I.branch(SWH(w)):
            return None
        I.assume(*side_facts(w))
        return side_record(w)

    def simple(I, a, k):
        w = lay(I, arg(a, k, 1, 'layer_name'))
        return (Record('simple', dict(name=SDN(w))), SDZ(w)) if I.branch(SDH(w)) else (None, I.fresh('h', R))

    def pair(I, a, k):
        w = lay(I, arg(a, k, 1, 'layer_name'))
        return (PL(w), PD(w)) if I.branch(HASP(w)) else None
    I.contracts[TI + ':TechInfo.sidewall_dielectric_layer'] = sidewall
    I.contracts[TI + ':TechInfo.simple_dielectric_above_metal'] = simple
    I.contracts[TI + ':TechInfo.gds_pair'] = pair
    I.contracts[MOD + ':FasterCapInputBuilder.gds_pair'] = pair
    pr = lambda p: (zint(p[0]), zint(p[1]))

    def of_net(I, a, k):
        p, n = pr(arg(a, k, 0, 'gds_pair')), arg(a, k, 1, 'net')
        n = n.fields['nm'] if isinstance(n, Record) else lay(I, n)
        return Shp(SH(n, *p)) if I.branch(HSH(n, *p)) else None

    def of_layer(I, a, k):
        p = pr(arg(a, k, 0, 'gds_pair'))
        return Shp(SL(*p)) if I.branch(HSL(*p)) else None

    def net(I, i):
        n = NET(zint(i))
        return Record('net', dict(nm=n, name=n, expanded_name=Builtin('expanded_name', lambda I, a, k: n)))
    top = I.fresh('top', NAME)
    circ = Record('circuit', dict(each_net=Builtin('each_net', lambda I, a, k: SymSeq('nets', cnt['nets'], net))))

    def by_name(I, a, k):
        if not I.branch(lay(I, a[0]) == top):
            raise Undecided('another circuit')
        return circ if I.branch(I.fresh('has_circuit', B)) else None
    nl = Record('netlist', dict(circuit_by_name=Builtin('circuit_by_name', by_name), each_circuit=Builtin(
        'each_circuit', lambda I, a, k: SymSeq('circuits', I.fresh('nc', Z), lambda I, i: Record('circuit', dict(name=I.fresh('cn', NAME)))))))
    ctx = Record('context', dict(
        dbu=dbu, lvsdb=Record('lvsdb', dict(netlist=Builtin('netlist', lambda I, a, k: nl))), annotated_top_cell=Record('cell', dict(name=top)),
        shapes_of_net=Builtin('shapes_of_net', of_net), shapes_of_layer=Builtin('shapes_of_layer', of_layer),
        top_cell_bbox=Builtin('top_cell_bbox', lambda I, a, k: BoxM(0))))
    opts = dict(k_void=I.fresh('k_void', R), delaunay_amax=I.fresh('amax', R), delaunay_b=I.fresh('b', R))
    made = Record('generator', {})
    FM = 'klayout_pex.fastercap.fastercap_model_generator:FasterCapModelBuilder'
    names = ['dbu', 'k_void', 'delaunay_amax', 'delaunay_b']

    def init(I, a, k):
        v = dict(dict(delaunay_amax=z3.RealVal(0), delaunay_b=z3.RealVal(1)), **dict(zip(names, a[1:])), **k)
        tr.emit(I, 'new', [v.get(x) for x in names])

    def add(kind, first):
        def f(I, a, k):
            v = [arg(a, k, i + 1, n) for i, n in enumerate([first, 'layer', 'z', 'height'])]
            if not isinstance(v[1], Reg):
                raise Undecided(f'layer {v[1]!r}')
            v[1].kept = True        # the builder keeps the region itself
            tr.emit(I, kind, lay(I, v[0]), zreal(v[2]), zreal(v[3]), v[1].v)
        return f
    I.contracts[FM + '.__init__'] = init
    I.contracts[FM + '.add_material'] = lambda I, a, k: tr.emit(I, 'm', lay(I, arg(a, k, 1, 'name')), zreal(arg(a, k, 2, 'k')))
    I.contracts[FM + '.add_conductor'] = add('c', 'net_name')
    I.contracts[FM + '.add_dielectric'] = add('d', 'material_name')
    I.contracts[FM + '.generate'] = lambda I, a, k: (tr.emit(I, 'generate'), made)[1]

    def loops(ev): return [e for e in ev if e[0] == 'loop']

    def per(I, L, k, ev):
        t = base_tag(L.it.tag)
        if t == 'dielectrics':
            ok = len(ev) == 1 and ev[0][0] == 'm'
            I.prove('one material per dielectric', z3.BoolVal(ok))
            if ok:
                I.prove('with its k', z3.And(ev[0][1] == KDN(k), ev[0][2] == KDV(k)))
            return
        if t == 'nets':
            if any(e[0] != 'loop' for e in ev):
                raise Undecided('other events')
            I.prove('all metals and diffusions of a net', z3.BoolVal(sorted(e[1] for e in ev) == ['diffusions', 'metals'] and
                                                                      all(same(e[2].it.n, cnt[e[1]]) for e in ev)))
            return
        if t == 'diffusions' or (t == 'metals' and st.get('net') is not None):
            if any(e[0] != 'c' for e in ev):
                raise Undecided('other events')
            n = NET(st['net'])
            got = [e[1:] for e in ev]
            if t == 'metals':
                a, ra = shapes_on(n, MN(k))
                b, rb = shapes_on(n, MCN(k))
                exactly(I, 'metal of a net', got, [(a, (n, MZ(k), MT(k), ra, 'the metal')), (z3.And(MHC(k), b), (n, MZ(k) + MT(k), MCT(k), rb, 'the contact above'))])
            else:
                a, ra = shapes_on(n, DN(k))
                b, rb = shapes_on(n, DCN(k))
                exactly(I, 'diffusion of a net', got, [(a, (n, 0, z3.Q(1, 10), ra, 'the diffusion')), (b, (n, 0, DCT(k), rb, 'the contact above'))])
            return
        if t == 'metals':
            nm = MN(k)
            has, cov = layer_shapes(nm)
            ended = st.get('ended')
            if any(e[0] == 'loop' and e[1] != 'chain' or e[0] not in ('loop', 'd') for e in ev):
                raise Undecided('other events')
            ran = ended is not None and ended[0].eq(k)
            I.prove('what is on the metal has its sidewall dielectrics', z3.Implies(has, z3.Or(z3.BoolVal(ran), z3.Not(SWH(nm)))))
            got = [e[1:] for e in ev if e[0] == 'd']
            z, top_ = MZ(k), SDZ(nm)
            if ran:
                tt = ended[1]
                out = Reg.minus(blk, RR(k, tt))
                on = z3.And(NMP(k, tt), Reg.minus(blk, NMS(k, tt)) != Reg.EMPTY)
                zz = z3.If(NMP(k, tt), NMH(k, tt), 0)
                want = [(z3.And(SDH(nm), has), (SDN(nm), z + HH(k, tt), top_ - HH(k, tt), RR(k, tt), 'the simple dielectric above the sidewalls')),
                        (z3.And(SDH(nm), has), (SDN(nm), z + zz, top_ - zz, out, 'the simple dielectric beside them')),
                        (z3.And(SDH(nm), z3.Not(has)), (SDN(nm), z, top_, blk, 'the simple dielectric'))]
            else:
                want = [(z3.And(SDH(nm), z3.Not(has)), (SDN(nm), z, top_, blk, 'the simple dielectric')),
                        (z3.And(SDH(nm), has), (SDN(nm), z, top_, cov, 'the simple dielectric on the metal')),
                        (z3.And(SDH(nm), has), (SDN(nm), z, top_, Reg.minus(blk, cov), 'the simple dielectric beside the metal'))]
            exactly(I, 'above a metal', got, want)
            return
        raise Undecided(f'loop over {t}')

    class Loop(AutoTrace):
        def tag(self, L): return base_tag(L.it.tag)
        def grows(self, L): return [o for o in super().own(L) if isinstance(o, Growing) or (isinstance(o, ListVal) and self.tag(L) in ('nets', 'diffusions'))]
        def own(self, L): return [o for o in super().own(L) if o not in self.grows(L)]

        def pre(self, I, L):
            gs = self.grows(L)
            if len(gs) > 1:
                raise Undecided('several lists')
            for o in gs:
                if (o.tail if isinstance(o, Growing) else o.items):
                    raise Undecided('the list is not empty')
            super().pre(I, L)

        def havoc(self, I, L, k):
            super().havoc(I, L, k)
            for o in self.grows(L):
                if not isinstance(o, Growing):
                    become_growing(o)
                o.tail = []
                mark_havoc(L, o)

        def elem_begin(self, I, L, k):
            if self.tag(L) == 'nets':
                st['net'] = zint(k)
            elif self.tag(L) == 'metals':
                st['metal'] = zint(k)

        def elem_done(self, I, L, k, ctx):
            super().elem_done(I, L, k, ctx)
            for o in self.grows(L):
                if self.tag(L) == 'nets':
                    if o.tail:
                        raise Undecided('appended elsewhere')
                    continue
                a, ra = shapes_on(NET(st['net']), DN(k))
                if any(not isinstance(x, Reg) for x in o.tail) or len(o.tail) > 1:
                    raise Undecided('a list of something else')
                if o.tail and I._check(o.tail[0].v != ra) != z3.unsat:
                    raise Undecided('a list of something else')
                I.prove('every diffusion is listed', z3.Implies(a, z3.BoolVal(len(o.tail) == 1)))

        def after(self, I, L):
            gs = self.grows(L)
            super().after(I, L)
            if self.tag(L) == 'nets':
                st['net'] = None
                for o in gs:
                    o.__class__ = SymSeq
                    o.__dict__.pop('tail', None)
                    o.tag, o.n, o.get = 'regions', cnt['regions'], lambda I, i: Shp(DR(zint(i)))

    # metals and nets are bound before the probe of inner loops runs
    def nets_get(f):
        def g(I, i):
            st['net'] = zint(i)
            return f(I, i)
        return g
    net = nets_get(net)

    def spec(it):
        t = base_tag(it.tag)
        if t in ('dielectrics', 'nets', 'metals', 'diffusions'):
            return Loop(t, tr, per)
        raise Undecided(f'loop over {t}')
    I.auto_loop = spec

    def metal_begin(I, i):
        st['metal'] = zint(i)
        return metal(I, i)
    ti.fields['process_metal_layers'] = SymSeq('metals', cnt['metals'], metal_begin)
    sub = RegionLoop('regions', lambda I, it: base_tag(it.tag) == 'regions', lambda L, k: SUB(k),
                     lambda L, k: [SUB(k + 1) == Reg.minus(SUB(k), SIZED(DR(k), margin))])
    I.assume(SUB(0) == blk)
    I.loop_specs = [sub, Chain(st)]
    b = I.instantiate(I.repo(MOD, 'FasterCapInputBuilder'), [], dict(pex_context=ctx, tech_info=ti, **opts))
    try:
        r = I.call(I.getattr(b, 'build'), [])
    except PyRaise as e:
        I.prove('no error but for a missing circuit', z3.BoolVal('Error' not in repr(e.exc)))
        return
    ev = tr.events
    I.prove('the generated model is returned', z3.BoolVal(r is made and [e[0] for e in ev].count('generate') == 1 and ev[-1][0] == 'generate'))
    news = [e for e in ev if e[0] == 'new']
    I.prove('one model', z3.BoolVal(len(news) == 1 and ev[0][0] == 'new'))
    for e in news:
        I.prove('with its options', z3.And(*[zreal(x) == y for x, y in zip(e[1], [dbu, opts['k_void'], opts['delaunay_amax'], opts['delaunay_b']])]))
    ls = loops(ev)
    if sorted(e[1] for e in ls) != ['dielectrics', 'metals', 'nets']:
        raise Undecided(f'loops {[e[1] for e in ls]}')
    for e in ls:
        I.prove(f'all {e[1]}', z3.BoolVal(same(e[2].it.n, cnt[e[1]])))
    ms = [e for e in ev if e[0] == 'm' or (e[0] == 'loop' and e[1] == 'dielectrics')]
    I.prove('the materials are the field oxide, then the dielectrics', z3.BoolVal([e[0] for e in ms] == ['m', 'loop']))
    for e in ms:
        if e[0] == 'm':
            I.prove('the field oxide with its k', z3.And(e[1] == fox, e[2] == foxk))
    exactly(I, 'substrate', [e[1:] for e in ev if e[0] == 'c'],
            [(z3.BoolVal(True), (I.literal('VSUBS', NAME), -subh - subt, subt, SUB(cnt['regions']), 'VSUBS, left out around diffusions'))])
    exactly(I, 'field oxide', [e[1:] for e in ev if e[0] == 'd'], [(z3.BoolVal(True), (fox, 0, MZ(0), blk, 'the field oxide up to the gate poly'))])


class Lookup(Model):
    kind = 'Lookup'

    def __init__(self, has, val):
        super().__init__()
        self.h, self.v = has, val
    def m_get(self, I, k, default=None): return self.v(I, k) if I.branch(self.h(I, k)) else default


HARNESSES = [('build', build)]
