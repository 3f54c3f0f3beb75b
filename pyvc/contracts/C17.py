from .rcx import *

ASSUMPTIONS = ['protobuf messages are records of their fields; an unset contact reads as a contact with an empty name',
               'two metals have different names (C20 checks the shipped technologies)', 'MultipleChoicePattern.is_included is a function of the name (C21)', 'floats treated as exact']
PS = 'klayout_pex_protobuf.kpex.tech.process_stack_pb2.ProcessStackInfo.'
TYPES = dict(UNSPECIFIED=0, SUBSTRATE=10, NWELL=20, DIFFUSION=30, FIELD_OXIDE=40, SIMPLE_DIELECTRIC=50, CONFORMAL_DIELECTRIC=60, SIDEWALL_DIELECTRIC=70, METAL=80)
F = lambda n, *s: z3.Function('stack.' + n, *s)
LT, NM, INC = F('type', Z, Z), F('name', Z, NAME), z3.Function('included', NAME, B)
DK = {t: F('k.' + t, Z, R) for t in ('simple', 'conformal', 'sidewall')}
REFC, REFS = F('conformal.reference', Z, NAME), F('sidewall.reference', Z, NAME)
MZ, MT = F('metal.z', Z, R), F('metal.thickness', Z, R)
HASCT = F('has_contact', Z, B)
CNAME, CBELOW, CABOVE = (F('contact.' + x, Z, NAME) for x in ('name', 'below', 'above'))
T = lambda x: TYPES[x]


def contact(i): return Record('contact', dict(name=CNAME(i), layer_below=CBELOW(i), metal_above=CABOVE(i)), ident=i)


def layer(i):
    c = contact(i)
    has = dict(contact_above=HASCT(i))
    metal = Record('metal', dict(z=MZ(i), thickness=MT(i), contact_above=c), has=has, ident=i)
    return Record('layer', dict(
        name=NM(i), layer_type=LT(i), metal_layer=metal,
        simple_dielectric_layer=Record('simple', dict(dielectric_k=DK['simple'](i))),
        conformal_dielectric_layer=Record('conformal', dict(dielectric_k=DK['conformal'](i), reference=REFC(i))),
        sidewall_dielectric_layer=Record('sidewall', dict(dielectric_k=DK['sidewall'](i), reference=REFS(i))),
        nwell_layer=Record('nwell', dict(contact_above=c), has=has), diffusion_layer=Record('diffusion', dict(contact_above=c), has=has)), ident=i)


def enums(I):
    for k, v in TYPES.items():
        for p in ('', 'LayerType.'):
            I.externals[PS + p + 'LAYER_TYPE_' + k] = v


def index(I, rec, name):
    """the position of a returned record"""
    if not (isinstance(rec, Record) and rec.name == name and rec.ident is not None):
        raise Undecided(f'not a {name}: {rec!r}')
    return rec.ident


def stack(I, facts=None):
    """an arbitrary process stack.  marks: an arbitrary layer g"""
    enums(I)
    auto(I)
    n, g = I.fresh('n', Z), I.fresh('g', Z)
    I.assume(n >= 0, g >= 0, g < n)
    I.ghost['marks'] = [g]

    def get(I, i):
        i = zint(i)
        if facts:
            I.assume(*facts(i))
        return layer(i)
    flt = Record('filter', dict(is_included=Builtin('is_included', lambda I, a, k: INC(lay(I, (list(a) + list(k.values()))[0])))))
    seq = SymSeq('stack', n, get)
    ti = Obj(I.repo(TI, 'TechInfo'), dict(tech=Record('technology', dict(process_stack=Record('stack', dict(layers=seq)))), dielectric_filter=flt))
    return ti, n, g


def filtered(I, r, want, n, g, what, item=lambda I, x: index(I, x, 'layer')):
    """r is the list of the layers with want, in order"""
    if not isinstance(r, CompSeq):
        raise Undecided(f'{what}: {r!r}')
    it = r
    while isinstance(getattr(it, 'it', None), IterSpec) and isinstance(it.it.base, CompSeq):
        it = it.it.base
    I.prove(f'{what}: all layers are looked at, in order', z3.And(z3.BoolVal(base_tag(it.it.tag) == 'stack'), it.it.n == n))
    I.prove(f'{what}: exactly these', r.cond(I, g) == want(g) if r.filtered() else want(g))
    I.assume(want(g))
    I.prove(f'{what}: the layer itself', item(I, r.at(I, g)) == g)


def by_type(I):
    """requires: any process stack.  ensures: the layers of a type are exactly those, in stack order"""
    ti, n, g = stack(I)
    which = [('process_metal_layers', 'METAL'), ('process_diffusion_layers', 'DIFFUSION')]
    p, t = which[0] if I.branch(I.fresh('metals', B)) else which[1]
    filtered(I, I.getattr(ti, p), lambda i: LT(i) == T(t), n, g, p)


def first_of(I):
    """requires: any process stack.  ensures: substrate, field oxide and gate poly are the first layer of their type (an error if there is none)"""
    ti, n, g = stack(I)
    which = [('process_substrate_layer', 'SUBSTRATE'), ('field_oxide_layer', 'FIELD_OXIDE'), ('gate_poly_layer', 'METAL')]
    p, t = which[0] if I.branch(I.fresh('a', B)) else which[1] if I.branch(I.fresh('b', B)) else which[2]
    try:
        r = I.getattr(ti, p)
    except PyRaise:
        I.prove(f'{p}: an error only if there is none', LT(g) != T(t))
        return
    i = index(I, r, 'layer')
    I.prove(f'{p}: the first of its type', z3.And(i >= 0, i < n, LT(i) == T(t), z3.Implies(LT(g) == T(t), i <= g)))


def diel(i): return z3.And(z3.Or(*[LT(i) == T(x) for x in ('SIMPLE_DIELECTRIC', 'CONFORMAL_DIELECTRIC', 'SIDEWALL_DIELECTRIC')]), INC(NM(i)))
def kof(i): return z3.If(LT(i) == T('SIMPLE_DIELECTRIC'), DK['simple'](i), z3.If(LT(i) == T('CONFORMAL_DIELECTRIC'), DK['conformal'](i), DK['sidewall'](i)))


def dielectrics(I):
    """requires: any process stack and filter.  ensures: the dielectrics are exactly the included ones, in stack order"""
    ti, n, g = stack(I)
    filtered(I, I.getattr(ti, 'filtered_dielectric_layers'), diel, n, g, 'dielectrics')


def dielectric_k(I):
    """requires: any stack.  ensures: dielectric_by_name has every included dielectric; what it has under a name is the k of an included one of that name"""
    ti, n, g = stack(I)
    d = I.getattr(ti, 'dielectric_by_name')
    if not isinstance(d, SymDict):
        raise Undecided(f'dielectric_by_name {d!r}')
    nm = NM(g) if I.branch(diel(g)) else I.fresh('any', NAME)
    h, w = d.find(I, nm)
    I.prove('every included dielectric is there', z3.Implies(z3.And(diel(g), NM(g) == nm), h))
    if I.branch(h):
        I.prove('an included dielectric of that name', z3.And(w >= 0, w < n, diel(w), NM(w) == nm))
        I.prove('with its k', zreal(d.val(I, w)) == kof(w))


def refers(i, nm):
    return z3.And(INC(NM(i)), z3.Or(z3.And(LT(i) == T('SIDEWALL_DIELECTRIC'), REFS(i) == nm), z3.And(LT(i) == T('CONFORMAL_DIELECTRIC'), REFC(i) == nm)))


def sidewall(I):
    """requires: any process stack and filter.  ensures: the sidewall dielectric is the only included sidewall or conformal layer that refers to the layer;
    none if there is none, an error if there are two"""
    ti, n, g = stack(I)
    h = I.fresh('h', Z)
    I.assume(h >= 0, h < n, h != g)
    I.ghost['marks'].append(h)
    nm = I.fresh('layer', NAME)
    try:
        r = I.call(I.getattr(ti, 'sidewall_dielectric_layer'), [nm])
    except PyRaise as e:
        if 'Error' in repr(e.exc):
            I.prove('no other error', z3.BoolVal(False))
        I.prove('an error only if two refer to the layer', z3.Or(*[z3.And(a >= 0, a < b, b < n, refers(a, nm), refers(b, nm))
                                                                 for a in I.ghost['marks'] for b in I.ghost['marks'] if a is not b]))
        return
    if r is None:
        I.prove('none only if none refers to the layer', z3.Not(refers(g, nm)))
        return
    i = index(I, r, 'layer')
    I.prove('it refers to the layer', z3.And(i >= 0, i < n, refers(i, nm)))
    I.prove('it is the only one', z3.Implies(refers(g, nm), g == i))


class Above(Spec):
    """the walk from the metal to the next metal"""
    def __init__(self, I, p, q, d, hasd, n):
        super().__init__('above', lambda I, it: base_tag(it.tag) == 'stack')
        self.p, self.q, self.d, self.hasd, self.n = p, q, d, hasd, n

    def locs(self, L): return [x for x in L.carried() if x in L.assigned and x != getattr(L.stmt.target, 'id', None)]

    def pre(self, I, L):
        if L.written:
            raise Undecided('the walk writes')

    def state(self, k):
        return dict(found=(k > self.p, self.p), diel=(z3.And(self.hasd, self.d < k), self.d))

    def havoc(self, I, L, k):
        for x in self.locs(L):
            role = self.role(x)
            if role is None:
                raise Undecided(f'local {x} of the walk')
            c, i = self.state(k)[role]
            set_local(L, x, layer(i) if I.branch(c) else None)

    def role(self, x): return 'found' if x == self.names[0] else 'diel' if x == self.names[1] else None

    def inv(self, I, L, k):
        r = [('the next metal is not passed', k <= self.q), ('a dielectric that is passed is included', z3.Implies(z3.And(self.hasd, self.d < k), INC(NM(self.d))))]
        for x in self.locs(L):
            c, i = self.state(k)[self.role(x)]
            v = L.env.lookup(x)
            if v is None:
                r.append((f'{self.role(x)}: not yet', z3.Not(c)))
            else:
                r.append((f'{self.role(x)}: the layer', z3.And(c, index(I, v, 'layer') == i)))
        return r


def above(I):
    """requires: a metal p of the stack, the next metal q (or the end), the first simple dielectric d between (or none).
    ensures: d with the height up to q (5 µm below air), nothing if there is none or it is filtered out"""
    p, q, d, hasd = I.fresh('p', Z), I.fresh('q', Z), I.fresh('d', Z), I.fresh('hasd', B)
    nm = I.fresh('metal', NAME)

    def facts(i):
        return [z3.Implies(NM(i) == nm, i == p), z3.Implies(z3.And(p < i, i < q), LT(i) != T('METAL')),
                z3.Implies(z3.And(p < i, i < q, z3.Or(z3.Not(hasd), i < d)), LT(i) != T('SIMPLE_DIELECTRIC'))]
    ti, n, g = stack(I, facts)
    I.assume(p >= 0, p < n, q > p, q <= n, NM(p) == nm, LT(p) == T('METAL'), z3.Implies(q < n, LT(q) == T('METAL')),
             z3.Implies(hasd, z3.And(d > p, d < q, LT(d) == T('SIMPLE_DIELECTRIC'))))
    fn = I.getattr(ti, 'simple_dielectric_above_metal')
    sp = Above(I, p, q, d, hasd, n)
    sp.names = walk_names(I, fn)
    I.loop_specs = [sp]
    r = I.call(fn, [nm])
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Undecided(f'result {r!r}')
    lyr, h = r
    if lyr is None:
        I.prove('nothing only if there is none, or it is left out', z3.Not(z3.And(hasd, INC(NM(d)))))
        return
    i = index(I, lyr, 'layer')
    I.prove('the first simple dielectric below the next metal', z3.And(hasd, i == d))
    I.prove('it is included', INC(NM(d)))
    I.prove('its height is that of the next metal', z3.Implies(q < n, zreal(h) == MZ(q) - MZ(p)))
    I.prove('5 µm at the top', z3.Implies(q == n, zreal(h) == 5))


def walk_names(I, fn):
    """the two carried locals, by what is assigned to them: the one set where the name matches is the metal"""
    import ast
    f = fn.fn if hasattr(fn, 'fn') else fn
    node = f.node
    loops = [x for x in ast.walk(node) if isinstance(x, ast.For)]
    if len(loops) != 1 or not isinstance(loops[0].target, ast.Name):
        raise Undecided('another walk')
    t = loops[0].target.id
    got = {}
    for x in ast.walk(loops[0]):
        if isinstance(x, ast.If):
            def sets(b): return [y.targets[0].id for s in b for y in [s] if isinstance(y, ast.Assign) and isinstance(y.value, ast.Name) and y.value.id == t
                                 and isinstance(y.targets[0], ast.Name)]
            byname = any(isinstance(y, ast.Attribute) and y.attr == 'name' for y in ast.walk(x.test)) and isinstance(x.test, ast.Compare)
            for v in sets(x.body):
                got.setdefault('found' if byname else 'diel', v)
    if set(got) != {'found', 'diel'}:
        raise Undecided('another walk')
    return got['found'], got['diel']


def contacts(I):
    """requires: any stack.  ensures: the contact of a device layer is that of a well or diffusion of that name"""
    ti, n, g = stack(I)
    d = I.getattr(ti, 'contact_by_device_lvs_layer_name')
    if not isinstance(d, SymDict):
        raise Undecided(f'{d!r}')
    dev = lambda i: z3.Or(LT(i) == T('NWELL'), LT(i) == T('DIFFUSION'))
    nm = NM(g) if I.branch(dev(g)) else I.fresh('any', NAME)
    h, w = d.find(I, nm)
    I.prove('every well and diffusion is there', z3.Implies(z3.And(dev(g), NM(g) == nm), h))
    if I.branch(h):
        I.prove('a well or diffusion of that name', z3.And(w >= 0, w < n, dev(w), NM(w) == nm))
        I.prove('with its contact', index(I, d.val(I, w), 'contact') == w)


def has_ct(i): return z3.And(HASCT(i), z3.Or(*[LT(i) == T(x) for x in ('NWELL', 'DIFFUSION', 'METAL')]))


def vias(I):
    """requires: any stack.  ensures: every contact of a well, diffusion or metal is found under its name, what is found under a name is a contact of that name"""
    ti, n, g = stack(I)
    d = I.getattr(ti, 'contact_by_contact_lvs_layer_name')
    if not isinstance(d, SymDict):
        raise Undecided(f'{d!r}')
    nm = CNAME(g) if I.branch(has_ct(g)) else I.fresh('any', NAME)
    h, w = d.find(I, nm)
    I.prove('every contact is there', z3.Implies(z3.And(has_ct(g), nm == CNAME(g)), h))
    if I.branch(h):
        i = index(I, d.val(I, w), 'contact')
        I.prove('a contact of that name', z3.And(i >= 0, i < n, CNAME(i) == nm, z3.Or(*[LT(i) == T(x) for x in ('NWELL', 'DIFFUSION', 'METAL')])))


def bottom_top(I):
    """requires: any stack.  ensures: the layers below and above a via are those of a metal's contact of that name; every one is there"""
    I.contracts[TI + ':TechInfo.gds_pair'] = lambda I, a, k: None
    ti, n, g = stack(I)
    d = I.getattr(ti, 'bottom_and_top_layer_name_by_via_computed_layer_name')
    if not isinstance(d, SymDict):
        raise Undecided(f'{d!r}')
    is_via = lambda i: z3.And(LT(i) == T('METAL'), HASCT(i))
    nm = CNAME(g) if I.branch(is_via(g)) else I.fresh('any', NAME)
    h, w = d.find(I, nm)
    I.prove('every via is there', z3.Implies(z3.And(is_via(g), nm == CNAME(g)), h))
    if I.branch(h):
        v = d.val(I, w)
        if not (isinstance(v, tuple) and len(v) == 2):
            raise Undecided(f'{v!r}')
        I.prove('the layers of a via of that name', z3.And(w >= 0, w < n, is_via(w), CNAME(w) == nm, lay(I, v[0]) == CBELOW(w), lay(I, v[1]) == CABOVE(w)))


# ---------------------------------------------------------------- names and GDS pairs
CL, CD, CN, CO = F('computed.layer', Z, Z), F('computed.datatype', Z, Z), F('computed.name', Z, NAME), F('computed.original', Z, NAME)
DL, DD, DN = F('drawn.layer', Z, Z), F('drawn.datatype', Z, Z), F('drawn.name', Z, NAME)


def tables(I):
    enums(I)
    auto(I)
    nc, nd, c, d = (I.fresh(x, Z) for x in ('nc', 'nd', 'c', 'd'))
    I.assume(nc >= 0, nd >= 0)
    I.ghost['marks'] = [c, d]
    pair = lambda l, t: Record('pair', dict(layer=l, datatype=t))
    comp = SymSeq('computed', nc, lambda I, i: (lambda i: Record('computed', dict(
        original_layer_name=CO(i), layer_info=Record('info', dict(name=CN(i), drw_gds_pair=pair(CL(i), CD(i))))), ident=i))(zint(i)))
    drawn = SymSeq('drawn', nd, lambda I, i: (lambda i: Record('drawn', dict(name=DN(i), drw_gds_pair=pair(DL(i), DD(i))), ident=i))(zint(i)))
    ti = Obj(I.repo(TI, 'TechInfo'), dict(tech=Record('technology', dict(lvs_computed_layers=comp, layers=drawn))))
    return ti, nc, nd, c, d


LOOKUPS = [   # property, over, key, value
    ('gds_pair_for_computed_layer_name', 'c', 'name', 'pair'), ('computed_layer_info_by_name', 'c', 'name', 'computed'),
    ('computed_layer_info_by_gds_pair', 'c', 'pair', 'computed'), ('canonical_layer_name_by_gds_pair', 'c', 'pair', 'original'),
    ('layer_info_by_name', 'd', 'name', 'drawn'), ('gds_pair_for_layer_name', 'd', 'name', 'pair'), ('layer_info_by_gds_pair', 'd', 'pair', 'drawn')]


def lookup(prop, over, key, value):
    def harness(I):
        ti, nc, nd, c, d = tables(I)
        n, g = (nc, c) if over == 'c' else (nd, d)
        N_, L_, D_ = (CN, CL, CD) if over == 'c' else (DN, DL, DD)
        t = I.getattr(ti, prop)
        if not isinstance(t, SymDict):
            raise Undecided(f'{prop} {t!r}')
        ing = z3.And(g >= 0, g < n)
        x = (N_(g) if key == 'name' else (L_(g), D_(g))) if I.branch(ing) else (I.fresh('x', NAME) if key == 'name' else (I.fresh('x', Z), I.fresh('y', Z)))
        h, w = t.find(I, x)
        I.prove('every layer is found', z3.Implies(ing, h))
        if I.branch(h):
            same_key = N_(w) == x if key == 'name' else z3.And(L_(w) == x[0], D_(w) == x[1])
            I.prove('what is found has the name or pair', z3.And(w >= 0, w < n, same_key))
            v = t.val(I, w)
            if value == 'pair':
                I.prove('its pair', z3.And(zint(v[0]) == L_(w), zint(v[1]) == D_(w)))
            elif value == 'original':
                I.prove('the layer it is derived from', lay(I, v) == CO(w))
            else:
                I.prove('it is the entry', index(I, v, value) == w)
    harness.__doc__ = f'requires: any technology.  ensures: {prop} has an entry for exactly the {dict(c="computed", d="drawn")[over]} layers, the last of that {key}'
    return harness


def gds_pair(I):
    """requires: any technology.  ensures: the pair of the computed layer of that name, else of the drawn layer, else None"""
    ti, nc, nd, c, d = tables(I)
    nm = I.fresh('name', NAME)
    I.assume(c >= 0, c < nc, d >= 0, d < nd)
    which = 'TechInfo' if I.branch(I.fresh('in_tech', B)) else 'FasterCapInputBuilder'
    if which == 'TechInfo':
        r = I.call(I.getattr(ti, 'gds_pair'), [nm])
    else:
        b = Obj(I.repo('klayout_pex.fastercap.fastercap_input_builder', 'FasterCapInputBuilder'), dict(tech_info=ti))
        r = I.call(I.getattr(b, 'gds_pair'), [nm])
    if r is None:
        I.prove('none only if there is no layer of that name', z3.And(CN(c) != nm, DN(d) != nm))
        return
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Undecided(f'{r!r}')
    ms = I.ghost['marks']
    isc = [z3.And(i >= 0, i < nc, CN(i) == nm, zint(r[0]) == CL(i), zint(r[1]) == CD(i)) for i in ms]
    isd = [z3.And(i >= 0, i < nd, DN(i) == nm, zint(r[0]) == DL(i), zint(r[1]) == DD(i)) for i in ms]
    I.prove('a pair of a layer of that name', z3.Or(*isc, *isd))
    I.prove('computed layers first', z3.Implies(CN(c) == nm, z3.Or(*isc)))


HARNESSES = [('layers_by_type', by_type), ('first_of_type', first_of), ('dielectrics', dielectrics), ('dielectric_k', dielectric_k),
             ('sidewall_dielectric', sidewall), ('dielectric_above', above), ('device_contacts', contacts), ('contacts', vias), ('vias', bottom_top)] + \
            [(l[0], lookup(*l)) for l in LOOKUPS] + [('gds_pair', gds_pair)]
