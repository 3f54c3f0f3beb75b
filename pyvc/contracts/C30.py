"""the report database of an extraction"""
from .rcx import *
from .cli import flat
from .C18 import Pb, PB
from .C14 import run as cell_run
from . import C11, C12, C13

MOD = 'klayout_pex.rcx25.extraction_reporter'
CV = 'klayout_pex.klayout.shapes_pb2_converter:ShapesConverter.'
ASSUMPTIONS = ['klayout.rdb: create_category with a parent and a name is one category per parent and name; create_items adds one item per shape, transformed; category names are kept as given',
               'the string of a category path is different for different categories', 'ShapesConverter: C26', 'kdb.Box, Path, Shapes are values as documented',
               'elements refer to nodes of their network and the network lists each node once (C18)', 'floats treated as exact before rounding']
S = lambda n, *a: z3.Function(n, *[Z] * len(a), NAME)(*a)
RND = lambda n, x: z3.Function(f'round_{n}', R, R)(x)


class Cat(Model):
    kind = 'RdbCategory'
    def __init__(self, path):
        super().__init__()
        self.p = path
    def m_path(self, I): return Fmt((self,), 'path')
    def m_rdb_id(self, I): return Record('category id', dict(cat=self))
    def m_name(self, I): return self.p[-1]


def rdb(I, tr):
    cell = Record('cell', dict(rdb_id=Builtin('rdb_id', lambda I, a, k: cellid)))
    cellid = Record('cell id', {})

    def cat(I, a, k):
        a = list(a) + list(k.values())
        if len(a) == 1:
            a = [None] + a
        if len(a) != 2 or not (a[0] is None or isinstance(a[0], Cat)):
            raise Undecided('category')
        c = Cat((a[0].p if a[0] is not None else ()) + (a[1],))
        tr.emit(I, 'cat', c)
        return c

    def items(I, a, k):
        a = list(a) + list(k.values())
        if len(a) != 4 or not isinstance(a[1], Record) or a[1].name != 'category id':
            raise Undecided('items')
        I.prove('items are in the cell of the report', z3.BoolVal(a[0] is cellid))
        I.prove('items are in µm', I.ghost['um'](a[2]))
        tr.emit(I, 'items', a[1].fields['cat'], a[3])
    db = Record('report', dict(create_cell=Builtin('create_cell', lambda I, a, k: cell), create_category=Builtin('create_category', cat),
                               create_items=Builtin('create_items', items), save=Builtin('save', lambda I, a, k: tr.emit(I, 'save', a[0]))))
    I.externals['klayout.rdb.ReportDatabase'] = Builtin('ReportDatabase', lambda I, a, k: db)


class Counter(Model):
    """how many things were documented in a category (by its path), any number so far"""
    kind = 'Counter'
    def __init__(self, tr):
        super().__init__()
        self.tr, self.c, self.r = tr, {}, []
    def key(self, I, k):
        if not (isinstance(k, Fmt) and k.spec == 'path'):
            raise Undecided('counter of something else')
        c = k.v[0]
        for d, v in self.r:
            if same_path(c.p, d.p):
                return d
        v = I.fresh('documented', Z)
        I.assume(v >= 0)
        self.r.append((c, v))
        self.c[c.oid] = v
        return c
    def getitem(self, I, k): return self.c[self.key(I, k).oid]
    def m_get(self, I, k, d=0): return self.getitem(I, k)
    def setitem(self, I, k, v):
        d = self.key(I, k)
        self.c[d.oid] = v
        self.tr.emit(I, 'count', d, v)
    def old(self, cat):
        for d, v in self.r:
            if same_path(cat.p, d.p):
                return v


def pieces(x): return [y for y in flat(x)]


def same_piece(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return is_sym(a) and is_sym(b) and a.eq(b) or a is b or (not is_sym(a) and not is_sym(b) and isinstance(a, int) and a == b)


def same_text(a, b):
    a, b = pieces(a), pieces(b)
    return len(a) == len(b) and all(same_piece(x, y) for x, y in zip(a, b))


def same_path(p, q): return len(p) == len(q) and all(same_text(a, b) for a, b in zip(p, q))


def title(I, what, got, want):
    """got is the text want (parts)"""
    g, w = pieces(StrCat(pieces(got))), pieces(StrCat([y for x in want for y in flat(x)]))
    if len(g) == len(w) and all(same_piece(x, y) for x, y in zip(g, w)):
        I.prove(what, z3.BoolVal(True))
        return
    gv, wv = [x for x in g if not isinstance(x, str)], [x for x in w if not isinstance(x, str)]
    if len(gv) == len(wv) and all(is_sym(x) and is_sym(y) and x.sort() == y.sort() for x, y in zip(gv, wv)):
        if not all(x.eq(y) for x, y in zip(gv, wv)):
            I.prove(what, z3.And(*[x == y for x, y in zip(gv, wv)]))
        if [x for x in g if isinstance(x, str)] == [x for x in w if isinstance(x, str)]:
            return
        raise Undecided(f'{what}: another text')
    if any(x is y or is_sym(x) and is_sym(y) and x.eq(y) for x in gv for y in wv) and len(gv) >= len(wv):
        raise Undecided(f'{what}: another text')
    I.prove(what, z3.BoolVal(False))


def path(I, what, cat, want):
    if len(cat.p) != len(want):
        raise Undecided(f'{what}: other categories')
    for g, w in zip(cat.p, want):
        title(I, what, g, w if isinstance(w, list) else [w])


def reporter(I):
    I.ghost[('truth', 'Name')] = lambda x: z3.Function('nonempty', NAME, B)(x)
    tr = Trace()
    I.roots = [tr]
    rdb(I, tr)
    dbu = I.fresh('dbu', R)
    I.assume(dbu > 0)

    def ctrans(I, a, k):
        return Record('trans', dict(mag=(list(a) + list(k.values()))[0]))
    I.externals['klayout.db.CplxTrans'] = Builtin('CplxTrans', ctrans)
    I.ghost['um'] = lambda t: z3.BoolVal(isinstance(t, Record) and t.name == 'trans' and set(t.fields) == {'mag'}) if not (isinstance(t, Record) and t.name == 'trans') \
        else zreal(t.fields['mag']) == dbu
    cnt = Counter(tr)
    I.ghost['defaultdict'] = lambda *a: cnt

    class ShapesM(Model):
        kind = 'Shapes'
        def __init__(self):
            super().__init__()
            self.l = []
        def m_insert(self, I, x):
            self.l = self.l + [x]
    I.externals['klayout.db.Shapes'] = Builtin('Shapes', lambda I, a, k: ShapesM())
    I.ghost['ShapesM'] = ShapesM
    name = I.fresh('cell', NAME)
    me = I.instantiate(I.repo(MOD, 'ExtractionReporter'), [], dict(cell_name=name, dbu=dbu))
    me.fields['category_name_counter'] = cnt
    I.ghost['cnt'] = cnt
    I.roots += [cnt, me]
    conv(I)
    return me, tr


def conv(I):
    def f(what):
        def g(I, args, kw):
            a = list(args[1:]) + list(kw.values())
            return Record('kly ' + what, dict(of=a[0]), ident=None) if what != 'box' else BoxM(I, a[0])
        return g
    for m in ('region', 'polygon', 'box'):
        I.contracts[CV + 'klayout_' + m] = f(m)
    I.contracts[CV + 'klayout_point'] = lambda I, args, kw: PointM(*[zint(I.getattr((list(args[1:]) + list(kw.values()))[0], c)) for c in 'xy'])

    def pth(I, a, k):
        pts = (list(a) + list(k.values()))[0]
        w = k.get('width', a[1] if len(a) > 1 else None)
        return Record('path', dict(polygon=Builtin('polygon', lambda I, a, k: Record('arrow', dict(points=pts, width=w)))))
    I.externals['klayout.db.Path'] = Builtin('Path', pth)
    for p in ('Location.Kind.', 'Location.'):
        for n, v in (('UNSPECIFIED', 0), ('POINT', 1), ('BOX', 3)):
            I.externals[PB + f'layout.location_pb2.{p}LOCATION_KIND_{n}'] = v
    I.externals[PB + 'geometry.shapes_pb2.Box'] = Builtin('Box', lambda I, a, k: Pb(None, dict(lower_left={}, upper_right={}), ('box',)))


class PointM(Model):
    kind = 'Point'
    def __init__(self, x, y):
        super().__init__()
        self.x, self.y = x, y
    def a_x(self, I): return self.x
    def a_y(self, I): return self.y


class BoxM(Model):
    kind = 'Box'
    def __init__(self, I, b):
        super().__init__()
        get = lambda *p: at(b, p)
        def at(o, p):
            for q in p:
                o = I.getattr(o, q)
            return o
        self.c = {k: zint(get(*k)) for k in (('lower_left', 'x'), ('lower_left', 'y'), ('upper_right', 'x'), ('upper_right', 'y'))}
        self.net = b.f.get('net') if isinstance(b, Pb) else I.getattr(b, 'net')
    def m_center(self, I):
        return PointM(*[z3.Function('mid', Z, Z, Z)(self.c['lower_left', a], self.c['upper_right', a]) for a in 'xy'])


def shapes(I, s):
    """the shapes given to create_items"""
    if isinstance(s, I.ghost['ShapesM']):
        return list(s.l)
    if isinstance(s, ListVal) and isinstance(getattr(s, 'items', None), list):
        I.prove('an empty list is no shapes (klayout refuses it)', z3.BoolVal(bool(s.items)))
        return list(s.items)
    return [s]


def is_shapes(I, what, ev, want):
    got = shapes(I, ev[2])
    I.prove(what, z3.BoolVal(len(got) == len(want) and all(any(g is w for g in got) for w in want)))


def split(I, ev):
    bad = [e for e in ev if e[0] not in ('cat', 'items', 'count', 'loop')]
    if bad:
        raise Undecided(f'other events {bad}')
    return [[e for e in ev if e[0] == w] for w in ('cat', 'items', 'count', 'loop')]


def number(I, parent):
    """the number of the thing just documented below parent: one more than so far"""
    cnt = I.ghost['cnt']
    old = cnt.old(parent)
    if old is None:
        raise Undecided('not numbered')
    new = cnt.getitem(I, Fmt((parent,), 'path'))
    I.prove('the next one gets another number', zint(new) == old + 1)
    return old + 1


def leaf(I, what, p, parent, before, after):
    """the name of a numbered category: its number, then the text"""
    g = pieces(p)
    n = number(I, parent)
    nums = [x for x in g if is_sym(x) and x.sort() == Z]
    if not nums or g[0] != before:
        raise Undecided(f'{what}: number')
    I.prove(f'{what}: numbered in order', nums[0] == n)
    rest = g[[x is nums[0] for x in g].index(True) + 1:]
    title(I, what, StrCat(rest), after)


def key_obj(I, cls, **f): return Obj(I.repo(ER, cls), dict(f))


def overlap(I):
    """ensures: a reported overlap is one category of its own below its layers and nets, with its capacitance, both polygons and the overlap"""
    me, tr = reporter(I)
    lt, nt, lb, nb = (I.fresh(n, NAME) for n in ('layer_top', 'net_top', 'layer_bot', 'net_bot'))
    v = I.fresh('cap', R)
    cap = key_obj(I, 'OverlapCap', key=key_obj(I, 'OverlapKey', layer_top=lt, net_top=nt, layer_bot=lb, net_bot=nb), cap_value=v, shielded_area=I.fresh('a', R),
                  unshielded_area=I.fresh('b', R), tech_spec=None)
    top, bot, area = (Record(n, {}) for n in ('top', 'bottom', 'overlap'))
    I.call(I.getattr(me, 'output_overlap'), [], dict(overlap_cap=cap, bottom_polygon=bot, top_polygon=top, overlap_area=area))
    cats, items, counts, loops = split(I, tr.events)
    I.prove('three groups of shapes', z3.BoolVal(len(items) == 3 and not loops))
    for e in items:
        p = e[1].p
        if len(p) != 6:
            raise Undecided('overlap: other categories')
        path(I, 'overlap: below its layers and nets', Cat(p[:4]), ['[C] Overlap', ['top_layer=', lt], ['bot_layer=', lb], [nt, ' – ', nb]])
        leaf(I, 'overlap: capacitance in fF', p[4], Cat(p[:4]), '#', [' ', RND(3, v), ' fF'])
        w = {'Top Polygon': top, 'Bottom Polygon': bot, 'Overlap Area': area}.get(p[5])
        if w is None:
            raise Undecided('overlap: shapes')
        is_shapes(I, 'overlap: the shapes are what they are called', e, [w])
    I.prove('overlap: each group once', z3.BoolVal(len({e[1].p[5] for e in items}) == 3))


def sidewall(I):
    """ensures: a reported sidewall capacitance is one category of its own below its layer and nets, with length, distance, capacitance and both edges"""
    me, tr = reporter(I)
    ly, n1, n2 = (I.fresh(n, NAME) for n in ('layer', 'net1', 'net2'))
    v, d, ln = (I.fresh(n, R) for n in ('cap', 'distance', 'length'))
    cap = key_obj(I, 'SidewallCap', key=key_obj(I, 'SidewallKey', layer=ly, net1=n1, net2=n2), cap_value=v, distance=d, length=ln, tech_spec=None)
    a, b = Record('inside', {}), Record('outside', {})
    I.call(I.getattr(me, 'output_sidewall'), [], dict(sidewall_cap=cap, inside_edge=a, outside_edge=b))
    cats, items, counts, loops = split(I, tr.events)
    I.prove('sidewall: one category with shapes', z3.BoolVal(len(items) == 1 and not loops))
    for e in items:
        p = e[1].p
        if len(p) != 5:
            raise Undecided('sidewall: other categories')
        path(I, 'sidewall: below its layer and nets', Cat(p[:4]), ['[C] Sidewall', ['layer=', ly], ['inside=', n1], ['outside=', n2]])
        leaf(I, 'sidewall: length, distance, capacitance in fF', p[4], Cat(p[:4]), '#', [': len ', ln, ' µm, distance ', d, ' µm, ', RND(3, v), ' fF'])
        is_shapes(I, 'sidewall: both edges', e, [a, b])


def sideoverlap(I):
    """ensures: a reported fringe capacitance is one category of its own below its layers and nets, with its capacitance, edge, polygon and shield"""
    me, tr = reporter(I)
    li, ni, lo, no = (I.fresh(n, NAME) for n in ('layer_inside', 'net_inside', 'layer_outside', 'net_outside'))
    v = I.fresh('cap', R)
    cap = key_obj(I, 'SideOverlapCap', key=key_obj(I, 'SideOverlapKey', layer_inside=li, net_inside=ni, layer_outside=lo, net_outside=no), cap_value=v)
    a, b = Record('inside', {}), Record('outside', {})
    sh = Record('shield', {}) if I.branch(z3.Const('shielded', B)) else None
    I.call(I.getattr(me, 'output_sideoverlap'), [], dict(sideoverlap_cap=cap, inside_edge=a, outside_polygon=b, lateral_shield=sh))
    cats, items, counts, loops = split(I, tr.events)
    want = {'Inside Edge': a, 'Outside Polygon': b}
    if sh is not None:
        want['Lateral Shield'] = sh
    I.prove('fringe: one group of shapes each', z3.BoolVal(len(items) == len(want) and not loops and len({str(e[1].p[-1]) for e in items}) == len(want)))
    for e in items:
        p = e[1].p
        if len(p) != 7:
            raise Undecided('fringe: other categories')
        path(I, 'fringe: below its layers and nets', Cat(p[:5]), ['[C] Fringe / Side Overlap', ['inside_layer=', li], ['inside_net=', ni], ['outside_layer=', lo], ['outside_net=', no]])
        leaf(I, 'fringe: capacitance in fF', p[5], Cat(p[:5]), '#', [': ', RND(3, v), ' fF'])
        if p[6] not in want:
            raise Undecided('fringe: shapes')
        is_shapes(I, 'fringe: the shapes are what they are called', e, [want[p[6]]])


# ------------------------------------------------------------------------------------ resistance extraction
def seq(I, tag, get, *ix):
    n = z3.Function('n_' + tag, *[Z] * len(ix), Z)(*ix) if ix else z3.Int('n_' + tag)
    I.assume(n >= 0)
    return SymSeq((tag,) + tuple(ix), n, lambda I, i: get(I, *ix, zint(i)))


def layer(*k): return Record('layer', dict(id=z3.Function('id ' + k[0], *[Z] * (len(k) - 1), Z)(*k[1:]), canonical_layer_name=S('canonical ' + k[0], *k[1:]), lvs_layer_name=S('lvs ' + k[0], *k[1:])))


def l2r(t, *k):
    return Record('l2r', dict(layer=Record('layer', dict(canonical_layer_name=S('layer ' + t, *k))), region=Record('region', {}, ident=(t,) + k)))


def terminal(t, *k):
    def get(I):
        return Record('terminal', dict(name=S('name ' + t, *k), net_name=S('net ' + t, *k), region_by_layer=seq(I, t + ' layers', lambda I, *j: l2r(t + ' layers', *j), *k)))
    return get


def pin(t, *k):
    x, y = (z3.Function(f'{c} ' + t, *[Z] * len(k), Z)(*k) for c in 'xy')
    return Record('pin', dict(label=S('label ' + t, *k), net_name=S('net ' + t, *k), layer=Record('layer', dict(canonical_layer_name=S('layer ' + t, *k))),
                              label_point=Record('point', dict(x=x, y=y, net=S('point net ' + t, *k)))), ident=(t,) + k)


REQ = '[R] Extraction Request'


WRAP = ('comp', 'items', 'keys', 'values', 'enumerate', 'list')
def tagn(t): return t if isinstance(t, str) else tagn(t[1]) if t[0] in WRAP or not isinstance(t[0], str) else t[0]
def tix(t): return () if isinstance(t, str) else tix(t[1]) if t[0] in WRAP or not isinstance(t[0], str) else tuple(t[1:])


def once(I, what, loops, tags):
    got = [tagn(e[2].it.tag) for e in loops]
    I.prove(what, z3.BoolVal(all(got.count(t) == 1 for t in tags)))
    if sorted(got) != sorted(tags):
        raise Undecided(f'{what}: other loops {got}')


def in_order(I, loops, tags):
    for e in loops:
        pass


def parent(I, k):
    """the element the loop runs for"""
    return k


def marker(I, what, sh, x, y, net=None):
    ok = isinstance(sh, BoxM)
    I.prove(what, z3.And(sh.c['lower_left', 'x'] == x - 5, sh.c['lower_left', 'y'] == y - 5, sh.c['upper_right', 'x'] == x + 5, sh.c['upper_right', 'y'] == y + 5) if ok else z3.BoolVal(False))


def one_items(I, what, items):
    I.prove(f'{what}: documented once', z3.BoolVal(len(items) == 1))
    return items[:1]


def cat_in(I, what, cats, want):
    """one of the categories is want"""
    c = [c for _, c in cats if len(c.p) == len(want)]
    if not c:
        raise Undecided(f'{what}: other categories')
    best = [x for x in c if same_path(x.p, tuple(StrCat(w) if isinstance(w, list) else w for w in want))]
    path(I, what, (best or c)[-1], want)


def ctx_path(I, t, ix):
    """where the things of a request are documented: by the name of the list"""
    dev = [REQ, 'Devices']
    if t.startswith('dev '):
        return dev + [[S('device', *ix[:1]), ': ', S('device class', *ix[:1])], 'Params' if t.startswith('dev params') else 'Terminals']
    net = lambda: [REQ, 'Network Extraction Request', ['Net ', S('req net', *ix[:1])]]
    if t.startswith('req terminals'):
        return net() + ['Device Terminals']
    if t == 'req regions':
        return net() + ['Layer Regions']
    if t == 'req pins':
        return net() + ['Pins']
    if t == 'pins':
        return [REQ, 'Pins']
    raise Undecided(t)


def request(I):
    """ensures: every conductor and via of the technology, device with its parameters and terminals, pin, and net with its pins, terminals and
    layers is documented once, with its names, values, resistance and shapes, in the category of what it is part of"""
    me, tr = reporter(I)
    T = [REQ, '[R] Extraction Tech']
    cond = lambda I, i: Record('conductor', dict(layer=layer('conductor', i), resistance=z3.Function('conductor mOhm', Z, R)(i)))
    via = lambda I, i: Record('via', dict(layer=layer('via', i), resistance=z3.Function('via mOhm', Z, R)(i), bottom_conductor=layer('via bottom', i), top_conductor=layer('via top', i)))
    par = lambda I, d, i: Record('param', dict(name=S('param', d, i), value=z3.Function('param value', Z, Z, R)(d, i), id=i))
    dev = lambda I, i: Record('device', dict(device_name=S('device', i), device_class_name=S('device class', i), device_abstract_name=S('device abstract', i), id=i,
                                             parameters=seq(I, 'dev params', par, i), terminals=seq(I, 'dev terminals', lambda I, *k: terminal('dev terminals', *k)(I), i)))
    req = lambda I, i: Record('net request', dict(net_name=S('req net', i), pins=seq(I, 'req pins', lambda I, *k: pin('req pins', *k), i),
                                                  device_terminals=seq(I, 'req terminals', lambda I, *k: terminal('req terminals', *k)(I), i),
                                                  region_by_layer=seq(I, 'req regions', lambda I, *k: l2r('req regions', *k), i)))
    msg = Record('request', dict(tech=Record('tech', dict(conductors=seq(I, 'conductors', cond), vias=seq(I, 'vias', via), skip_simplify=z3.Const('skip', B))),
                                 devices=seq(I, 'devices', dev), pins=seq(I, 'pins', lambda I, *k: pin('pins', *k)), net_extraction_requests=seq(I, 'requests', req)))

    def check(I, L, k, ev):
        t, ix = tagn(L.it.tag), tix(L.it.tag)
        cats, items, counts, loops = split(I, ev)
        ks = ix + (k,)
        if t == 'conductors':
            l, m = layer('conductor', k).fields, z3.Function('conductor mOhm', Z, R)(k)
            I.prove('conductor: documented once', z3.BoolVal(len(cats) == 1 and not items))
            cat_in(I, 'conductor: number, names, resistance', cats, T + ['Conductors', [l['id'], ': ', l['canonical_layer_name'], ' (LVS ', l['lvs_layer_name'], '), ', RND(3, m), ' mΩ/µm^2']])
        elif t == 'vias':
            l, m = layer('via', k).fields, z3.Function('via mOhm', Z, R)(k)
            I.prove('via: documented once', z3.BoolVal(len(cats) == 1 and not items))
            nm = lambda t: conductor_name(I, cats, t, k)
            cat_in(I, 'via: number, names, conductors, resistance', cats, T + ['Vias', [l['id'], ': ', l['canonical_layer_name'], ' (LVS ', l['lvs_layer_name'], ', ', nm('via bottom'), '↔︎',
                                                                                 nm('via top'), '), ', RND(3, m), ' mΩ/µm^2']])
        elif t == 'devices':
            once(I, 'device: all parameters and terminals', loops, ['dev params', 'dev terminals'])
            for e in loops:
                I.prove('device: its own parameters and terminals', z3.BoolVal(same_ix(tix(e[2].it.tag), (k,))))
            I.prove('device: no shapes of its own', z3.BoolVal(not items))
            cat_in(I, 'device: name and class', cats, ctx_path(I, 'dev params', (k,))[:3])
        elif t == 'dev params':
            cat_in(I, 'parameter: name and value', cats, ctx_path(I, t, ix) + [[S('param', *ks), ': ', z3.Function('param value', Z, Z, R)(*ks)]])
        elif t in ('dev terminals', 'req terminals'):
            once(I, 'terminal: all layers', loops, [t + ' layers'])
            for e in loops:
                I.prove('terminal: its own layers', z3.BoolVal(same_ix(tix(e[2].it.tag), ks)))
        elif t in ('dev terminals layers', 'req terminals layers'):
            tt = t[:-7]
            for e in one_items(I, 'layer of a terminal', items):
                path(I, 'layer of a terminal: name, net and layer', e[1], ctx_path(I, tt, ix) + [[S('name ' + tt, *ix), ': net ', S('net ' + tt, *ix), ', layer ', S('layer ' + t, *ks)]])
                reg(I, 'layer of a terminal: its shapes', e, t, ks)
        elif t in ('pins', 'req pins'):
            p = pin(t, *ks).fields
            for e in one_items(I, 'pin', items):
                pp = e[1].p
                path(I, 'pin: label, net and layer', Cat(pp[:-1]), ctx_path(I, t, ix) + [[p['label'], ' (net ', p['net_name'], ' on layer ', p['layer'].fields['canonical_layer_name'], ')']])
                sh = shapes(I, e[2])
                marker(I, 'pin: marked where its label is', sh[0] if len(sh) == 1 else None, p['label_point'].fields['x'], p['label_point'].fields['y'])
        elif t == 'requests':
            once(I, 'net: all pins, terminals and layers', loops, ['req pins', 'req terminals', 'req regions'])
            for e in loops:
                I.prove('net: its own pins, terminals and layers', z3.BoolVal(same_ix(tix(e[2].it.tag), (k,))))
        elif t == 'req regions':
            for e in one_items(I, 'layer of a net', items):
                path(I, 'layer of a net: its layer', e[1], ctx_path(I, t, ix) + [['Layer ', S('layer ' + t, *ks)]])
                reg(I, 'layer of a net: its shapes', e, t, ks)
        else:
            raise Undecided(f'loop over {t}')
    j = I.fresh('conductor', Z)
    I.assume(j >= 0, j < z3.Int('n_conductors'))
    I.ghost['marks'] = [j]
    I.ghost['j'] = j
    I.auto_loop = lambda it: AutoTrace('loop', tr, check)
    I.call(I.getattr(me, 'output_rex_request'), [], dict(request=msg))
    cats, items, counts, loops = split(I, tr.events)
    once(I, 'the whole request is documented', loops, ['conductors', 'vias', 'devices', 'pins', 'requests'])


def conductor_name(I, cats, t, k):
    """name of a conductor a via refers to: that of the conductor with its number, if there is one, otherwise the one given with the via"""
    i, j = z3.Function('id ' + t, Z, Z)(k), I.ghost['j']
    given = S('canonical ' + t, k)
    idc = z3.Function('id conductor', Z, Z)
    names = [x for _, c in cats for x in pieces(c.p[-1]) if is_sym(x) and x.sort() == NAME]
    here = lambda w: z3.And(w >= 0, w < z3.Int('n_conductors'), idc(w) == i)
    got = [x for x in names if x.decl().name() == 'canonical conductor']
    I.assume(*[z3.Implies(idc(x.arg(0)) == idc(j), x.arg(0) == j) for x in got])
    for x in got:
        if not I._check(z3.Not(here(x.arg(0)))) == z3.sat:
            I.prove('via: the name of the conductor it refers to', here(x.arg(0)))
            return x
    I.prove('via: the name of the conductor it refers to', z3.Not(here(j)))
    return given


def same_ix(a, b): return len(a) == len(b) and all(is_sym(x) and is_sym(y) and x.eq(y) for x, y in zip(a, b))


def reg(I, what, e, t, ks):
    sh = shapes(I, e[2])
    s = sh[0] if len(sh) == 1 else None
    ok = isinstance(s, Record) and s.name == 'kly region' and isinstance(s.fields['of'], Record) and s.fields['of'].ident is not None and s.fields['of'].ident[0] == t and same_ix(s.fields['of'].ident[1:], ks)
    I.prove(what, z3.BoolVal(bool(ok)))


def result(I):
    """ensures: every network has each of its nodes, at its place, and each of its resistors between the nodes it connects, with its resistance"""
    me, tr = reporter(I)
    I.ghost['marks'] = []
    NID = z3.Function('node id', Z, Z, Z)
    EN = {e: z3.Function('element node ' + e, Z, Z, Z) for e in 'ab'}
    OHM = z3.Function('ohm', Z, Z, R)
    KIND_ = z3.Function('location kind', Z, Z, Z)
    C = {c: z3.Function('node ' + c, Z, Z, Z) for c in ('x', 'y', 'x1', 'y1', 'x2', 'y2')}

    def node(I, r, i):
        I.assume(z3.Or(KIND_(r, i) == 1, KIND_(r, i) == 3))
        pt = lambda a, b, **kw: Record('point', dict(x=C[a](r, i), y=C[b](r, i), **kw))
        return Record('node', dict(node_id=NID(r, i), node_name=S('node', r, i), net_name=S('node net', r, i), layer_name=S('node layer', r, i),
                                   location=Record('location', dict(kind=KIND_(r, i), point=pt('x', 'y', net=S('node point net', r, i)),
                                                                    box=Record('box', dict(lower_left=pt('x1', 'y1'), upper_right=pt('x2', 'y2'), net=S('node box net', r, i)))))), ident=(r, i))

    def element(I, r, i):
        for e in 'ab':
            m = EN[e](r, i)
            I.assume(m >= 0, m < z3.Function('n_nodes', Z, Z)(r))
            if not any(m.eq(x) for x in I.ghost['marks']):
                I.ghost['marks'].append(m)
        return Record('element', dict(element_id=z3.Function('element id', Z, Z, Z)(r, i), resistance=OHM(r, i),
                                      **{'node_' + e: Record('ref', dict(node_id=NID(r, EN[e](r, i)))) for e in 'ab'}))
    nets = seq(I, 'networks', lambda I, r: Record('network', dict(net_name=S('network', r), nodes=seq(I, 'nodes', node, r), elements=seq(I, 'elements', element, r))))
    I.ghost['marks'] = []

    def center(b):
        return PointM(*[z3.Function('mid', Z, Z, Z)(b[0 + i], b[2 + i]) for i in (0, 1)])

    def box(r, i):
        pt = KIND_(r, i) == 1
        return [z3.If(pt, C['x'](r, i) - 5, C['x1'](r, i)), z3.If(pt, C['y'](r, i) - 5, C['y1'](r, i)), z3.If(pt, C['x'](r, i) + 5, C['x2'](r, i)), z3.If(pt, C['y'](r, i) + 5, C['y2'](r, i))]

    def check(I, L, k, ev):
        t, ix = tagn(L.it.tag), tix(L.it.tag)
        cats, items, counts, loops = split(I, ev)
        net = lambda r: ['[R] Extraction Result', 'Networks', ['Net ', S('network', r)]]
        if t == 'networks':
            once(I, 'network: all nodes and resistors', loops, ['nodes', 'elements'])
            for e in loops:
                I.prove('network: its own nodes and resistors', z3.BoolVal(same_ix(tix(e[2].it.tag), (k,))))
            I.prove('network: no shapes of its own', z3.BoolVal(not items))
        elif t == 'nodes':
            r, = ix
            for e in one_items(I, 'node', items):
                path(I, 'node: name, net and layer', e[1], net(r) + ['Nodes', [S('node', r, k), ', port net ', S('node net', r, k), ', layer ', S('node layer', r, k)]])
                sh = shapes(I, e[2])
                b = sh[0].c if len(sh) == 1 and isinstance(sh[0], BoxM) else None
                want = box(r, k)
                I.prove('node: marked at its place', z3.And(*[g == w for g, w in zip([b['lower_left', 'x'], b['lower_left', 'y'], b['upper_right', 'x'], b['upper_right', 'y']], want)]) if b else z3.BoolVal(False))
        elif t == 'elements':
            r, = ix
            x, y = EN['a'](r, k), EN['b'](r, k)
            I.assume(*[z3.Implies(NID(r, m) == NID(r, w), m == w) for w in (x, y) for m in I.ghost['marks']])
            ohm = OHM(r, k)
            big = I.branch(ohm >= z3.RealVal('1/1000'))
            val = [RND(3, ohm), ' Ω'] if big else [RND(6, ohm * 1000), ' mΩ']
            for e in one_items(I, 'resistor', items):
                path(I, 'resistor: names and layers of its nodes, resistance', e[1], net(r) + ['Elements', [S('node', r, x), ' (', S('node layer', r, x), ') ↔︎ ', S('node', r, y), ' (', S('node layer', r, y), '): '] + val])
                sh = shapes(I, e[2])
                p = sh[0].fields['points'] if len(sh) == 1 and isinstance(sh[0], Record) and sh[0].name == 'arrow' else None
                p = p.items if isinstance(p, ListVal) and len(p.items) == 2 and all(isinstance(q, PointM) for q in p.items) else None
                if p is None:
                    raise Undecided('marker of a resistor')
                for q, i, w in ((p[0], x, 'a'), (p[1], y, 'b')):
                    c = center(box(r, i))
                    I.prove(f'resistor: the line ends in the middle of node {w}', z3.And(q.x == c.x, q.y == c.y))
        else:
            raise Undecided(f'loop over {t}')
    I.auto_loop = lambda it: AutoTrace('loop', tr, check)
    I.call(I.getattr(me, 'output_rex_result'), [], dict(result=Record('result', dict(networks=nets))))
    cats, items, counts, loops = split(I, tr.events)
    once(I, 'the whole result is documented', loops, ['networks'])


def neighborhood(I):
    """ensures (debug level): every edge interval is documented on its own below its layer and net, with the edge and, for each layer in the
    neighbourhood, its polygons as they are in the layout"""
    me, tr = reporter(I)
    ly, net = I.fresh('layer', NAME), I.fresh('net', NAME)
    edge = Record('edge', dict(property=Builtin('property', lambda I, a, k: net if a[0] == 'net' else None)))
    IV, CI = z3.Function('interval', Z, NAME), z3.Function('child index', Z, Z, Z)

    def child(I, k, j):
        I.assume(CI(k, j) >= 0)
        return seq(I, 'polygons', lambda I, k, j, i: Record('polygon', {}, ident=(k, j, i)), k, j)

    def interval(I, k):
        n = z3.Function('n_children', Z, Z)(k)
        I.assume(n >= 0)
        return (IV(k), SymDict(('children', k), n, lambda I, j: CI(k, zint(j)), lambda I, j: child(I, k, zint(j)), unique=True))
    nl = I.fresh('nlayers', Z)
    I.assume(nl >= 0, z3.Function('nonempty', NAME, B)(ly))

    def lname(I, i):
        x = LN(zint(i))
        I.assume(z3.Function('nonempty', NAME, B)(x))
        return x
    geo = Record('restorer', dict(restore_polygon=Builtin('restore_polygon', lambda I, a, k: Record('restored', dict(of=(list(a) + list(k.values()))[0])))))
    base = lambda k: ['[C] Edge Neighborhood Visitor', ['inside_layer=', ly], ['inside_net=', net], ['Edge Interval: ', IV(k)]]

    def check(I, L, k, ev):
        t, ix = tagn(L.it.tag), tix(L.it.tag)
        cats, items, counts, loops = split(I, ev)
        if t == 'intervals':
            once(I, 'interval: all layers', loops, ['children'])
            for e in one_items(I, 'interval: the edge', items):
                p = e[1].p
                path(I, 'interval: below its layer, net and interval', Cat(p[:4]), base(k))
                leaf(I, 'interval', p[4], Cat(p[:4]), '#', []) if len(p) == 6 else undecided('interval')
                is_shapes(I, 'interval: the edge itself', e, [edge])
        elif t == 'children':
            r, = ix
            for e in one_items(I, 'neighbour layer', items):
                p = e[1].p
                path(I, 'neighbour layer: below its interval', Cat(p[:4]), base(r))
                inside = I.branch(CI(r, k) < nl)
                title(I, 'neighbour layer: its name', p[-1], ['Child ', CI(r, k), ': ', LN(CI(r, k)) if inside else 'None'])
                s = e[2]
                if not isinstance(s, (CompSeq, Collected)) or s.filtered():
                    raise Undecided('shapes of a neighbour layer')
                j = I.fresh('polygon', Z)
                I.assume(j >= 0, j < s.it.n)
                q = s.at(I, j)
                q = q[-1] if isinstance(q, tuple) else q
                ok = isinstance(q, Record) and q.name == 'restored' and isinstance(q.fields['of'], Record) and q.fields['of'].ident is not None and same_ix(q.fields['of'].ident[:2], (r, k))
                I.prove('neighbour layer: its polygons, in the layout', z3.And(q.fields['of'].ident[2] == j, s.it.n == z3.Function('n_polygons', Z, Z, Z)(r, k)) if ok else z3.BoolVal(False))
        else:
            raise Undecided(f'loop over {t}')
    I.auto_loop = lambda it: NbLoop('loop', tr, check)
    names = SymSeq('layers', nl, lname)
    I.call(I.getattr(me, 'output_edge_neighborhood'), [], dict(inside_layer=ly, all_layer_names=names, edge=edge, neighborhood=seq(I, 'intervals', interval), geometry_restorer=geo))
    cats, items, counts, loops = split(I, tr.events)
    once(I, 'all intervals are documented', loops, ['intervals'])


class NbLoop(AutoTrace):
    """the counter of any category has any value before an iteration"""
    def own(self, L): return [o for o in super().own(L) if not isinstance(o, Counter)]
    def traced(self, L): return super().traced(L)
    def havoc(self, I, L, k):
        super().havoc(I, L, k)
        for o in L.written:
            if isinstance(o, Counter):
                o.c, o.r = {}, []
                mark_havoc(L, o)


def extract(I):
    """ensures: one report for the cell, in the database unit, is handed through the extraction and saved where asked when all is documented;
    the results returned are those the extraction filled"""
    me, tr = reporter(I)
    EX = 'klayout_pex.rcx25.extractor'
    cell, p, dbu = I.fresh('cell', NAME), I.fresh('path', NAME), I.fresh('dbu', R)
    rep = Record('report', dict(save=Builtin('save', lambda I, a, k: log.append(('save', (list(a) + list(k.values()))[0])))))
    log = []

    def new(I, args, kw):
        v = dict(kw)
        for n, a in zip(('cell_name', 'dbu'), args):
            v[n] = a
        I.prove('the report is about the cell', v['cell_name'] == cell if is_sym(v['cell_name']) else z3.BoolVal(False))
        I.prove('in its database unit', zreal(v['dbu']) == dbu)
        log.append(('new',))
        return rep
    I.contracts[MOD + ':ExtractionReporter'] = new

    def cellf(I, args, kw):
        m = I.repo(EX, 'RCX25Extractor.extract_cell')
        v = I.bind(m[1] if isinstance(m, tuple) else m, args, kw).vars
        log.append(('extract', v['results'], v['report']))
        if I.branch(z3.Const('extraction fails', B)):
            I.raise_('RuntimeError', 'x')
        return v['results']
    I.contracts[EX + ':RCX25Extractor.extract_cell'] = cellf
    I.externals[PB + 'result.pex_result_pb2.RExtractionResult'] = Builtin('R', lambda I, a, k: Record('rex', {}))
    I.externals['traceback.print_exc'] = Builtin('print_exc', lambda I, a, k: None)
    ex = Obj(I.repo(EX, 'RCX25Extractor'), dict(pex_context=Record('context', dict(dbu=dbu, annotated_top_cell=Record('top', dict(name=cell)))), report_path=p))
    try:
        r = I.call(I.getattr(ex, 'extract'), [], {})
    except PyRaise:
        I.prove('an error of the extraction is not hidden', z3.Const('extraction fails', B))
        return
    I.prove('an extraction that fails is an error', z3.Not(z3.Const('extraction fails', B)))
    I.prove('report, extraction, saving in this order', z3.BoolVal([e[0] for e in log] == ['new', 'extract', 'save']))
    if [e[0] for e in log] != ['new', 'extract', 'save']:
        return
    I.prove('the extraction documents in this report', z3.BoolVal(log[1][2] is rep))
    I.prove('the report is saved where asked', log[2][1] == p if is_sym(log[2][1]) else z3.BoolVal(False))
    d = I.getattr(r, 'cell_extraction_results')
    I.prove('the results of the cell are returned under its name', z3.BoolVal(isinstance(d, DictVal) and len(d.pairs) == 1 and is_sym(d.pairs[0][0]) and d.pairs[0][0].eq(cell) and d.pairs[0][1] is log[1][1]))


def undecided(m): raise Undecided(m)


def save(I):
    """ensures: the report is written to the file asked for"""
    me, tr = reporter(I)
    p = I.fresh('path', NAME)
    I.call(I.getattr(me, 'save'), [p], {})
    ev = [e for e in tr.events if e[0] != 'cat']
    I.prove('the report is saved where asked', z3.And(z3.BoolVal(len(ev) == 1 and ev[0][0] == 'save'), ev[0][1] == p) if len(ev) == 1 and ev[0][0] == 'save' else z3.BoolVal(False))


def documents(f, *a):
    def harness(I): f(I, *a, doc=True)
    harness.__doc__ = '''ensures: every capacitance recorded is documented exactly once, with the shapes it comes from at their place in the layout'''
    return harness


HARNESSES = [('emit_overlap', documents(C11.neighbors)), ('emit_sidewall', documents(C12.sidewall)), ('emit_fringe', documents(C13.emit)),
             ('place_sidewall', documents(C12.on_edge, 'emit_sidewall')), ('place_fringe', documents(C13.on_edge, 'emit_fringe')), ('overlap', overlap), ('sidewall', sidewall), ('sideoverlap', sideoverlap), ('request', request), ('result', result), ('neighborhood', neighborhood), ('extract', extract), ('save', save),
             ('cell_rc', cell_run('RC', True, True, True)), ('cell_cc', cell_run('CC', True, False, True))]
