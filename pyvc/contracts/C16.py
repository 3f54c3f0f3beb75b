from .rcx import *
from .ctx import REST

MOD = 'klayout_pex.klayout.lvsdb_extractor'
CTX = 'KLayoutExtractionContext'
ASSUMPTIONS = ['a kdb.Region is the union of its polygons; begin_shapes_rec visits each of them once, and the transformations of the iteration put '
               'it in its place (KLayout)', 'LayoutToNetlist.build_all_nets labels every shape with the expanded name of its net (concrete runs go through it)',
               'layer_names and layer_indexes list the layers of the database in the same order',
               'cell_mapping_into, build_all_nets, shapes_of_terminal, begin_shapes, Layout.layer() (a new layer each time): KLayout; device names and ids '
               'are unique in a circuit, and one terminal of a net is a given terminal of a device',
               'a text that overlaps a region of pins lies in one of its polygons (KLayout); an extracted layer is in the pair tables of the technology']
GEO = Reg.SORT
PT = z3.Function('polygon', Z, Z, GEO)          # region, position -> points covered (in place)
NET = z3.Function('net_of', Z, Z, NAME)
CNT = z3.Function('polygons', Z, Z)
ALL = z3.Function('all_upto', Z, Z, GEO)        # union of the first k polygons
MINE = z3.Function('mine_upto', Z, Z, GEO)      # ... of those of the net g
SALL = z3.Function('sources_upto', Z, GEO)      # union over the first k source layers
SMINE = z3.Function('sources_mine_upto', Z, GEO)
ELSE = z3.Function('elsewhere', Z, GEO)


class LReg(Reg):
    """a region with net labels: v all points, w the points labelled with the net g"""
    g = None

    def __init__(self, v=None, w=None):
        super().__init__(v)
        self.w = Reg.EMPTY if w is None else w

    def put(self, I, o):
        I.note_write(self)
        if isinstance(o, LReg):
            raise Undecided('insertion of a region (drops the labels)')
        if not isinstance(o, Piece):
            raise Undecided(f'insertion of {o!r}')
        self.v = Reg.union(self.v, o.v)
        self.w = Reg.union(self.w, z3.If(o.net == I.ghost['g'], o.v, Reg.EMPTY) if o.net is not None else Reg.EMPTY)
        return self
    m_insert = put

    def inplace(self, I, op, other):
        if op not in ('Add', 'BitOr') or not isinstance(other, LReg):
            raise Undecided(f'region {op}')
        I.note_write(self)
        self.v, self.w = Reg.union(self.v, other.v), Reg.union(self.w, other.w)
        return self

    def binop(self, I, op, other, refl):
        if op != 'Add' or not isinstance(other, LReg):
            raise Undecided(f'region {op}')
        return LReg(Reg.union(self.v, other.v), Reg.union(self.w, other.w))

    def snapshot(self): return (self.v, self.w)
    def truth(self, I): return self.v != Reg.EMPTY


class Source(LReg):
    """an input region: polygons with net labels"""
    readonly = True

    def __init__(self, I, r):
        self.r = r
        LReg.__init__(self, ALL(r, CNT(r)), MINE(r, CNT(r)))
        I.assume(CNT(r) >= 0, ALL(r, 0) == Reg.EMPTY, MINE(r, 0) == Reg.EMPTY)

    def m_begin_shapes_rec(self, I): return (Cursor(self), Trans([('global', self.r)]))
    def m_count(self, I): return CNT(self.r)
    def put(self, I, o): raise Undecided('an extracted layer is changed')
    m_insert = put
    def inplace(self, I, op, o): raise Undecided('an extracted layer is changed')

    def step(self, I, k):
        """facts about polygon k"""
        g = I.ghost['g']
        return [ALL(self.r, k + 1) == Reg.union(ALL(self.r, k), PT(self.r, k)),
                MINE(self.r, k + 1) == z3.If(NET(self.r, k) == g, Reg.union(MINE(self.r, k), PT(self.r, k)), MINE(self.r, k))]

    def piece(self, k): return Piece(PT(self.r, k), NET(self.r, k))
    def iterate(self, I): return IterSpec(('polygons', self.r), CNT(self.r), lambda I, k: Shape(self.r, zint(k), placed=True), base=self)
    def m_each(self, I): return self.iterate(I)


class Cursor(Model):
    kind = 'Cursor'

    def __init__(self, src):
        super().__init__()
        self.src, self.pos = src, z3.IntVal(0)

    def m_at_end(self, I): return self.pos >= CNT(self.src.r)

    def m_next(self, I):
        I.note_write(self)
        self.pos = z3.simplify(self.pos + 1)

    def m_shape(self, I):
        I.guard(z3.And(self.pos >= 0, self.pos < CNT(self.src.r)), 'IndexError')
        return Shape(self.src.r, self.pos)

    def m_trans(self, I): return Trans([('local', self.src.r, self.pos)])
    def snapshot(self): return self.pos


class Shape(Model):
    kind = 'Shape'

    def __init__(self, r, k, placed=False):
        super().__init__()
        self.r, self.k, self.placed = r, k, placed

    def m_property(self, I, n):
        if n != 'net':
            raise Undecided('property')
        return NET(self.r, self.k)

    def getattr(self, I, name):
        if name == 'polygon':
            return Piece(None, None, (self.r, self.k))
        return super().getattr(I, name)


class Piece(Model):
    """a polygon: placed (v) or in the coordinates of its cell (at)"""
    kind = 'Polygon'

    def __init__(self, v, net, at=None):
        super().__init__()
        self._v, self.net, self.at = v, net, at

    @property
    def v(self):
        if self._v is None:
            self._v = ELSE(id(self))       # in the coordinates of its cell: some place
        return self._v


class Trans(Model):
    kind = 'Trans'

    def __init__(self, parts):
        super().__init__()
        self.parts = parts

    def binop(self, I, op, o, refl):
        if op != 'Mult' or refl:
            raise Undecided('transformation')
        if isinstance(o, Trans):
            return Trans(self.parts + o.parts)
        if isinstance(o, Piece):
            if o.at is None:
                raise Undecided('transformation of a placed polygon')
            r, k = o.at
            p = self.parts
            if len(p) == 2 and p[0][0] == 'global' and p[0][1].eq(r) and p[1][0] == 'local' and p[1][1].eq(r) and p[1][2].eq(k):
                return Piece(PT(r, k), o.net)
            if len(p) == 1 and p[0][0] == 'local' and p[0][2].eq(k):      # on the way to its place
                return Piece(None, o.net, ('half', r, k)) if False else Half(r, k, o.net)
            return Piece(None, o.net)
        if isinstance(o, Half):
            p = self.parts
            if len(p) == 1 and p[0][0] == 'global' and p[0][1].eq(o.r):
                return Piece(PT(o.r, o.k), o.net)
            return Piece(None, o.net)
        raise Undecided('transformation of something else')


class Half(Piece):
    def __init__(self, r, k, net):
        super().__init__(None, net)
        self.r, self.k = r, k


class SubTrace:
    pass


class Walk(Spec):
    """over the polygons of one source region (while with a cursor, or for): the region built has gained the polygons passed"""
    def __init__(self, net_only):
        super().__init__('polygons', lambda I, it: False)
        self.net_only = net_only

    def match(self, I, it):
        if isinstance(it, tuple):
            return True
        return isinstance(it.base, Source)

    def pre(self, I, L):
        g = L.ghost
        cur = [o for o in L.written if isinstance(o, Cursor)]
        reg = [o for o in L.written if isinstance(o, LReg)]
        if len(cur) > 1 or len(reg) > 1 or len(cur) + len(reg) != len(L.written):
            raise Undecided('the loop writes something else')
        g['cur'], g['reg'] = cur[0] if cur else None, reg[0] if reg else None
        g['start'] = g['reg'].snapshot() if reg else None
        g['src'] = cur[0].src if cur else L.it.base if L.it.n is not None else None
        g['open'] = g['src'] is None
        if g['cur'] is not None and not z3.is_true(z3.simplify(g['cur'].pos == 0)):
            raise Undecided('the iteration starts elsewhere')

    def havoc(self, I, L, k):
        g = L.ghost
        if g['cur'] is not None:
            g['cur'].pos = I.fresh('pos', Z)
        if g['reg'] is not None:
            g['reg'].v, g['reg'].w = I.fresh('v', GEO), I.fresh('w', GEO)
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        g = L.ghost
        if g['open']:
            return []
        r = g['src'].r
        out = []
        pos = k
        if g['cur'] is not None:
            pos = g['cur'].pos
            out += [('the cursor is in the region', z3.And(pos >= 0, pos <= CNT(r)))]
        if g['reg'] is not None:
            v, w = g['start']
            out += [('the polygons passed have been added',
                     g['reg'].v == Reg.union(v, (MINE if self.net_only else ALL)(r, pos)))]
            if not self.net_only:
                out += [('with their net', g['reg'].w == Reg.union(w, MINE(r, pos)))]
        return out

    def facts(self, I, L, k):
        g = L.ghost
        if g['open']:
            return []
        pos = g['cur'].pos if g['cur'] is not None else k
        return g['src'].step(I, pos)


class Sources(Spec):
    """over the source layers of a layer"""
    def __init__(self, net_only):
        super().__init__('sources', lambda I, it: base_tag(it.tag) == 'sources')
        self.net_only = net_only

    def pre(self, I, L):
        g = L.ghost
        g['hide'] = [o for o in L.written if isinstance(o, Cursor)]
        reg = [o for o in L.written if isinstance(o, LReg)]
        if len(reg) > 1 or len(reg) + len(g['hide']) != len(L.written):
            raise Undecided('the loop writes something else')
        g['reg'] = reg[0] if reg else None
        g['start'] = reg[0].snapshot() if reg else None
        I.assume(SALL(0) == Reg.EMPTY, SMINE(0) == Reg.EMPTY)

    def havoc(self, I, L, k):
        if L.ghost['reg'] is not None:
            L.ghost['reg'].v, L.ghost['reg'].w = I.fresh('v', GEO), I.fresh('w', GEO)
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        g = L.ghost
        if g['reg'] is None:
            return []
        v, w = g['start']
        out = [('the layers passed have been added', g['reg'].v == Reg.union(v, (SMINE if self.net_only else SALL)(k)))]
        if not self.net_only:
            out += [('with their nets', g['reg'].w == Reg.union(w, SMINE(k)))]
        return out

    def facts(self, I, L, k):
        return [SALL(k + 1) == Reg.union(SALL(k), ALL(k, CNT(k))), SMINE(k + 1) == Reg.union(SMINE(k), MINE(k, CNT(k)))]


def region_ctor(I, a, k):
    if not a and not k:
        return LReg()
    if len(a) == 1 and isinstance(a[0], LReg):
        return LReg(a[0].v, a[0].w)
    raise Undecided('Region constructor')


class Extracted(Model):
    """extracted_layers: some pair has an entry"""
    kind = 'Extracted'

    def __init__(self, pair, has, entry):
        super().__init__()
        self.pair, self.has, self.entry = pair, has, entry

    def same(self, k):
        return z3.And(zint(k[0]) == self.pair[0], zint(k[1]) == self.pair[1])

    def m_get(self, I, k, default=None):
        if not I.branch(self.same(k)):
            raise Undecided('another layer is looked up')
        return self.entry if I.branch(self.has) else default

    def contains(self, I, k):
        if not I.branch(self.same(k)):
            raise Undecided('another layer is looked up')
        return self.has

    def getitem(self, I, k):
        r = self.m_get(I, k)
        if r is None:
            I.raise_('KeyError')
        return r


def set_regions(I):
    I.externals['klayout.db.Region'] = Builtin('Region', region_ctor)

    def pwp(I, a, k):
        p, props = a
        if not isinstance(p, Piece) or not isinstance(props, DictVal) or [x for x, _ in props.pairs] != ['net']:
            raise Undecided('PolygonWithProperties')
        r = Piece.__new__(type(p))
        r.__dict__.update(p.__dict__)
        Model.__init__(r)
        r.net = props.pairs[0][1]
        return r
    I.externals['klayout.db.PolygonWithProperties'] = Builtin('PolygonWithProperties', pwp)


def context(I, net_only):
    set_regions(I)
    n, has = I.fresh('nsources', Z), I.fresh('has_layer', B)
    pair = (I.fresh('layer', Z), I.fresh('datatype', Z))
    I.ghost['g'] = I.fresh('g', NAME)
    I.assume(n >= 1)
    cache = {}

    def src(I, i):
        i = zint(i)
        if i.get_id() not in cache:
            cache[i.get_id()] = (i, Source(I, i))
        return Record('source', dict(region=cache[i.get_id()][1], gds_pair=pair), ident=i)
    entry = Record('merged', dict(source_layers=SymSeq('sources', n, src), gds_pair=pair))
    I.loop_specs = [Walk(net_only), Sources(net_only)]
    return Obj(I.repo(MOD, CTX), dict(extracted_layers=Extracted(pair, has, entry))), pair, has, n


def of_layer(I):
    """requires: any source layers with any labelled polygons.  ensures: None iff the layer was not extracted; else exactly the polygons of all
    its source layers, each labelled with its net (for an arbitrary net g)"""
    ctx, pair, has, n = context(I, False)
    r = I.call(I.getattr(ctx, 'shapes_of_layer'), [], dict(gds_pair=pair))
    I.prove('None iff the layer was not extracted', has == z3.BoolVal(r is not None))
    if r is not None:
        if not isinstance(r, LReg):
            raise Undecided('the shapes are something else')
        one = n == 1
        I.assume(SALL(0) == Reg.EMPTY, SMINE(0) == Reg.EMPTY, SALL(1) == Reg.union(SALL(0), ALL(0, CNT(0))),
                 SMINE(1) == Reg.union(SMINE(0), MINE(0, CNT(0))))
        I.prove('all shapes of the layer', r.v == SALL(n))
        I.prove('each with its net', r.w == SMINE(n))


def of_net(by_name):
    def harness(I):
        ctx, pair, has, n = context(I, True)
        g = I.ghost['g']
        name = I.fresh('plain_name', NAME)
        net = g if by_name else Record('net', dict(name=name, expanded_name=Builtin('expanded_name', lambda I, a, k: g)))
        I.ghost['isinstance'] = None
        if not by_name:
            net.isinst = lambda I, d: str(d).endswith('Net')
        r = I.call(I.getattr(ctx, 'shapes_of_net'), [], dict(gds_pair=pair, net=net))
        I.prove('None iff the layer was not extracted', has == z3.BoolVal(r is not None))
        if r is not None:
            if not isinstance(r, LReg):
                raise Undecided('the shapes are something else')
            I.prove('exactly the shapes of the net on the layer', r.v == SMINE(n))
    harness.__doc__ = f'''requires: any source layers; a net given by {'its name' if by_name else 'object (perhaps without a name)'}.
    ensures: None iff the layer was not extracted; else exactly the polygons whose label is the (expanded) name of the net'''
    return harness


# ---- which layers were extracted ----
LNAME = z3.Function('lvs_layer_name', Z, NAME)
LIDX = z3.Function('layer_index', Z, Z)
MAPPED, MAP = z3.Function('is_mapped', Z, B), z3.Function('annotated_index', Z, Z)
KNOWN, KIND = z3.Function('known_layer', NAME, B), z3.Function('layer_kind', NAME, Z)
PL, PD = z3.Function('pair_layer', NAME, Z), z3.Function('pair_datatype', NAME, Z)
SEEN = z3.Function('pair_seen_upto', Z, B)
PB2 = 'klayout_pex_protobuf.kpex.tech.tech_pb2.ComputedLayerInfo.'
KINDS = dict(KIND_UNSPECIFIED=0, KIND_REGULAR=1, KIND_DEVICE_CAPACITOR=2, KIND_DEVICE_RESISTOR=3, KIND_PIN=4, KIND_LABEL=5)


class ByPair(Model):
    """pair -> merged layer, seen through one arbitrary pair p; new members are events"""
    kind = 'ByPair'

    def there(self, I, k):
        k = (zint(k[0]), zint(k[1]))
        for x, h in self.seen:
            if x[0].eq(k[0]) and x[1].eq(k[1]):
                return h
        h = I.fresh('present', B)
        I.assume(z3.Implies(self.isp(k), h == self.has))
        self.seen = self.seen + [(k, h)]
        return h

    def isp(self, k): return z3.And(zint(k[0]) == self.p[0], zint(k[1]) == self.p[1])

    def m_get(self, I, k, default=None):
        return MergedRef(self, k) if I.branch(self.there(I, k)) else default

    def contains(self, I, k): return self.there(I, k)

    def getitem(self, I, k):
        I.guard(self.there(I, k), 'KeyError')
        return MergedRef(self, k)

    def setitem(self, I, k, v):
        h = self.there(I, k)
        I.note_write(self)
        if not isinstance(v, Obj) or not isinstance(v.fields.get('source_layers'), ListVal):
            raise Undecided('another kind of entry')
        I.obligation('an entry is not replaced', z3.Not(h))
        I.obligation('an entry is stored under its pair', z3.And(*[zint(x) == zint(y) for x, y in zip(v.fields['gds_pair'], k)]))
        self.has = z3.Or(self.has, self.isp(k))
        self.seen = [(x, z3.Or(h, z3.And(x[0] == zint(k[0]), x[1] == zint(k[1])))) for x, h in self.seen]
        for x in v.fields['source_layers'].items:
            self.trace.emit(I, 'layer', k, x)

    def snapshot(self): return (self.has, self.seen)


class MergedRef(Model):
    kind = 'MergedRef'

    def __init__(self, owner, k):
        super().__init__()
        self.owner, self.k = owner, k

    def getattr(self, I, name):
        if name == 'source_layers':
            return Record('sources', dict(append=Builtin('append', lambda I, a, k: self.owner.trace.emit(I, 'layer', self.k, a[0]))))
        raise Undecided(f'{name} of an entry')


class Unnamed(Model):
    kind = 'Unnamed'
    def m_append(self, I, x): self.trace.emit(I, 'unnamed', x)


class LayerLoop(Spec):
    def __init__(self, tr, blackbox, p):
        super().__init__('layers', lambda I, it: tag_has(it.tag, 'layer names') or tag_has(it.tag, 'layer indexes'))
        self.tr, self.blackbox, self.p = tr, blackbox, p

    def known(self, k): return z3.And(MAPPED(LIDX(k)), CNT(MAP(LIDX(k))) >= 1)

    def mine(self, k):
        n = LNAME(k)
        dev = z3.Or(KIND(n) == KINDS['KIND_DEVICE_CAPACITOR'], KIND(n) == KINDS['KIND_DEVICE_RESISTOR'])
        return z3.And(self.known(k), KNOWN(n), z3.Not(z3.And(self.blackbox, dev)))

    def pre(self, I, L):
        g = L.ghost
        g['d'] = None
        for o in L.written:
            if o is self.tr:
                continue
            if isinstance(o, DictVal) and not o.pairs:
                o.__class__ = ByPair
                o.__dict__.pop('pairs', None)
                o.p, o.has, o.seen, o.trace = self.p, z3.BoolVal(False), [], self.tr
            elif isinstance(o, ListVal) and not o.items:
                o.__class__ = Unnamed
                o.__dict__.pop('items', None)
                o.trace = self.tr
            if isinstance(o, ByPair):
                g['d'] = o
            elif not isinstance(o, Unnamed):
                raise Undecided(f'the loop writes {o!r}')
        I.assume(SEEN(0) == z3.BoolVal(False))

    def havoc(self, I, L, k):
        d = L.ghost['d']
        if d is not None:
            d.has, d.seen = I.fresh('has', B), []
        self.tr.events = [('sofar',)]
        mark_havoc(L, self.tr, *L.written)

    def inv(self, I, L, k):
        d = L.ghost['d']
        return [('a pair has an entry iff a layer so far has it', d.has == SEEN(k))] if d is not None else []

    def facts(self, I, L, k):
        n = LNAME(k)      # black-boxed layers have not been mapped (layer_map)
        dev = z3.Or(KIND(n) == KINDS['KIND_DEVICE_CAPACITOR'], KIND(n) == KINDS['KIND_DEVICE_RESISTOR'])
        return [z3.Implies(z3.And(self.blackbox, KNOWN(n), dev), z3.Not(MAPPED(LIDX(k)))), SEEN(k + 1) == z3.Or(SEEN(k), z3.And(self.mine(k), PL(LNAME(k)) == self.p[0], PD(LNAME(k)) == self.p[1]))]

    def elem_done(self, I, L, k, ctx):
        ev = self.tr.events[1:]
        named = [e for e in ev if e[0] == 'layer']
        un = [e for e in ev if e[0] == 'unnamed']
        n = LNAME(k)
        I.obligation('a layer becomes a source iff it has shapes, is known and not black-boxed: once', self.mine(k) == z3.BoolVal(len(named) == 1))
        I.obligation('at most once', z3.BoolVal(len(named) + len(un) <= 1))
        I.obligation('a layer with shapes that is not known is listed as unnamed',
                     z3.And(self.known(k), z3.Not(KNOWN(n))) == z3.BoolVal(len(un) == 1))
        for e in named + un:
            f = e[-1].fields
            if not isinstance(f.get('region'), Source):
                raise Undecided('another region')
            I.obligation('with its name and number and the shapes of its annotated layer', z3.And(zint(f['index']) == k, lay(I, f['lvs_layer_name']) == n,
                                                                                                 f['region'].r == MAP(LIDX(k))))
        for e in named:
            for q in (e[1], e[2].fields['gds_pair']):
                I.obligation('under the pair of the layer', z3.And(zint(q[0]) == PL(n), zint(q[1]) == PD(n)))

    def after(self, I, L):
        self.tr.events = [('loop', self.name)]


class NameTable(Model):
    kind = 'NameTable'
    def m_get(self, I, k, default=None):
        k = lay(I, k)
        if not I.branch(KNOWN(k)):
            return default
        pair = Record('pair', dict(layer=PL(k), datatype=PD(k)))
        return Record('computed', dict(kind=KIND(k), layer_info=Record('info', dict(drw_gds_pair=pair, name=k))))
    def contains(self, I, k): return KNOWN(lay(I, k))
    def getitem(self, I, k):
        I.guard(self.contains(I, k), 'KeyError')
        return self.m_get(I, k)


class IndexMap(Model):
    kind = 'IndexMap'
    def contains(self, I, k): return MAPPED(zint(k))
    def m_get(self, I, k, default=None): return MAP(zint(k)) if I.branch(MAPPED(zint(k))) else default
    def getitem(self, I, k):
        I.guard(MAPPED(zint(k)), 'KeyError')
        return MAP(zint(k))


class It(Model):
    kind = 'RecursiveShapeIterator'
    def __init__(self, layer):
        super().__init__()
        self.layer = layer


def extracted(I):
    """requires: any database layers, technology, mode and mapping of layers that are not black-boxed.  ensures: each layer with shapes that the technology knows and the mode does not
    black-box is a source of exactly the entry of its pair, with its shapes; unknown layers with shapes are listed as unnamed"""
    I.ghost['g'] = I.fresh('g', NAME)
    n = I.fresh('nlayers', Z)
    I.assume(n >= 0)
    bb = I.fresh('blackbox', B)
    p = (I.fresh('p', Z), I.fresh('q', Z))
    tr = Trace()
    I.roots = [tr]
    for k, v in KINDS.items():
        I.externals[PB2 + 'Kind.' + k] = v
        I.externals[PB2 + k] = v

    def ctor(I, a, k):
        if len(a) == 1 and isinstance(a[0], It):
            return Source(I, a[0].layer)
        return region_ctor(I, a, k)
    I.externals['klayout.db.Region'] = Builtin('Region', ctor)
    top = Record('top', dict(begin_shapes_rec=Builtin('begin_shapes_rec', lambda I, a, k: It(zint(a[0])))))
    lay_ = Record('layout', dict(top_cell=Builtin('top_cell', lambda I, a, k: top)))
    names = SymSeq('layer names', n, lambda I, i: LNAME(zint(i)))
    idxs = SymSeq('layer indexes', n, lambda I, i: LIDX(zint(i)))
    db = Record('lvsdb', dict(layer_indexes=Builtin('layer_indexes', lambda I, a, k: idxs), layer_names=Builtin('layer_names', lambda I, a, k: names)))
    I.loop_specs = [LayerLoop(tr, bb, p)]
    ti = tech(I, computed_layer_info_by_name=NameTable())
    f = I.getattr(I.repo(MOD, CTX), 'nonempty_extracted_layers')
    r = I.call(f, [], dict(lvsdb=db, tech=ti, annotated_layout=lay_, layer_index_map=IndexMap(), blackbox_devices=bb))
    I.prove('every layer was looked at once', z3.BoolVal([e[0] for e in tr.events] == ['loop']))
    if not isinstance(r, tuple) or not isinstance(r[0], ByPair) or not isinstance(r[1], Unnamed):
        raise Undecided('the layers are returned in another form')
    I.prove('a pair has an entry iff a layer has it', r[0].has == SEEN(n))


class BBox(Model):
    kind = 'Box'

    def __init__(self, I, lo=None, area=None):
        super().__init__()
        self.c = lo if lo is not None else [I.fresh(x, Z) for x in ('left', 'bottom', 'right', 'top')]
        self.ar = area if area is not None else I.fresh('area', Z)
        if lo is None:
            I.assume(self.c[0] <= self.c[2], self.c[1] <= self.c[3], self.ar >= 0)

    def inside(self, o): return z3.And(o.c[0] <= self.c[0], o.c[1] <= self.c[1], self.c[2] <= o.c[2], self.c[3] <= o.c[3])
    def m_area(self, I): return self.ar
    def m_dup(self, I): return BBox(I, list(self.c), self.ar)

    def binop(self, I, op, other, refl):
        if op != 'Add' or not isinstance(other, BBox):
            raise Undecided(f'box {op}')
        mn, mx = (lambda a, b: z3.If(a <= b, a, b)), (lambda a, b: z3.If(a >= b, a, b))
        r = BBox(I, [mn(self.c[0], other.c[0]), mn(self.c[1], other.c[1]), mx(self.c[2], other.c[2]), mx(self.c[3], other.c[3])], I.fresh('area', Z))
        I.assume(r.ar >= self.ar, r.ar >= other.ar)
        return r


def bbox(I):
    """requires: the extracted shapes are shapes of the database (nothing is moved).  ensures: the bounding box covers all shapes of the database, and only them"""
    ext, db = BBox(I), BBox(I)
    I.assume(ext.inside(db), ext.ar <= db.ar)
    top = lambda b: Builtin('top_cell', lambda I, a, k: Record('cell', dict(bbox=Builtin('bbox', lambda I, a, k: b))))
    ctx = Obj(I.repo(MOD, CTX), dict(annotated_layout=Record('layout', dict(top_cell=top(ext))),
                                     annotated_top_cell=Record('cell', dict(bbox=Builtin('bbox', lambda I, a, k: ext))),
                                     lvsdb=Record('lvsdb', dict(internal_layout=Builtin('internal_layout', lambda I, a, k: Record('layout', dict(top_cell=top(db)))),
                                                                internal_top_cell=Builtin('internal_top_cell', lambda I, a, k: Record('cell', dict(bbox=Builtin('bbox', lambda I, a, k: db))))))))
    r = I.call(I.getattr(ctx, 'top_cell_bbox'), [], {})
    if not isinstance(r, BBox):
        raise Undecided(f'box {r!r}')
    I.prove('covers every shape of the database', db.inside(r))
    I.prove('and nothing else', r.inside(db))


HARNESSES = [('bbox', bbox), ('shapes_of_layer', of_layer), ('shapes_of_net', of_net(False)), ('shapes_of_net_by_name', of_net(True)), ('extracted_layers', extracted)] + REST
