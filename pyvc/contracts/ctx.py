"""the rest of the extraction context: layer map, construction, devices and pins"""
from .rcx import *
from .C18 import Pb, Rep, Lookup, PB, CANON, INFO, LAYER, SL, SD, SN, L_, D_, NS, GPL, GPD, extracted_layers, pair_of, at, num

MOD = 'klayout_pex.klayout.lvsdb_extractor'
CTX = 'KLayoutExtractionContext'
GEO = Reg.SORT


def param(I, a, k, *names):
    """the arguments of an external call by name"""
    d = dict(zip(names, a))
    d.update(k)
    if set(d) - set(names) or len(a) > len(names):
        raise Undecided('unexpected arguments')
    return d


class LInfo(Model):
    """kdb.LayerInfo"""
    kind = 'LayerInfo'

    def __init__(self, layer=-1, datatype=-1, anon=None):
        super().__init__()
        self.layer, self.datatype, self.anon = zint(layer), zint(datatype), anon if anon is not None else z3.BoolVal(False)

    def getattr(self, I, name):
        if name in ('layer', 'datatype'):
            return getattr(self, name)
        if name in ('anonymous', 'is_anonymous?', 'anonymous_'):
            return Builtin(name, lambda I, a, k: self.anon)
        raise Undecided(f'LayerInfo.{name}')

    def eq(self, I, o):
        if not isinstance(o, LInfo):
            return False
        if z3.is_true(o.anon) or z3.is_true(self.anon):
            return z3.And(o.anon, self.anon)
        raise Undecided('comparison of layer infos')

    @staticmethod
    def ctor(I, a, k):
        d = param(I, a, k, 'layer', 'datatype')
        if not d:
            return LInfo(anon=z3.BoolVal(True))
        if set(d) != {'layer', 'datatype'}:
            raise Undecided('LayerInfo constructor')
        return LInfo(**d)


class Recorder(Model):
    """a dictionary being filled: stores are events"""
    kind = 'Recorder'

    def setitem(self, I, k, v):
        self.tr.emit(I, 'store', self, k, v)
        I.note_write(self)

    def getitem(self, I, k): return Place(self, k) if self.lists else self.unread()
    def unread(self): raise Undecided('the dictionary being built is read')
    def contains(self, I, k): self.unread()
    def m_get(self, I, k, d=None): self.unread()

    def m_setdefault(self, I, k, v=None):
        if not isinstance(v, ListVal) or v.items:
            self.unread()
        return Place(self, k)


class Place(Model):
    kind = 'Place'

    def __init__(self, owner, k):
        super().__init__()
        self.owner, self.k = owner, k

    def m_append(self, I, x):
        self.owner.tr.emit(I, 'append', self.owner, self.k, x)
        I.note_write(self.owner)


class Filling(AutoTrace):
    """a loop that fills dictionaries: their stores are events of the trace"""
    def own(self, L): return [o for o in super().own(L) if not isinstance(o, (Recorder, Pb))]

    def pre(self, I, L):
        for i, o in enumerate(o for o in L.written if isinstance(o, (DictVal, Recorder))):
            if isinstance(o, DictVal) and not o.pairs:
                lists = o.default is not None
                o.__class__ = Recorder
                o.__dict__.pop('pairs', None)
                o.tr, o.no, o.lists = self.trace, i, lists
        super().pre(I, L)

    def havoc(self, I, L, k):
        super().havoc(I, L, k)
        mark_havoc(L, *[o for o in L.written if isinstance(o, (Recorder, Pb))])

    def on_break(self, I, L, k):
        if L.it.n is None or not self.traced(L):
            raise Undecided('break')
        L.ghost['broken'] = True
        self.check(I, L, k, self.trace.events[1:])
        rest = self.may_stop(I, L, k) if hasattr(self, 'may_stop') else None
        I.prove('no element is left out', rest if rest is not None else k + 1 >= L.it.n)
        self.trace.events = L.ghost['pre_events'] + [('loop', self.name, L)]


# ---------------------------------------------------------------- layer map
LNAME, LIDX = z3.Function('lvs_layer_name', Z, NAME), z3.Function('layer_index', Z, Z)
NAMEOF = z3.Function('name_of_index', Z, NAME)
KNOWN, KIND = z3.Function('known_layer', NAME, B), z3.Function('layer_kind', NAME, Z)
HASP, TPL, TPD = z3.Function('has_pair', NAME, B), z3.Function('tech_pair_layer', NAME, Z), z3.Function('tech_pair_datatype', NAME, Z)
ANON, IL, ID = z3.Function('no_info', Z, B), z3.Function('info_layer', Z, Z), z3.Function('info_datatype', Z, Z)
NREG = z3.Function('net_region', Z, GEO)
KINDS = dict(KIND_UNSPECIFIED=0, KIND_REGULAR=1, KIND_DEVICE_CAPACITOR=2, KIND_DEVICE_RESISTOR=3, KIND_PIN=4, KIND_LABEL=5)


def kinds(I):
    for k, v in KINDS.items():
        I.externals[PB + 'tech.tech_pb2.ComputedLayerInfo.Kind.' + k] = v
        I.externals[PB + 'tech.tech_pb2.ComputedLayerInfo.' + k] = v


def layer_map(I):
    """requires: any database layers and technology, black-boxing on or off.  ensures: exactly the layers with a GDS pair (of the technology, else of the
    database) that are not black-boxed get an annotated layer: a new one with that pair, the net shapes of the layer, and the map from the layer to it"""
    kinds(I)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    n, bb = I.fresh('nlayers', Z), I.fresh('blackbox', B)
    I.assume(n >= 0)
    I.externals['klayout.db.LayerInfo'] = Builtin('LayerInfo', LInfo.ctor)
    st = I.__dict__.setdefault('layer_map', {})

    def new(I, a, k):
        x = I.fresh('annotated', Z)
        if a or k:
            if len(a) != 1 or not isinstance(a[0], LInfo):
                raise Undecided('Layout.layer')
            raise Undecided('an existing layer may be used again')
        tr.emit(I, 'new', x)
        return x

    def insert(I, a, k):
        x = I.fresh('annotated', Z)
        tr.emit(I, 'new', x)
        tr.emit(I, 'info', x, a[0])
        return x
    lt = Record('annotated', dict(layer=Builtin('layer', new), insert_layer=Builtin('insert_layer', insert),
                                  set_info=Builtin('set_info', lambda I, a, k: tr.emit(I, 'info', zint(a[0]), a[1]))))

    def get_info(I, a, k):
        i = zint(a[0])
        I.assume(z3.Implies(ANON(i), z3.And(IL(i) == -1, ID(i) == -1)))
        return LInfo(IL(i), ID(i), ANON(i))

    def reg(I, a, k):
        return Record('region', {}, ident=zint(a[0]))

    def idx(I, i):
        i = zint(i)
        I.assume(NAMEOF(LIDX(i)) == LNAME(i))
        return LIDX(i)
    names = SymSeq('layer names', n, lambda I, i: LNAME(zint(i)))
    db = Record('lvsdb', dict(layer_indexes=Builtin('layer_indexes', lambda I, a, k: SymSeq('layer indexes', n, idx)),
                              layer_names=Builtin('layer_names', lambda I, a, k: names),
                              layer_name=Builtin('layer_name', lambda I, a, k: NAMEOF(zint(a[0]))),
                              internal_layout=Builtin('internal_layout', lambda I, a, k: Record('internal', dict(get_info=Builtin('get_info', get_info)))),
                              layer_by_index=Builtin('layer_by_index', reg)))
    known = Lookup(lambda I, k: KNOWN(lay(I, k)), lambda I, k: Record('computed', dict(kind=KIND(lay(I, k)))))
    pairs = Lookup(lambda I, k: HASP(lay(I, k)), lambda I, k: (TPL(lay(I, k)), TPD(lay(I, k))))

    def per(I, L, k, ev):
        if not (tag_has(L.it.tag, 'layer indexes') or tag_has(L.it.tag, 'layer names')):
            raise Undecided('another loop')
        i, nm = LIDX(k), LNAME(k)
        I.assume(NAMEOF(i) == nm)
        black = z3.And(bb, KNOWN(nm), z3.Or(KIND(nm) == KINDS['KIND_DEVICE_CAPACITOR'], KIND(nm) == KINDS['KIND_DEVICE_RESISTOR']))
        want = z3.And(z3.Not(black), z3.Or(HASP(nm), z3.Not(ANON(i))))
        news = [e[1] for e in ev if e[0] == 'new']
        infos = [e for e in ev if e[0] == 'info']
        sto = [e for e in ev if e[0] == 'store']
        if len(news) + len(infos) + len(sto) != len(ev):
            raise Undecided('other events')
        I.prove('a layer is mapped iff it has a pair and is not black-boxed', want == z3.BoolVal(len(sto) > 0))
        if not sto:
            return
        I.prove('one new annotated layer, with its pair', z3.BoolVal(len(news) == 1 and len(infos) >= 1 and all(isinstance(e[2], LInfo) for e in infos)))
        if len(news) != 1 or not infos:
            return
        a = news[0]
        e = infos[-1]
        I.prove('the pair is that of the technology, else that of the database',
                z3.And(zint(e[1]) == a, e[2].layer == z3.If(HASP(nm), TPL(nm), IL(i)), e[2].datatype == z3.If(HASP(nm), TPD(nm), ID(i))))
        regs = [e for e in sto if isinstance(e[3], Record)]
        maps = [e for e in sto if not isinstance(e[3], Record)]
        I.prove('shapes and map: one entry each', z3.BoolVal(len(regs) == len(maps) == 1))
        if len(regs) != 1 or len(maps) != 1:
            return
        I.prove('the annotated layer gets the net shapes of the layer', z3.And(zint(regs[0][2]) == a, zint(regs[0][3].ident) == i))
        I.prove('the layer is mapped to the annotated layer', z3.And(zint(maps[0][2]) == i, zint(maps[0][3]) == a))
        st.setdefault('order', set()).add((regs[0][1].no, maps[0][1].no))
    I.auto_loop = lambda it: Filling('layers', tr, per)
    ti = tech(I, computed_layer_info_by_name=known, gds_pair_for_computed_layer_name=pairs)
    r = I.call(I.getattr(I.repo(MOD, CTX), 'build_LVS_layer_map'), [], dict(annotated_layout=lt, lvsdb=db, tech=ti, blackbox_devices=bb))
    ls = [e for e in tr.events if e[0] == 'loop']
    I.prove('all layers of the database', z3.And(z3.BoolVal(len(ls) == len(tr.events) == 1), *[unfiltered(I, e[2].it).n == n for e in ls]))
    if not isinstance(r, tuple) or not all(isinstance(x, Recorder) for x in r):
        raise Undecided('the maps are returned in another form')
    I.prove('the shapes and the map', z3.BoolVal(st.get('order', {None}) == {tuple(x.no for x in r)}))


def construction(I):
    """requires: any database, technology and mode.  ensures: a layout with the database unit and one top cell of the given name; all nets are built flat into it with their names as property 'net' from the net regions of the layer map, before the
    layers are collected; the context carries exactly these"""
    tr = I.ghost['trace'] = Trace()
    bb, dbu, nm = I.fresh('blackbox', B), I.fresh('dbu', R), I.fresh('top', NAME)
    cell = Record('cell', {})

    class Layout(Model):
        kind = 'Layout'

        def __init__(self):
            super().__init__()
            self.dbu = z3.RealVal('0.001')

        def setattr(self, I, name, v):
            if name != 'dbu':
                raise Undecided(f'Layout.{name}')
            self.dbu = num(v)

        def a_dbu(self, I): return self.dbu

        def m_create_cell(self, I, n):
            tr.emit(I, 'cell', self, lay(I, n))
            return cell
    I.externals['klayout.db.Layout'] = Builtin('Layout', lambda I, a, k: Layout())
    M = 'klayout.db.LayoutToNetlist.BuildNetHierarchyMode.'
    for i, x in enumerate(('BNH_Flatten', 'BNH_SubcircuitCells', 'BNH_Disconnected')):
        I.externals[M + x] = I.externals['klayout.db.LayoutToNetlist.' + x] = i
    cm, regs, lmap, el, un = [Record(x, {}) for x in ('cell mapping', 'regions', 'layer map', 'extracted', 'unnamed')]

    def mapping(I, a, k):
        tr.emit(I, 'mapping', param(I, a, k, 'layout', 'cell', 'with_device_cells'))
        return cm
    db = Record('lvsdb', dict(internal_layout=Builtin('internal_layout', lambda I, a, k: Record('internal', dict(dbu=dbu))),
                              cell_mapping_into=Builtin('cell_mapping_into', mapping),
                              build_all_nets=Builtin('build_all_nets', lambda I, a, k: tr.emit(I, 'build', param(I, a, k, 'cmap', 'target', 'lmap', 'net_cell_name_prefix',
                                                      'netname_prop', 'hier_mode', 'circuit_cell_name_prefix', 'device_cell_name_prefix')))))
    ti = tech(I)

    def call(name, ret):
        q = I.repo(MOD, CTX).lookup(name) if hasattr(I.repo(MOD, CTX), 'lookup') else None

        def f(I, a, k):
            tr.emit(I, name, param(I, [x for x in a if not (isinstance(x, type(I.repo(MOD, CTX))))], k,
                                   *(('annotated_layout', 'lvsdb', 'tech', 'blackbox_devices') if name == 'build_LVS_layer_map' else
                                     ('lvsdb', 'tech', 'annotated_layout', 'layer_index_map', 'blackbox_devices'))))
            return ret
        I.contracts[f'{MOD}:{CTX}.{name}'] = f
    call('build_LVS_layer_map', (regs, lmap))
    call('nonempty_extracted_layers', (el, un))
    r = I.call(I.getattr(I.repo(MOD, CTX), 'prepare_extraction'), [], dict(lvsdb=db, top_cell=nm, tech=ti, blackbox_devices=bb))
    ev = [e[0] for e in tr.events]
    I.prove('one top cell, mapping, layer map and net build, then the layers',
            z3.BoolVal(sorted(ev) == sorted(['cell', 'mapping', 'build_LVS_layer_map', 'build', 'nonempty_extracted_layers']) and ev[-1] == 'nonempty_extracted_layers'
                       and ev.index('cell') < ev.index('mapping') < ev.index('build') and ev.index('build_LVS_layer_map') < ev.index('build')))
    e = {x[0]: x[1:] for x in tr.events}
    if len(e) != 5 or not isinstance(r, Obj):
        raise Undecided('the context is built in another way')
    lt = e['cell'][0]
    f = r.fields
    I.prove('the cell has the given name', e['cell'][1] == nm)
    I.prove('the layout has the database unit of the database', z3.And(lt.dbu == dbu, num(f['dbu']) == dbu))
    m = e['mapping'][0]
    I.prove('the database is mapped to that cell', z3.BoolVal(m.get('layout') is lt and m.get('cell') is cell))
    for x in ('build_LVS_layer_map', 'nonempty_extracted_layers'):
        d = e[x][0]
        I.prove(f'{x}: of this database and layout', z3.BoolVal(d.get('annotated_layout') is lt and d.get('lvsdb') is db and d.get('tech') is ti))
        I.prove(f'{x}: in the given mode', zbool(d['blackbox_devices']) == bb)
    I.prove('the layers go by the layer map', z3.BoolVal(e['nonempty_extracted_layers'][0].get('layer_index_map') is lmap))
    b = e['build'][0]
    I.prove('the nets are built from the regions of the layer map', z3.BoolVal(b.get('cmap') is cm and b.get('target') is lt and b.get('lmap') is regs))
    np_ = b.get('netname_prop')
    I.prove('flat, with the net name as property', z3.BoolVal(isinstance(np_, str) and np_ == 'net' and b.get('hier_mode') == 0 and b.get('net_cell_name_prefix') is None))
    I.prove('the context', z3.BoolVal(f['lvsdb'] is db and f['tech'] is ti and f['annotated_top_cell'] is cell and f['layer_index_map'] is lmap and
                                      f['lvsdb_regions'] is regs and f['cell_mapping'] is cm and f['annotated_layout'] is lt and
                                      f['extracted_layers'] is el and f['unnamed_layers'] is un))


# ---------------------------------------------------------------- pins and labels of a layer
def pin_shapes(I):
    """requires: a layer of the technology.  ensures: the shapes of its pin layer if it was extracted from one database layer; none if not extracted"""
    p, q, n = I.fresh('pin_layer', Z), I.fresh('pin_datatype', Z), I.fresh('nsources', Z)
    pair = (I.fresh('layer', Z), I.fresh('datatype', Z))
    has = I.fresh('extracted', B)
    I.assume(n >= 1)
    empty = Reg(Reg.EMPTY)
    I.externals['klayout.db.Region'] = Builtin('Region', lambda I, a, k: empty if not a and not k else None)
    regs = {}
    R0 = z3.Function('source_region', Z, GEO)
    src = SymSeq('sources', n, lambda I, i: Record('source', dict(region=Reg(R0(zint(i))), gds_pair=(p, q)), ident=zint(i)))
    is_pin = lambda k: z3.And(zint(k[0]) == p, zint(k[1]) == q)

    def pinned(I, k):
        I.prove('the pin layer of the layer', is_pin(k))
        return has
    el = Lookup(pinned, lambda I, k: Record('merged', dict(source_layers=src, gds_pair=(p, q))))

    def info(I, k):
        I.prove('of the layer asked for', z3.And(zint(k[0]) == pair[0], zint(k[1]) == pair[1]))
        return Record('layer info', dict(pin_gds_pair=Record('pair', dict(layer=p, datatype=q))))
    ti = tech(I, layer_info_by_gds_pair=Lookup(lambda I, k: z3.BoolVal(True), info))
    ctx = Obj(I.repo(MOD, CTX), dict(extracted_layers=el, tech=ti))
    try:
        r = I.call(I.getattr(ctx, 'pins_of_layer'), [], dict(gds_pair=pair))
    except PyRaise:
        I.prove('pins are refused only if they come from several database layers', z3.And(has, n != 1))
        return
    if not isinstance(r, Reg):
        raise Undecided('the pins are something else')
    I.prove('the shapes of the pin layer, none if it was not extracted', r.v == z3.If(has, R0(0), Reg.EMPTY))
    I.prove('of one database layer', z3.Implies(has, n == 1))


def label_texts(I):
    """requires: a layer of the technology.  ensures: the texts on its label layer in the annotated layout's top cell; none if there is no such layer"""
    p, q = I.fresh('label_layer', Z), I.fresh('label_datatype', Z)
    pair = (I.fresh('layer', Z), I.fresh('datatype', Z))
    has, idx = I.fresh('has_label_layer', B), I.fresh('label_index', Z)
    I.assume(idx >= 0)
    tr = Trace()

    def find(I, a, k):
        d = list(a)
        if len(d) == 1 and isinstance(d[0], tuple):
            d = list(d[0])
        elif len(d) == 1 and isinstance(d[0], LInfo):
            d = [d[0].layer, d[0].datatype]
        I.prove('the label layer of the layer', z3.And(zint(d[0]) == p, zint(d[1]) == q))
        return idx if I.branch(has) else None
    I.externals['klayout.db.LayerInfo'] = Builtin('LayerInfo', LInfo.ctor)
    top = Record('top', {})

    def shapes(I, a, k):
        d = param(I, a, k, 'cell', 'layer')
        I.prove('of the top cell', z3.BoolVal(d['cell'] is top))
        I.prove('on the label layer', zint(d['layer']) == idx)
        I.prove('which exists', has)
        return Record('iterator', {})
    lt = Record('layout', dict(find_layer=Builtin('find_layer', find), begin_shapes=Builtin('begin_shapes', shapes), top_cell=Builtin('top_cell', lambda I, a, k: top)))

    def texts(I, a, k):
        if not a:
            return Record('texts', {}, ident=z3.IntVal(0))
        if not isinstance(a[0], Record) or a[0].name != 'iterator':
            raise Undecided('Texts constructor')
        return Record('texts', {}, ident=z3.IntVal(1))
    I.externals['klayout.db.Texts'] = Builtin('Texts', texts)

    def info(I, k):
        I.prove('of the layer asked for', z3.And(zint(k[0]) == pair[0], zint(k[1]) == pair[1]))
        return Record('layer info', dict(label_gds_pair=Record('pair', dict(layer=p, datatype=q))))
    ti = tech(I, layer_info_by_gds_pair=Lookup(lambda I, k: z3.BoolVal(True), info))
    ctx = Obj(I.repo(MOD, CTX), dict(tech=ti, annotated_layout=lt, annotated_top_cell=top,
                                     lvsdb=Record('lvsdb', dict(internal_top_cell=Builtin('internal_top_cell', lambda I, a, k: top)))))
    r = I.call(I.getattr(ctx, 'labels_of_layer'), [], dict(gds_pair=pair))
    if not isinstance(r, Record) or r.name != 'texts':
        raise Undecided('the labels are something else')
    I.prove('the labels of the layer, none if it does not exist', zint(r.ident) == z3.If(has, 1, 0))


# ---------------------------------------------------------------- devices
f_ = z3.Function
DID, DEXP, DCLS, DABS = f_('device_id', Z, Z), f_('device_expanded_name', Z, NAME), f_('device_class', Z, NAME), f_('device_abstract', Z, NAME)
NPD, PID, PNM, PVAL = f_('n_parameters', Z, Z), f_('parameter_id', Z, Z, Z), f_('parameter_name', Z, Z, NAME), f_('parameter_value', Z, Z, R)
NTD, TID, TNM = f_('n_terminals', Z, Z), f_('terminal_id', Z, Z, Z), f_('terminal_name', Z, Z, NAME)
HASN, NETOF, NEXP, NNT = f_('is_connected', Z, Z, B), f_('net_of_terminal', Z, Z, Z), f_('net_expanded_name', Z, NAME), f_('n_net_terminals', Z, Z)
NTDEV, NTTERM = f_('net_terminal_device', Z, Z, Z), f_('net_terminal_terminal', Z, Z, Z)
NSL, SLI = f_('n_terminal_layers', Z, Z, Z), f_('terminal_layer', Z, Z, Z, Z)
TREG = f_('terminal_shapes', Z, Z, Z, GEO)
MAPPED, MAP = f_('is_mapped', Z, B), f_('annotated_index', Z, Z)
AL, AD = f_('annotated_layer', Z, Z), f_('annotated_datatype', Z, Z)
DEVICE = dict(parameters=[{}], terminals=[dict(region_by_layer=[dict(layer={}, region={})])])


class IndexMap(Model):
    kind = 'IndexMap'
    def contains(self, I, k): return MAPPED(zint(k))
    def m_get(self, I, k, default=None): return MAP(zint(k)) if I.branch(MAPPED(zint(k))) else default
    def getitem(self, I, k):
        I.guard(MAPPED(zint(k)), 'KeyError')
        return MAP(zint(k))


class LayerInfos(Model):
    kind = 'LayerInfos'
    def getitem(self, I, k): return Record('info', dict(layer=AL(zint(k)), datatype=AD(zint(k))))


def bi(f): return Builtin('f', f)


def devices(I):
    """requires: any devices with parameters, terminals, nets and terminal shapes.  ensures: one entry per device under its name with its id, class and
    parameters; each connected terminal with its net and, per mapped layer, its shapes; unconnected ones with an empty net"""
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    nd = I.fresh('ndevices', Z)
    I.assume(nd >= 0)
    st = {}
    I.externals[PB + 'layout.device_pb2.Device'] = Builtin('Device', lambda I, a, k: Pb(tr, DEVICE, ('device',)))
    I.contracts['klayout_pex.klayout.shapes_pb2_converter:ShapesConverter.klayout_region_to_pb'] = \
        lambda I, a, k: tr.emit(I, 'convert', *(list(a[1:]) + [k[x] for x in ('region_kly', 'region_pb')[len(a) - 1:]]))

    def net(t):
        return Record('net', dict(expanded_name=bi(lambda I, a, k: NEXP(t)), name=f_('plain_net_name', Z, NAME)(t),
                                  each_terminal=bi(lambda I, a, k: terminals(I, t))), ident=t)

    def terminals(I, t):
        I.assume(NNT(t) >= 0)
        return SymSeq(('net terminals', t), NNT(t), lambda I, j: Record('net terminal', dict(
            device=bi(lambda I, a, k: device(I, NTDEV(t, zint(j)))), terminal_id=bi(lambda I, a, k: NTTERM(t, zint(j)))), ident=(t, zint(j))))

    def device(I, d):
        d = zint(d)
        I.assume(NPD(d) >= 0, NTD(d) >= 0)
        for o in I.__dict__.setdefault('devices seen', []):    # names and ids tell devices of one circuit apart
            I.assume(z3.And((DEXP(o) == DEXP(d)) == (o == d), (DID(o) == DID(d)) == (o == d)))
        if not any(o.eq(d) for o in I.__dict__['devices seen']):
            I.__dict__['devices seen'].append(d)

        def pdef(I, j): return Record('parameter', dict(id=bi(lambda I, a, k: PID(d, zint(j))), name=PNM(d, zint(j))), ident=zint(j))
        def tdef(I, j):
            st['terminal'] = zint(j)
            return Record('terminal', dict(id=bi(lambda I, a, k: TID(d, zint(j))), name=TNM(d, zint(j))), ident=zint(j))
        cls = Record('class', dict(name=DCLS(d), parameter_definitions=bi(lambda I, a, k: SymSeq(('parameters', d), NPD(d), pdef)),
                                   terminal_definitions=bi(lambda I, a, k: SymSeq(('terminals', d), NTD(d), tdef))))

        def net_of(I, a, k):
            t = zint(a[0])
            return net(NETOF(d, t)) if I.branch(HASN(d, t)) else None

        def value(I, a, k):
            if not is_sym(a[0]) or a[0].sort() != Z:
                raise Undecided('parameter by something else')
            return PVAL(d, a[0])
        return Record('device', dict(id=bi(lambda I, a, k: DID(d)), expanded_name=bi(lambda I, a, k: DEXP(d)), name=f_('plain_device_name', Z, NAME)(d),
                                     device_class=bi(lambda I, a, k: cls), device_abstract=Record('abstract', dict(name=DABS(d))),
                                     parameter=bi(value), net_for_terminal=bi(net_of)), ident=d)
    I.__dict__['devices seen'] = []

    def own(I, d):
        st['device'] = zint(d)
        return device(I, d)

    def shapes(I, a, k):
        r = a[0]
        if not isinstance(r, Record) or r.name != 'net terminal':
            raise Undecided('shapes of something else')
        t, j = r.ident
        I.assume(NSL(t, j) >= 0)
        return SymDict(('shapes', t, j), NSL(t, j), lambda I, m: SLI(t, j, zint(m)), lambda I, m: Reg(TREG(t, j, SLI(t, j, zint(m)))), unique=True)
    circ = Record('circuit', dict(each_device=bi(lambda I, a, k: SymSeq('devices', nd, own))))
    nl = Record('netlist', dict(top_circuit=bi(lambda I, a, k: circ)))
    db = Record('lvsdb', dict(netlist=bi(lambda I, a, k: nl), shapes_of_terminal=bi(shapes)))
    lt = Record('layout', dict(layer_infos=bi(lambda I, a, k: LayerInfos()), get_info=bi(lambda I, a, k: LayerInfos().getitem(I, a[0]))))
    ti = tech(I, canonical_layer_name_by_gds_pair=Lookup(lambda I, p: z3.BoolVal(True), lambda I, p: CANON(*pair_of(I, p))))
    ctx = Obj(I.repo(MOD, CTX), dict(lvsdb=db, tech=ti, dbu=I.fresh('dbu', R), layer_index_map=IndexMap(), annotated_layout=lt))
    P, T, RL = ('device', 'parameters'), ('device', 'terminals'), ('device', 'terminals', '*', 'region_by_layer')

    def fields(I, m, **want):
        for x, w in want.items():
            v = at(I, m, *x.split('__'))
            I.prove(f'{x} is that of the database', lay(I, v) == w if w.sort() == NAME else num(v) == num(w) if w.sort() == R else zint(v) == w)

    def per(I, L, k, ev):
        t = base_tag(L.it.tag)
        h = t[0] if isinstance(t, tuple) else t
        if h == 'parameters':
            d = t[1]
            I.prove('one parameter each', z3.BoolVal([e[0] for e in ev] == [P]))
            for e in ev:
                fields(I, e[1], id=PID(d, k), name=PNM(d, k), value=PVAL(d, PID(d, k)))
        elif h == 'terminals':
            d, i = t[1], TID(t[1], k)
            ls = [e for e in ev if e[0] == 'loop']
            ms = [e[1] for e in ev if e[0] == T]
            if len(ls) + len(ms) != len(ev):
                raise Undecided('other events')
            I.prove('an unconnected terminal is listed once, a connected one by its net', z3.And(z3.If(HASN(d, i), 0, 1) == len(ms), z3.If(HASN(d, i), 1, 0) == len(ls)))
            for m in ms:
                fields(I, m, device_id=DID(d), terminal_id=i, name=TNM(d, k))
                I.prove('without a net', z3.BoolVal(True) if m.get('net_name') is None else lay(I, m.get('net_name')) == I.literal('', NAME))
            for e in ls:
                tt = base_tag(e[2].it.tag)
                I.prove('all terminals of its net', z3.And(z3.BoolVal(tt[0] == 'net terminals'), zint(tt[1]) == NETOF(d, i), unfiltered(I, e[2].it).n == NNT(NETOF(d, i))))
        elif h == 'net terminals':
            n = t[1]
            d, j = st['device'], st['terminal']
            mine = z3.And(NTDEV(n, k) == d, NTTERM(n, k) == TID(d, j))
            ms = [e[1] for e in ev if e[0] == T]
            ls = [e for e in ev if e[0] == 'loop']
            if len(ls) + len(ms) != len(ev):
                raise Undecided('other events')
            I.prove('listed iff the terminal of the net is this one', mine == z3.BoolVal(len(ev) > 0))
            if not ev:
                return
            I.prove('once, with its shapes', z3.BoolVal(len(ms) == len(ls) == 1))
            for m in ms:
                fields(I, m, device_id=DID(d), terminal_id=TID(d, j), name=TNM(d, j), net_name=NEXP(n))
            for e in ls:
                tt = base_tag(e[2].it.tag)
                I.prove('all layers of its shapes', z3.And(z3.BoolVal(tt[0] == 'shapes' and same(tt[1], n) and same(tt[2], k)), unfiltered(I, e[2].it).n == NSL(n, k)))
        elif h == 'shapes':
            i = SLI(t[1], t[2], k)
            ms = [e[1] for e in ev if e[0] == RL]
            cs = [e for e in ev if e[0] == 'convert']
            if len(ms) + len(cs) != len(ev):
                raise Undecided('other events')
            I.prove('shapes are listed iff the layer is mapped: once', z3.And(z3.If(MAPPED(i), 1, 0) == len(ms), z3.BoolVal(len(cs) == len(ms))))
            for m in ms:
                fields(I, m, layer__id=MAP(i), layer__canonical_layer_name=CANON(AL(MAP(i)), AD(MAP(i))))
            for c, m in zip(cs, ms):
                I.prove('all shapes of the terminal on the layer', z3.And(c[1].v == TREG(t[1], t[2], i), z3.BoolVal(c[2] is m.f.get('region'))))
        elif h == 'devices':
            sto = [e for e in ev if e[0] == 'store']
            ls = {base_tag(e[2].it.tag)[0]: e[2] for e in ev if e[0] == 'loop'}
            if len(sto) + len(ls) != len(ev):
                raise Undecided('other events')
            I.prove('one entry, all parameters and all terminals', z3.BoolVal(len(sto) == 1 and set(ls) == {'parameters', 'terminals'} and isinstance(sto[0][3], Pb)))
            if len(sto) != 1 or set(ls) != {'parameters', 'terminals'}:
                return
            for x, c in (('parameters', NPD(k)), ('terminals', NTD(k))):
                tt = base_tag(ls[x].it.tag)
                I.prove(f'all {x} of the device', z3.And(zint(tt[1]) == k, unfiltered(I, ls[x].it).n == c))
            I.prove('under its name', lay(I, sto[0][2]) == DEXP(k))
            fields(I, sto[0][3], id=DID(k), device_name=DEXP(k), device_class_name=DCLS(k), device_abstract_name=DABS(k))
        else:
            raise Undecided(f'loop over {t}')

    class Loop(Filling):
        def may_stop(self, I, L, k):
            t = base_tag(L.it.tag)      # one terminal of the net is this one
            return z3.And(NTDEV(t[1], k) == st['device'], NTTERM(t[1], k) == TID(st['device'], st['terminal'])) if t[0] == 'net terminals' else None

        def elem_begin(self, I, L, k):
            t = base_tag(L.it.tag)
            if t == 'devices':
                st['device'] = k
            elif isinstance(t, tuple) and t[0] == 'terminals':
                st['device'], st['terminal'] = t[1], k
            super().elem_begin(I, L, k)

    def spec(it):
        t = base_tag(it.tag)
        return Loop(t[0] if isinstance(t, tuple) else t, tr, per)
    I.auto_loop = spec
    r = I.getattr(ctx, 'devices_by_name')
    ls = [e for e in tr.events if e[0] == 'loop']
    I.prove('all devices of the top circuit', z3.And(z3.BoolVal(len(ls) == len(tr.events) == 1), *[unfiltered(I, e[2].it).n == nd for e in ls]))
    if not isinstance(r, Recorder):
        raise Undecided('the devices are returned in another form')


# ---------------------------------------------------------------- pins
NLB = f_('n_pin_labels', Z, Z, Z)
LTXT, LX, LY = f_('label_text', Z, Z, Z, NAME), f_('label_x', Z, Z, Z, Z), f_('label_y', Z, Z, Z, Z)
NPS, PSN = f_('n_pin_shapes', Z, Z, Z), f_('pin_shape_net', Z, Z, Z, NAME)
INSIDE = f_('pin_shape_covers', Z, Z, Z, Z, Z, B)      # pair, shape, point
INBOX = f_('pin_shape_box_covers', Z, Z, Z, Z, Z, B)
NETAT = f_('pin_net_at', Z, Z, Z, Z, NAME, B)          # pair, point, net
HASG, KNOWNL = f_('has_real_pair', NAME, B), f_('known_pair', Z, Z, B)
CLNAME = f_('computed_name', Z, Z, NAME)


class Pins(Model):
    kind = 'Pins'

    def __init__(self, pair):
        super().__init__()
        self.pair = pair

    def iterate(self, I):
        p = self.pair
        I.assume(NPS(*p) >= 0)

        def shape(I, j):
            j = zint(j)

            def inside(I, a, k):
                x, y = a[0].x, a[0].y
                I.assume(z3.Implies(INSIDE(*p, j, x, y), NETAT(*p, x, y, PSN(*p, j))))
                return INSIDE(*p, j, x, y)

            def prop(I, a, k):
                if a[0] != 'net':
                    raise Undecided('property')
                return PSN(*p, j)
            def box(I, a, k):
                I.assume(z3.Implies(INSIDE(*p, j, a[0].x, a[0].y), INBOX(*p, j, a[0].x, a[0].y)))
                return INBOX(*p, j, a[0].x, a[0].y)
            return Record('pin shape', dict(inside=bi(inside), property=bi(prop), bbox=bi(lambda I, a, k: Record('box', dict(contains=bi(box))))), ident=j)
        return IterSpec(('pin shapes', p), NPS(*p), shape, base=self)

    def m_each(self, I): return self.iterate(I)


class Point(Model):
    kind = 'Point'

    def __init__(self, x, y):
        super().__init__()
        self.x, self.y = x, y

    def a_x(self, I): return self.x
    def a_y(self, I): return self.y


class Labels(Model):
    kind = 'Texts'

    def __init__(self, pair):
        super().__init__()
        self.pair = pair

    def binop(self, I, op, o, refl):
        if op != 'BitAnd' or not isinstance(o, Pins):
            raise Undecided('another operation on the labels')
        I.prove('labels and pins of one layer', z3.And(*[x == y for x, y in zip(o.pair, self.pair)]))
        p = self.pair
        I.assume(NLB(*p) >= 0)
        return SymSeq(('pin labels', p), NLB(*p), lambda I, j: label(p, zint(j)))


def label(p, j):
    pos = Point(LX(*p, j), LY(*p, j))
    return Record('label', dict(string=LTXT(*p, j), x=pos.x, y=pos.y, position=bi(lambda I, a, k: pos)), ident=j)


class Search(Spec):
    """the first pin shape that covers the label: it is not behind the shapes passed"""
    def __init__(self):
        super().__init__('pin shapes', lambda I, it: isinstance(base_tag(it.tag), tuple) and base_tag(it.tag)[0] == 'pin shapes')

    def pre(self, I, L):
        for o in L.written:
            if not isinstance(o, Pb):
                raise Undecided(f'the search writes {o!r}')
        L.ghost['state'] = [(o, dict(o.f)) for o in L.written]

    def havoc(self, I, L, k): mark_havoc(L, *L.written)

    def inv(self, I, L, k): return [('the covering shape is not among those passed', I.ghost['witness'] >= k)] if 'witness' in I.ghost else []

    def facts(self, I, L, k):
        w = I.ghost.get('witness')
        return [z3.Implies(w == k, I.ghost['covers'](k))] if w is not None else []

    def elem_done(self, I, L, k, ctx):
        for o, f in L.ghost['state']:
            if o.f != f:
                raise Undecided('a shape that does not cover the label changes the pin')


def pins(I):
    """requires: any extracted layers, label texts and pin shapes; a label that overlaps the pins is inside a pin shape.  ensures: per extracted layer of
    the technology and per source, each label on a pin shape becomes one pin: its text, the net of a pin shape there, its place and the source's layer"""
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    el, n = extracted_layers(I, True)
    st = {}

    def noted(I, k, val=el.val):
        m = val(I, k)
        seq = m.fields['source_layers']
        def src(I, j, get=seq.get):
            st['layer'], st['source'] = zint(k), zint(j)
            return get(I, j)
        return Record('merged', dict(m.fields, source_layers=SymSeq(seq.tag, seq.n, src)))
    el.val = noted
    I.externals[PB + 'layout.pin_pb2.Pin'] = Builtin('Pin', lambda I, a, k: Pb(tr, dict(layer={}, label_point={}), ('pin',)))
    for name, cls in (('pins_of_layer', Pins), ('labels_of_layer', Labels)):
        I.contracts[f'{MOD}:{CTX}.{name}'] = lambda I, a, k, cls=cls: cls(pair_of(I, (a[1:] or [k['gds_pair']])[0]))

    def hasg(I, k):
        k = lay(I, k)
        I.assume(z3.Implies(HASG(k), KNOWNL(GPL(k), GPD(k))))      # both tables list the layers of the technology
        return HASG(k)
    ti = tech(I, canonical_layer_name_by_gds_pair=Lookup(lambda I, p: INFO(*pair_of(I, p)), lambda I, p: CANON(*pair_of(I, p))),
              gds_pair_for_layer_name=Lookup(hasg, lambda I, k: (GPL(lay(I, k)), GPD(lay(I, k)))),
              layer_info_by_gds_pair=Lookup(lambda I, p: KNOWNL(*pair_of(I, p)), lambda I, p: Record('info', {})),
              computed_layer_info_by_gds_pair=Lookup(lambda I, p: INFO(*pair_of(I, p)), lambda I, p: Record('computed', dict(
                  layer_info=Record('info', dict(name=CLNAME(*pair_of(I, p))))))))

    def layer(I, a, k):
        if len(a) != 2:
            raise Undecided('layer lookup')
        return LAYER(zint(a[0]), zint(a[1]))
    lt = Record('layout', dict(layer=bi(layer)))
    ctx = Obj(I.repo(MOD, CTX), dict(extracted_layers=el, tech=ti, annotated_layout=lt))

    def per(I, L, k, ev):
        t = base_tag(L.it.tag)
        h = t[0] if isinstance(t, tuple) else t
        ls = [e for e in ev if e[0] == 'loop']
        if h == 'extracted':
            c = CANON(L_(k), D_(k))
            live = z3.And(HASG(c), KNOWNL(GPL(c), GPD(c)))
            if len(ls) != len(ev):
                raise Undecided('other events')
            if ls:
                I.prove('all sources of a layer of the technology', z3.And(z3.BoolVal(len(ls) == 1), live, unfiltered(I, ls[0][2].it).n == NS(k)))
            else:
                I.prove('a layer of the technology is not passed over', z3.Not(live))
        elif h == 'sources':
            if len(ls) != len(ev):
                raise Undecided('other events')
            c = CANON(L_(t[1]), D_(t[1]))
            p = (GPL(c), GPD(c))
            I.prove('the labels of the layer are visited', z3.BoolVal(len(ls) == 1))
            for e in ls:
                q = base_tag(e[2].it.tag)[1]
                I.prove('all labels on pins of the layer', z3.And(q[0] == p[0], q[1] == p[1], unfiltered(I, e[2].it).n == NLB(*p)))
        elif h == 'pin labels':
            K, j = st['layer'], st['source']
            p = t[1]
            I.prove('one pin each', z3.BoolVal([e[0] for e in ev] == ['append']))
            for e in ev:
                m = e[3]
                if not isinstance(m, Pb):
                    raise Undecided('another kind of pin')
                c = CANON(L_(K), D_(K))
                I.prove('listed under the pair of the layer', z3.And(zint(e[2][0]) == GPL(c), zint(e[2][1]) == GPD(c)))
                I.prove('its text', lay(I, at(I, m, 'label')) == LTXT(*p, k))
                I.prove('its place', z3.And(zint(at(I, m, 'label_point', 'x')) == LX(*p, k), zint(at(I, m, 'label_point', 'y')) == LY(*p, k)))
                I.prove('its net: that of a pin shape there', NETAT(*p, LX(*p, k), LY(*p, k), lay(I, at(I, m, 'net_name'))))
                I.prove('also at its place', lay(I, at(I, m, 'label_point', 'net')) == lay(I, at(I, m, 'net_name')))
                s = (SL(K, j), SD(K, j))
                I.prove('the layer of the source', z3.And(zint(at(I, m, 'layer', 'id')) == LAYER(*s), lay(I, at(I, m, 'layer', 'canonical_layer_name')) == CANON(*s),
                                                           lay(I, at(I, m, 'layer', 'lvs_layer_name')) == CLNAME(*s)))
        else:
            raise Undecided(f'loop over {t}')

    class Loop(Filling):
        def elem_begin(self, I, L, k):
            t = base_tag(L.it.tag)
            if isinstance(t, tuple) and t[0] == 'sources':
                st['layer'], st['source'] = t[1], k
            if isinstance(t, tuple) and t[0] == 'pin labels':
                p = t[1]
                w = I.ghost['witness'] = I.fresh('witness', Z)
                I.ghost['covers'] = lambda j: INSIDE(*p, j, LX(*p, k), LY(*p, k))
                I.assume(w >= 0, w < NPS(*p), INSIDE(*p, w, LX(*p, k), LY(*p, k)), NETAT(*p, LX(*p, k), LY(*p, k), PSN(*p, w)))
            super().elem_begin(I, L, k)
    I.loop_specs = [Search()]

    def spec(it):
        t = base_tag(it.tag)
        return Loop(t[0] if isinstance(t, tuple) else t, tr, per)
    I.auto_loop = spec
    r = I.getattr(ctx, 'pins_pb2_by_layer')
    ls = [e for e in tr.events if e[0] == 'loop']
    I.prove('all extracted layers', z3.And(z3.BoolVal(len(ls) == len(tr.events) == 1), *[unfiltered(I, e[2].it).n == n for e in ls]))
    if not isinstance(r, Recorder):
        raise Undecided('the pins are returned in another form')


REST = [('layer_map', layer_map), ('construction', construction), ('pin_shapes', pin_shapes), ('label_texts', label_texts),
        ('devices', devices), ('pins', pins)]
__all__ = ['REST']
