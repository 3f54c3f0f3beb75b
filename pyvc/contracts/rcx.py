"""shared model for the 2.5D capacitance visitors: layers, nets, technology tables, results"""
from .common import *

NAME = z3.DeclareSort('Name')
TI = 'klayout_pex.tech_info'
ER = 'klayout_pex.rcx25.extraction_results'
LN = z3.Function('layer_name', Z, NAME)


class Layers(SymSeq):
    """list of layer names"""
    def __init__(self, I, n):
        super().__init__('layers', n, lambda I, i: LN(zint(i)))


class Table(Model):
    """dict[a] / dict[a][b] of specification records; which keys exist and their values are unknown"""
    kind = 'Table'

    def __init__(self, name, fields, depth, keys=()):
        super().__init__()
        self.name, self.fields, self.depth, self.keys = name, fields, depth, tuple(keys)
        self.sorts = [NAME] * (len(self.keys) + 1)

    def has(self, I, k):
        ks = self.keys + (lay(I, k),)
        if self.depth == 1:
            return z3.Function('has_' + self.name, *[NAME] * len(ks), B)(*ks)
        # an inner table exists at least where an entry exists (see at())
        return z3.Function('has_' + self.name + '_outer', *[NAME] * len(ks), B)(*ks)

    def at(self, I, k):
        ks = self.keys + (lay(I, k),)
        if self.depth > 1:
            return Table(self.name, self.fields, self.depth - 1, ks)
        I.assume(*[z3.Implies(z3.Function('has_' + self.name, *[NAME] * len(ks), B)(*ks),
                              z3.Function('has_' + self.name + '_outer', NAME, B)(ks[0]))] if len(ks) == 2 else [])
        return Record(self.name, {f: z3.Function(f'{self.name}.{f}', *[NAME] * len(ks), R)(*ks) for f in self.fields},
                      ident=None)

    def m_get(self, I, k, default=None):
        if I.branch(self.has_full(I, k)):
            return self.at(I, k)
        return default

    def has_full(self, I, k):
        h = self.has(I, k)
        ks = self.keys + (lay(I, k),)
        if len(ks) == 2:      # an entry implies its outer table
            I.assume(z3.Implies(h, z3.Function('has_' + self.name + '_outer', NAME, B)(ks[0])))
        return h

    def getitem(self, I, k):
        I.guard(self.has_full(I, k), 'KeyError')
        return self.at(I, k)

    def contains(self, I, k): return self.has_full(I, k)
    def truth(self, I): return I.fresh('table_nonempty', B) if self.depth > 1 or not self.keys else \
        z3.Function('nonempty_' + self.name, NAME, B)(self.keys[0])


def lay(I, x):
    if is_sym(x) and x.sort() == NAME:
        return x
    if isinstance(x, str):
        return I.literal(x, NAME)
    raise Undecided(f'layer name {x!r}')


class Empty(DictVal):
    pass


def tech(I, **fields):
    f = dict(overlap_cap_by_layer_names=Table('overlap', ['capacitance'], 2),
             side_overlap_cap_by_layer_names=Table('sideoverlap', ['capacitance'], 2),
             sidewall_cap_by_layer_name=Table('sidewall', ['capacitance', 'offset'], 1),
             substrate_cap_by_layer_name=Table('substrate', ['area_capacitance', 'perimeter_capacitance'], 1))
    f.update(fields)
    return Obj(I.repo(TI, 'TechInfo'), f)


def has2(I, name, a, b):
    a, b = lay(I, a), lay(I, b)
    I.assume(z3.Implies(z3.Function('has_' + name, NAME, NAME, B)(a, b), z3.Function('has_' + name + '_outer', NAME, B)(a)),
             z3.Implies(z3.Function('has_' + name, NAME, NAME, B)(a, b), z3.Function('nonempty_' + name, NAME, B)(a)))
    return z3.Function('has_' + name, NAME, NAME, B)(a, b)


def val2(I, name, f, a, b): return z3.Function(f'{name}.{f}', NAME, NAME, R)(lay(I, a), lay(I, b))


class Sink(Model):
    """results / report: calls of the given methods are events, others of the report are ignored"""
    kind = 'Sink'

    def __init__(self, trace, methods, ignore=False):
        super().__init__()
        self.trace, self.methods, self.ignore = trace, methods, ignore

    def getattr(self, I, name):
        if name in self.methods:
            ev = self.methods[name]
            def emit(I, a, k):
                self.trace.emit(I, ev, *([a[0]] if a else list(k.values())[:1]))
            return Builtin(name, emit)
        if self.ignore:
            return Builtin(name, lambda I, a, k: None)
        raise Undecided(f'{name} of the results')


def key_of(cap, cls):
    k = cap.fields.get('key') if isinstance(cap, Obj) else None
    return k if isinstance(k, Obj) and k.cls.name == cls else None


class RegionLoop(Spec):
    """loop that grows at most one region; the region before iteration k is expect(L, k).
    events of the trace per iteration are checked by ``check``"""

    def __init__(self, name, match, expect, facts, trace=None, check=None, begin=None):
        super().__init__(name, match, begin=begin)
        self.expect, self.fcts, self.trace, self.check = expect, facts, trace, check

    def pre(self, I, L):
        g = L.ghost
        g['regs'] = [o for o in L.written if isinstance(o, Reg)]
        g['regloc'] = [n for n in L.carried() if isinstance(L.env.lookup(n), Reg) and n in L.assigned]
        g['alias'] = [(n, L.env.lookup(n)) for n in g['regloc'] if any(L.env.lookup(n) is o for o in g['regs'])]
        g['regloc'] = [n for n in g['regloc'] if not any(L.env.lookup(n) is o for o in g['regs'])]
        g['tr'] = [o for o in L.written if o is self.trace]
        if len(g['regs']) + len(g['regloc']) > 1:
            raise Undecided(f'{self.name}: several regions grow')
        if len(g['regs']) + len(g['tr']) != len(L.written):
            raise Undecided(f'{self.name}: writes {L.written}')

    def havoc(self, I, L, k):
        g = L.ghost
        for o in g['regs']:
            o.v = I.fresh('region', Reg.SORT)
        for n, o in g['alias']:
            set_local(L, n, o)
        for n in g['regloc']:
            set_local(L, n, Reg(I.fresh('region', Reg.SORT)))
        if g['tr']:
            g['pre_events'] = list(self.trace.events)
            self.trace.events = [('sofar', self.name)]
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        g = L.ghost
        if any(L.env.lookup(n) is not o for n, o in g['alias']):
            raise Undecided(f'{self.name}: both changed and replaced')
        vs = [o.v for o in g['regs']] + [L.env.lookup(n).v for n in g['regloc'] if isinstance(L.env.lookup(n), Reg)]
        return [('the shield is what has been passed so far', v == self.expect(L, k)) for v in vs]

    def facts(self, I, L, k): return self.fcts(L, k)

    def elem_done(self, I, L, k, ctx):
        if self.check:
            ev = []
            if L.ghost['tr']:
                ev = self.trace.events
                if ev[0] != ('sofar', self.name):
                    raise Undecided('trace was replaced')
                ev = ev[1:]
            self.check(I, L, k, ev)

    def after(self, I, L):
        if L.ghost['tr']:
            self.trace.events = L.ghost['pre_events'] + [('loop', self.name, L)]


REG = z3.Function('layer_region', Z, Reg.SORT)


class LayerRegion(Reg):
    """region of layer i; complex_op is an event"""
    def __init__(self, i, trace):
        super().__init__(REG(zint(i)))
        self.i, self.trace = zint(i), trace

    def m_complex_op(self, I, node): self.trace.emit(I, 'op', self, node)


def set_up(I, mod, cls, kind, more=(), check=None):
    """requires: n layers in stack order with their regions.  runs <cls>.extract with the operation nodes recorded"""
    n = I.fresh('nlayers', Z)
    I.assume(n >= 1)
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]
    for k in ('secondary', 'foreign', 'primary', kind):
        I.externals[f'klayout.db.CompoundRegionOperationNode.new_{k}'] = \
            Builtin(k, lambda I, a, kw, k=k: Record('node:' + k, dict(args=a, kw=kw)))
    regs = {}

    def reg(I, i):
        key = str(z3.simplify(zint(i)))
        if key not in regs:
            regs[key] = LayerRegion(i, tr)
        return regs[key]
    dbu = I.fresh('dbu', R)
    I.assume(dbu > 0)
    names = Layers(I, n)
    d = SymDict('layers', n, lambda I, i: LN(zint(i)), lambda I, i: LayerRegion(i, tr), unique=True)
    ti = tech(I, tech=Record('technology', dict(process_parasitics=Record('pp', dict(side_halo=I.fresh('halo', R))))))
    res, rep = Record('results', {}), Record('report', {})
    f = dict(all_layer_names=names, layer_regions_by_name=d, dbu=dbu, tech_info=ti, results=res, report=rep, **dict(more))
    I.ghost['dbu'], I.ghost['nlayers'] = dbu, n
    def spec(it):
        return AutoTrace('layers', tr, lambda I, L, k, ev: one(I, L, k, ev))

    def one(I, L, k, ev):
        if len(ev) != 1 or ev[0][0] != 'op':
            I.prove('one operation per layer', z3.BoolVal(False))
            return
        _, r, node = ev[0]
        if not isinstance(node, Record) or node.name != 'node:' + kind:
            raise Undecided('the operation is something else')
        a, kw = list(node.fields['args']), dict(node.fields['kw'])
        kids = a.pop(0) if a else kw.pop('children')
        vis = a.pop(0) if a else kw.pop('visitor')
        I.prove('the operation runs on the layer itself', r.i == k)
        v = vis.fields if isinstance(vis, Obj) else {}
        I.prove('its visitor knows the layer', z3.And(zint(v.get('inside_layer_index', -1)) == k, zreal(v.get('dbu', -1)) == dbu))
        I.prove('and the tables, results and layer names', z3.BoolVal(v.get('tech_info') is ti and v.get('results') is res and
                v.get('report') is rep and (v.get('layer_names') or v.get('all_layer_names')) is names))
        check(I, k, kids, v, kw, n, dbu, ti)
    I.auto_loop = spec
    cls_ = I.repo(mod, cls)
    obj = I.instantiate(cls_, [], f)
    m = I.repo(mod, cls + '.extract')
    I.call(BoundMethod(m[1] if isinstance(m, tuple) else m, obj), [])
    loops = [e[2] for e in tr.events if e[0] == 'loop']
    I.prove('one pass over all layers', z3.And(z3.BoolVal(len(loops) == len(tr.events) == 1), *[zint(L.it.n) == n for L in loops]))


def count_of(I, kids): return zint(len(kids.items) if isinstance(kids, ListVal) else kids.length(I))


def is_layer_node(I, kid, i):
    """the child is the whole layer i"""
    a = kid.fields['args'] if isinstance(kid, Record) and kid.name == 'node:secondary' else None
    if not a or not isinstance(a[0], LayerRegion):
        return z3.BoolVal(False)
    return a[0].i == i


class Entries(Model):
    """the list of capacitances kept under one key: any number of entries before, and what is added to it"""
    kind = 'Entries'

    def __init__(self):
        super().__init__()
        self.added = []

    def add(self, I, xs):
        I.note_write(self)
        self.added += xs

    def m_append(self, I, x): self.add(I, [x])
    def m_extend(self, I, xs): self.add(I, list(I.iterate(xs)))
    def contains(self, I, x): return I.fresh('in_entries', B)
    def length(self, I):
        if not hasattr(self, 'n'):
            self.n = I.fresh('n_entries', Z)
            I.assume(self.n >= 0)
        return self.n + len(self.added)

    def inplace(self, I, op, o):
        if op not in ('+', 'Add'):
            raise Undecided(f'{op} with a list')
        self.m_extend(I, o)
        return self


class ResTab(Model):
    """table key -> list of capacitances, seen at one key: what else it holds is never touched by accesses at that key"""
    kind = 'ResTab'

    def __init__(self, factory):
        super().__init__()
        self.factory, self.key, self.present, self.list, self.fresh = factory, None, None, None, False

    def at(self, I, k):
        if not isinstance(k, Obj):
            raise Undecided(f'key {k!r} of the table')
        if self.key is None:
            self.key, self.present = k, I.fresh('key_present', B)
        elif self.key is not k:
            raise Undecided('two keys of a table')
        return z3.BoolVal(True) if self.fresh else self.present

    def contains(self, I, k): return self.at(I, k)

    def store(self, I, v):
        I.note_write(self)
        self.list, self.fresh = v, True
        return v

    def getitem(self, I, k):
        if not I.branch(self.at(I, k)):
            if not (isinstance(self.factory, Builtin) and self.factory.name == 'list'):
                I.guard(z3.BoolVal(False), 'KeyError')
            return self.store(I, ListVal([]))
        if self.list is None:
            self.list = Entries()
        return self.list

    def m_get(self, I, k, default=None): return self.getitem(I, k) if I.branch(self.at(I, k)) else default

    def m_setdefault(self, I, k, v=None):
        return self.getitem(I, k) if I.branch(self.at(I, k)) else self.store(I, v)

    def setitem(self, I, k, v):
        """an existing list stays"""
        if not self.fresh and I.branch(self.at(I, k)):
            I.obligation('earlier entries stay', z3.BoolVal(self.list is not None and v is self.list))
            return
        if self.fresh:
            I.obligation('earlier entries stay', z3.BoolVal(v is self.list))
        self.store(I, v)


def visitor(I, cls, fields):
    """a visitor as the extractor makes it (its constructor, with these arguments)"""
    init = cls.mro_attr('__init__')
    ps = [a.arg for a in init[1].node.args.args[1:] + init[1].node.args.kwonlyargs] if init is not None else []
    if not set(fields) <= set(ps):
        return Obj(cls, dict(fields))
    n, i = I.fresh('n_layers', Z), I.fresh('layer_index', Z)
    I.assume(i >= 0, i < n)
    any_ = dict(inside_layer_index=i, scale_ratio_to_fit_halo=I.fresh('scale', B))
    return I.instantiate(cls, [], {p: fields[p] if p in fields else any_[p] if p in any_ else Layers(I, n) if p.endswith('layer_names') else Record(p, {}) for p in ps})


class Docs(Model):
    """report: calls of one method are events with its arguments by name, others are ignored"""
    kind = 'Docs'

    def __init__(self, tr, method):
        super().__init__()
        self.tr, self.method = tr, method

    def getattr(self, I, name):
        if name != self.method:
            return Builtin(name, lambda I, a, k: None)
        m = I.repo('klayout_pex.rcx25.extraction_reporter', f'ExtractionReporter.{name}')
        return Builtin(name, lambda I, a, k: self.tr.emit(I, 'doc', dict(I.bind(m[1] if isinstance(m, tuple) else m, [self] + list(a), k).vars)))


class Placing(Model):
    """the transformation back to the place of an edge in the layout"""
    kind = 'Transformation'
    def binop(self, I, op, other, refl):
        if op != 'Mult' or refl:
            raise Undecided(f'{op} of a transformation')
        return Record('placed', dict(of=other, by=self))


def restorer(I, t):
    def pt(I, a, k):
        if len(a) != 2:
            raise Undecided('point')
        return Record('pt', dict(x=a[0], y=a[1]))

    def ed(I, a, k):
        if len(a) == 4:
            return Record('edge', dict(x1=a[0], y1=a[1], x2=a[2], y2=a[3]))
        if len(a) != 2 or not all(isinstance(x, Record) and x.name == 'pt' for x in a):
            raise Undecided('edge')
        return Record('edge', dict(x1=a[0].fields['x'], y1=a[0].fields['y'], x2=a[1].fields['x'], y2=a[1].fields['y']))
    I.externals['klayout.db.Point'], I.externals['klayout.db.Edge'] = Builtin('Point', pt), Builtin('Edge', ed)
    return I.instantiate(I.repo('klayout_pex.rcx25.c.geometry_restorer', 'GeometryRestorer'), [t], {})


def in_place(I, what, v, t, of=None):
    """v is <of>, moved to its place in the layout; gives what was moved"""
    if not (isinstance(v, Record) and v.name == 'placed'):
        I.prove(f'{what}: at its place in the layout', z3.BoolVal(False))
        return None
    I.prove(f'{what}: at its place in the layout', z3.BoolVal(v.fields['by'] is t))
    if of is not None:
        I.prove(what, z3.BoolVal(v.fields['of'] is of))
    return v.fields['of']


def interval_edge(I, what, v, t, x1, x2):
    e = in_place(I, what, v, t)
    if e is None:
        return
    if not (isinstance(e, Record) and e.name == 'edge' and 'x1' in e.fields):
        raise Undecided(f'{what}: {e!r}')
    f = e.fields
    I.prove(f'{what}: the interval on the edge', z3.And(zreal(f['x1']) == x1, zreal(f['x2']) == x2, zreal(f['y1']) == 0, zreal(f['y2']) == 0))


def documented(I, ev, cap):
    """ev: the events of one shape.  every capacitance recorded is documented once, and no other; gives what was documented"""
    caps, docs = [e[1] for e in ev if e[0] == 'cap'], [e[1] for e in ev if e[0] == 'doc']
    I.prove('every capacitance recorded is documented once, and no other', z3.BoolVal(len(caps) == len(docs) and all(any(d[cap] is c for d in docs) for c in caps)))
    return docs


def recorded(method, table, keycls):
    def harness(I):
        """requires: any results and any capacitance.  ensures: recording it adds it, once, to the entries of its key; all earlier entries and every other table stay"""
        made = []
        def dd(I, f):
            made.append(ResTab(f))
            return made[-1]
        I.ghost['defaultdict'] = dd
        I.externals['klayout_pex_protobuf.kpex.result.pex_result_pb2.RExtractionResult'] = Builtin('RExtractionResult', lambda I, a, k: Record('r_result', {}))
        cls = I.repo(ER, 'CellExtractionResults')
        fresh = I.instantiate(cls, [I.fresh('cell', NAME)], {})
        for t in ('overlap_table', 'sidewall_table', 'sideoverlap_table'):
            if not isinstance(fresh.fields[t], ResTab):
                raise Undecided(f'{t}: {fresh.fields[t]!r}')
        I.obligation('three tables', z3.BoolVal(len({id(fresh.fields[t]) for t in ('overlap_table', 'sidewall_table', 'sideoverlap_table')}) == 3))
        key = Obj(I.repo(ER, keycls), {n: I.fresh(n, NAME) for n, *_ in I.repo(ER, keycls).fields})
        cap = Record('cap', dict(key=key, cap_value=I.fresh('value', R)))
        I.call(I.getattr(fresh, method), [cap])
        t = fresh.fields[table]
        I.obligation('recorded under its key', z3.BoolVal(t.key is key and t.list is not None))
        if t.key is key and t.list is not None:
            if isinstance(t.list, Entries):
                xs = t.list.added
            elif isinstance(t.list, ListVal):
                xs = t.list.items
            else:
                raise Undecided(f'entries {t.list!r}')
            I.obligation('recorded once', z3.BoolVal(len(xs) == 1 and xs[0] is cap))
            I.obligation('earlier entries stay', z3.BoolVal(isinstance(t.list, Entries)) if t.fresh is False else z3.BoolVal(True))
        for o in made:
            if o is not t:
                I.obligation('the other tables stay', z3.BoolVal(o.key is None))
    harness.__doc__ = """requires: any results and any capacitance.  ensures: recording it adds it, once, to the entries of its key; earlier entries and the other tables stay"""
    return harness


__all__ = [n for n in globals() if not n.startswith('__')]
