from .rcx import *

ASSUMPTIONS = ['the technology lists at most one entry per layer, layer pair, contact or via (checked for the shipped technologies by C20)',
               'protobuf messages are records of their fields', 'floats treated as exact']
PB = 'klayout_pex_protobuf.kpex.tech.process_parasitics_pb2.'


class Entries(SymSeq):
    """a repeated message: field f of entry i is <name>.<f>(i); no two entries agree in all fields of ``keys``.
    Uniqueness by ghost functions, instantiated where an entry is read: AT(x..) is the entry with the keys x.. (if HAS(x..))"""
    def __init__(self, I, name, keys, fields):
        self.name, self.keys, self.fields = name, keys, fields
        n = I.fresh('n_' + name, Z)
        I.assume(n >= 0)
        super().__init__(name, n, lambda I, i: self.entry(I, zint(i)))

    def f(self, f, i): return z3.Function(f'{self.name}.{f}', Z, self.fields[f])(i)

    def entry(self, I, i):
        I.assume(*self.unique(i))
        return Record(self.name, {f: self.f(f, i) for f in self.fields}, ident=i)

    def has(self, *x): return z3.Function(f'HAS_{self.name}', *[NAME] * len(x), B)(*x)
    def at(self, *x): return z3.Function(f'AT_{self.name}', *[NAME] * len(x), Z)(*x)
    def first(self, x): return z3.Function(f'HASFIRST_{self.name}', NAME, B)(x), z3.Function(f'LASTFIRST_{self.name}', NAME, Z)(x)

    def unique(self, i):
        x = [self.f(k, i) for k in self.keys]
        r = [z3.And(self.has(*x), self.at(*x) == i)]
        h, w = self.first(x[0])
        return [z3.Implies(z3.And(i >= 0, i < self.n), z3.And(*r, h, w >= i))]

    def lookup(self, I, *x):
        """(is there an entry with these keys, which)"""
        h, w = self.has(*x), self.at(*x)
        I.assume(z3.Implies(h, z3.And(w >= 0, w < self.n, *[self.f(k, w) == v for k, v in zip(self.keys, x)])), *self.unique(w))
        return h, w

    def last(self, I, x):
        """the last entry with first key x"""
        h, w = self.first(x)
        I.assume(z3.Implies(h, z3.And(w >= 0, w < self.n, self.f(self.keys[0], w) == x)), *self.unique(w))
        return h, w

    def find_where(self, I, key, cond, x):
        """the entry of a comprehension over these with the given key function and filter"""
        j = I.fresh('j', Z)
        I.solver.push()
        npc = len(I.pc)
        try:
            kv, c = I.pure_val(lambda: key(I, j)), z3.simplify(cond(I, j))
        finally:
            del I.pc[npc:]
            I.solver.pop()
        x = lay(I, x)
        which = [k for k in self.keys if is_sym(kv) and kv.eq(self.f(k, j))]
        if not which:
            return None
        k = which[0]
        if z3.is_true(c):
            return self.lookup(I, x) if len(self.keys) == 1 else self.last(I, x) if k == self.keys[0] else None
        if len(self.keys) == 2 and z3.is_eq(c):
            o = [q for q in self.keys if q != k][0]
            side = [(l, r) for l, r in (c.children(), c.children()[::-1]) if l.eq(self.f(o, j))]
            if side and not mentions(side[0][1], j):
                t = side[0][1]
                return self.lookup(I, *[x if q == k else t for q in self.keys])
        return None


def mentions(e, j): return e.eq(j) or any(mentions(c, j) for c in e.children())




def same_name(I, a, b):
    return lay(I, a) == lay(I, b)


class Ghost2(Model):
    """d[x][y] seen through one pair (a, b): is there an entry, and which"""
    kind = 'Table2'

    def __init__(self): raise NotImplementedError

    @staticmethod
    def become(o, I, a, b):
        """o is a SymDict of dictionaries"""
        has = bool_expr(I, o.contains(I, a))
        val = None
        hb = z3.BoolVal(False)
        if I.branch(has):
            row = o.getitem(I, a)
            has = z3.BoolVal(True)
            hb = z3.BoolVal(bool(I.branch(bool_expr(I, row_has(I, row, b)))))
            if z3.is_true(hb):
                val = named(I, I.getitem(row, b), a, b)
        else:
            has = z3.BoolVal(False)
        o.__class__ = Ghost2
        o.__dict__ = {k: v for k, v in o.__dict__.items() if k in ('oid', 'wtime', 'readonly')}
        o.a, o.b, o.ha, o.hb, o.v = a, b, has, hb, (z3.RealVal(0) if val is None else val)
        o.seen = []           # other rows asked for: (key, present)
        return o

    def contains(self, I, k):
        k = lay(I, k)
        for x, h in self.seen:
            if x.eq(k):
                return z3.Or(h, z3.And(k == self.a, self.ha))
        h = I.fresh('present', B)
        I.assume(z3.Implies(k == self.a, h == self.ha))
        self.seen = self.seen + [(k, h)]
        return h

    def getitem(self, I, k):
        k = lay(I, k)
        I.guard(self.contains(I, k), 'KeyError')
        return Row2(self, k)

    def m_setdefault(self, I, k, row):
        k = lay(I, k)
        if not I.branch(self.contains(I, k)):
            self.setitem(I, k, row)
        return Row2(self, k)

    def setitem(self, I, k, row):
        k = lay(I, k)
        if isinstance(row, Row2):
            raise Undecided('rows are shared')
        I.note_write(self)
        self.seen = [(x, z3.Or(h, x == k)) for x, h in self.seen]
        if I.branch(k == self.a):
            self.ha = z3.BoolVal(True)
            h = bool_expr(I, row_has(I, row, self.b))
            if I.branch(h):
                self.hb, self.v = z3.BoolVal(True), named(I, I.getitem(row, self.b), self.a, self.b)
            else:
                self.hb = z3.BoolVal(False)

    def snapshot(self): return (self.ha, self.hb, self.v)


class Row2(Model):
    kind = 'Row2'

    def __init__(self, t, k):
        super().__init__()
        self.t, self.k = t, k

    def setitem(self, I, y, v):
        t = self.t
        I.note_write(t)
        here = z3.And(self.k == t.a, lay(I, y) == t.b)
        t.v = z3.If(here, named(I, v, t.a, t.b, here), t.v)
        t.hb = z3.Or(t.hb, here)

    def contains(self, I, y):
        h = I.fresh('present', B)
        I.assume(z3.Implies(z3.And(self.k == self.t.a, lay(I, y) == self.t.b), h == self.t.hb))
        return h

    def getitem(self, I, y):
        I.guard(self.contains(I, y), 'KeyError')
        v = I.fresh('entry', R)
        I.assume(z3.Implies(z3.And(self.k == self.t.a, lay(I, y) == self.t.b), v == self.t.v))
        return Record('entry', dict(capacitance=v))

    def m_update(self, I, d): raise Undecided('update of a row')


def bool_expr(I, x): return x if is_sym(x) else z3.BoolVal(bool(x))
def row_has(I, row, b): return I.contains(row, b) if hasattr(I, 'contains') else I.compare('In', b, row)


def cap_of(I, rec):
    return zreal(I.getattr(rec, 'capacitance'))


def named(I, rec, a, b, when=True):
    """the capacitance of an entry put in the table for the pair (a, b): the entry itself names the pair"""
    fa, fb = I.ghost['names']
    if isinstance(rec, OutMsg):
        I.prove('the entry made for a substrate capacitance names its layers',
                z3.Implies(when, z3.And(lay(I, I.getattr(rec, fa)) == a, lay(I, I.getattr(rec, fb)) == b)))
    return cap_of(I, rec)


class Merge(Spec):
    """for the listed entries of one layer (inner) / of all layers (outer): the pair (a, b) has an entry iff it had one before
    or the entries so far have it, and the later one wins"""
    def __init__(self, name, outer):
        super().__init__(name, lambda I, it: (isinstance(it.base, DistinctKeys) and not I.ghost['merging']) == outer)
        self.outer = outer

    def pre(self, I, L):
        a, b = I.ghost['pair']
        g = L.ghost
        # inner dictionaries are iterated inside the outer loop
        c = [o for o in L.written if isinstance(o, (SymDict, Ghost2))]
        g['t'] = None
        for o in c:
            if isinstance(o, SymDict):
                Ghost2.become(o, I, a, b)
            g['t'] = o
        if len(c) > 1 or len(c) != len(L.written):
            raise Undecided(f'merge writes {L.written}')
        t = g['t']
        g['init'] = (t.ha, t.hb, t.v) if t else None
        base = L.it.base
        if not isinstance(base, DistinctKeys):
            raise Undecided('merge over something else')
        g['pos'] = base.position(I, a if self.outer else b)
        if self.outer:
            i = base.entry(I, g['pos'][1])
            row = base.d.val(I, i)
            g['row'] = None
            if I.branch(g['pos'][0]):
                h = bool_expr(I, row_has(I, row, b))
                if I.branch(h):
                    g['row'] = cap_of(I, I.getitem(row, b))
        else:
            g['cap'] = cap_of(I, base.d.val(I, base.entry(I, g['pos'][1]))) if I.branch(g['pos'][0]) else None
            g['layer'] = I.ghost['merging'][-1]
        I.ghost['merging'].append(None)

    def havoc(self, I, L, k):
        t = L.ghost['t']
        if t is not None:
            t.seen = []
            t.ha, t.hb, t.v = I.fresh('ha', B), I.fresh('hb', B), I.fresh('v', R)
            mark_havoc(L, t)

    def elem_begin(self, I, L, k):
        if self.outer:
            I.ghost['merging'][-1] = L.it.base.d.key(I, L.it.base.entry(I, k))

    def after(self, I, L):
        I.ghost['merging'].pop()

    def inv(self, I, L, k):
        g = L.ghost
        t = g['t']
        if t is None:
            return []
        a, b = I.ghost['pair']
        ha, hb, v = g['init']
        f, p = g['pos']
        if self.outer:
            seen, new = z3.And(f, p < k), g['row']
            rows = seen if new is not None else z3.BoolVal(False)
            return [('an entry is there iff it was before or is listed so far', t.hb == z3.Or(hb, rows)),
                    ('the listed one wins', z3.Implies(t.hb, t.v == (z3.If(rows, new, v) if new is not None else v))),
                    ('entries are in existing rows', z3.Implies(t.hb, t.ha))]
        seen = z3.And(f, p < k, lay(I, g['layer']) == a)
        new = g['cap']
        return [('row: an entry is there iff it was before or is listed so far', t.hb == z3.Or(hb, seen)),
                ('row: the listed one wins', z3.Implies(t.hb, t.v == (z3.If(seen, new, v) if new is not None else v))),
                ('row: entries are in existing rows', z3.Implies(t.hb, t.ha))]

    def facts(self, I, L, k):
        a, b = I.ghost['pair']
        f, p = L.ghost['pos']
        base = L.it.base
        return [base.only(I, k, a if self.outer else b, f, p), base.only(I, p, a if self.outer else b, f, p)]


def pairtable(prop, listed, fa, fb, subfield, msg):
    def harness(I):
        a, b = I.fresh('a', NAME), I.fresh('b', NAME)
        vs = I.literal('VSUBS', NAME)
        I.ghost['pair'] = (a, b)
        I.ghost['merging'] = []
        I.ghost['names'] = (fa, fb)
        subs = Entries(I, 'substrate', ['layer_name'], dict(layer_name=NAME, area_capacitance=R, perimeter_capacitance=R))
        lst = Entries(I, listed, [fa, fb], {fa: NAME, fb: NAME, 'capacitance': R})
        I.externals[PB + 'CapacitanceInfo.' + msg] = Builtin(msg, lambda I, args, k: OutMsg(msg))
        cap = Record('capacitance', dict(substrates=subs))
        cap.fields[listed] = lst
        ti = Obj(I.repo(TI, 'TechInfo'), dict(tech=Record('technology', dict(process_parasitics=Record('pp', dict(capacitance=cap))))))
        I.loop_specs = [Merge('rows', True), Merge('entries', False)]
        t = I.getattr(ti, prop)
        isl, w = lst.lookup(I, a, b)
        isu, u = subs.lookup(I, a)
        isu = z3.And(isu, b == vs)
        if isinstance(t, SymDict):
            Ghost2.become(t, I, a, b)
        if not isinstance(t, Ghost2):
            raise Undecided('the table is something else')
        I.prove('an entry for exactly the listed pairs and the layers with substrate capacitance over VSUBS', t.hb == z3.Or(isl, isu))
        I.prove('with the capacitance of the technology, a listed one before the substrate\'s', z3.Implies(t.hb, t.v == z3.If(
            isl, lst.f('capacitance', w), subs.f(subfield, u))))
    harness.__doc__ = f'requires: unique entries.  ensures: {prop}[a][b] is the listed capacitance of the pair, else for b = VSUBS the substrate capacitance'
    return harness


HARNESSES = [('overlap', pairtable('overlap_cap_by_layer_names', 'overlaps', 'top_layer_name', 'bottom_layer_name', 'area_capacitance', 'OverlapCapacitance')),
             ('side_overlap', pairtable('side_overlap_cap_by_layer_names', 'sideoverlaps', 'in_layer_name', 'out_layer_name', 'perimeter_capacitance', 'SideOverlapCapacitance'))]


def single(prop, path, key, fields, show):
    def harness(I):
        a = I.fresh('a', NAME)
        lst = Entries(I, path[-1], [key], {key: NAME, **fields})
        r = Record(path[-2], {path[-1]: lst})
        for p in reversed(path[:-2]):
            r = Record(p, {path[path.index(p) + 1]: r})
        ti = Obj(I.repo(TI, 'TechInfo'), dict(tech=Record('technology', {path[0]: r})))
        t = I.getattr(ti, prop)
        h, w = lst.lookup(I, a)
        if not isinstance(t, SymDict):
            raise Undecided('the table is something else')
        has = bool_expr(I, t.contains(I, a))
        I.prove('an entry for exactly the listed names', has == h)
        if I.branch(has):
            e = t.getitem(I, a)
            for f in show:
                I.prove('the entry is the one of the technology', I.getattr(e, f) == lst.f(f, w))
    harness.__doc__ = f'requires: unique entries.  ensures: {prop}[a] is the entry of layer (contact, via) a'
    return harness


def near(got, want):
    """equal as real numbers"""
    return zreal(got) == want


def units(I):
    """requires: any resistance (mOhm), width.  ensures: Ohm, and Ohm per square of one cut: R/1000 * width^2"""
    m, w = I.fresh('milliohm', R), I.fresh('width', R)
    cls = I.repo(TI, 'TechInfo')
    contact = Record('contact', dict(width=w, spacing=I.fresh('spacing', R), border=I.fresh('border', R)))
    rec = Record('resistance', dict(resistance=m))
    I.prove('milliohm to ohm', near(I.call(I.getattr(cls, 'milliohm_to_ohm'), [m], {}), m / 1000))
    I.prove('contact: ohm of a cut times its area', near(I.call(I.getattr(cls, 'milliohm_by_cnt_to_ohm_by_square_for_contact'), [contact, rec], {}), m / 1000 * w * w))
    I.prove('via: ohm of a cut times its area', near(I.call(I.getattr(cls, 'milliohm_by_cnt_to_ohm_by_square_for_via'), [contact, rec], {}), m / 1000 * w * w))


PP = 'process_parasitics'
HARNESSES += [('substrate', single('substrate_cap_by_layer_name', [PP, 'capacitance', 'substrates'], 'layer_name',
                                   dict(area_capacitance=R, perimeter_capacitance=R), ['layer_name', 'area_capacitance', 'perimeter_capacitance'])),
              ('sidewall', single('sidewall_cap_by_layer_name', [PP, 'capacitance', 'sidewalls'], 'layer_name',
                                  dict(capacitance=R, offset=R), ['layer_name', 'capacitance', 'offset'])),
              ('layer_resistance', single('layer_resistance_by_layer_name', [PP, 'resistance', 'layers'], 'layer_name',
                                          dict(resistance=R), ['layer_name', 'resistance'])),
              ('contact_resistance', single('contact_resistance_by_device_layer_name', [PP, 'resistance', 'contacts'], 'device_layer_name',
                                            dict(contact_name=NAME, resistance=R), ['device_layer_name', 'resistance'])),
              ('via_resistance', single('via_resistance_by_layer_name', [PP, 'resistance', 'vias'], 'via_name',
                                        dict(resistance=R), ['via_name', 'resistance'])),
              ('units', units)]
