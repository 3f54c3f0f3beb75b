"""resistor networks: the four dicts of a ResistorNetwork as functional maps, the star lists as maps from neighbour to resistor
together with an unknown order"""
from .common import *
from ..engine import BoundMethod, PathEnd, PyRaise, py_index

MOD, CMOD = 'klayout_pex.rcx25.r.resistor_network', 'klayout_pex.rcx25.r.conductance'
PT = z3.DeclareSort('Point')
Pair = z3.Datatype('Pair')
Pair.declare('mk', ('a', Z), ('b', Z))
Pair = Pair.create()
ZZ = z3.ArraySort(Z, Z)
Row = z3.Datatype('Star')                      # a star list: neighbour -> resistor (0: none); stamp: identity of this order of entries
Row.declare('mk', ('nb', ZZ), ('stamp', Z))
Row = Row.create()
SORTS = dict(S=z3.ArraySort(Pair, Z), C=z3.ArraySort(Z, R), H=z3.ArraySort(Z, B), E=z3.ArraySort(Z, Row), PL=z3.ArraySort(Z, B), LV=z3.ArraySort(Z, PT),
             NP=z3.ArraySort(PT, B), NV=z3.ArraySort(PT, Z), O1=ZZ, O2=ZZ, nid=Z, nref=Z)
NBR, LEN, POS = z3.Function('star.neighbour', Row, Z, Z), z3.Function('star.len', Row, Z), z3.Function('star.position', Row, Z, Z)


def pr(a, b): return Pair.mk(zint(a), zint(b))


class St:
    """one state of the network"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def set(self, **kw): return St(**{**self.__dict__, **kw})
    def s(self, a, b): return self.S[pr(a, b)]
    def g(self, a, b): return z3.If(self.s(a, b) != 0, self.C[self.s(a, b)], z3.RealVal(0))
    def row(self, a): return self.E[a]
    def entry(self, a, b): return Row.nb(self.E[a])[b]


def fresh_state(I, name): return St(**{k: I.fresh(f'{name}.{k}', s) for k, s in SORTS.items()})


def consistent(st, a, b):
    """the invariant, for one pair of node ids"""
    ab, own = st.s(a, b), st
    return z3.And(ab == st.s(b, a), st.nref > 0,
                  z3.Implies(ab != 0, z3.And(a != b, st.H[a], st.H[b], ab > 0, ab < st.nref,
                                             z3.Or(z3.And(own.O1[ab] == a, own.O2[ab] == b), z3.And(own.O1[ab] == b, own.O2[ab] == a)))),
                  z3.Implies(st.H[a], z3.And(st.entry(a, b) == ab, st.PL[a])), z3.Implies(st.H[b], z3.And(st.entry(b, a) == ab, st.PL[b])),
                  placed(st, a), placed(st, b))


def placed(st, a): return z3.Implies(st.PL[a], z3.And(st.NP[st.LV[a]], st.NV[st.LV[a]] == a, a >= 0, a < st.nid))
def at(st, p): return z3.Implies(st.NP[p], z3.And(st.PL[st.NV[p]], st.LV[st.NV[p]] == p))


def order(row, b):
    """a star list is a finite list with one entry per neighbour"""
    q = POS(row, b)
    return z3.And(LEN(row) >= 0, z3.Implies(Row.nb(row)[b] != 0, z3.And(q >= 0, q < LEN(row), NBR(row, q) == b)))


def index(row, i): return z3.Implies(z3.And(i >= 0, i < LEN(row)), z3.And(Row.nb(row)[NBR(row, i)] != 0, POS(row, NBR(row, i)) == i))


class Net(Model):
    """the state of one network; ``base`` is the state at the last cut, with what is known of it for every pair of nodes"""
    kind = 'Net'

    def __init__(self, I, name='net', known=None, pknown=None):
        super().__init__()
        self.name, self.bases, self.made, self.keys = name, [], 0, []
        self.st = fresh_state(I, name)
        self.base(I, self.st, known or consistent, pknown or at)

    def base(self, I, st, known, pknown=at):
        self.bases.append((st, known, pknown))
        seen, self.keys = self.keys, []
        for k in seen:
            self.fact(I, k, last=True)
            self.keys.append(k)

    def fact(self, I, k, last=False):
        for st, known, pknown in (self.bases[-1:] if last else self.bases):
            if k[0] == 'pair':
                I.assume(known(st, k[1], k[2]))
            elif pknown is not None:
                I.assume(pknown(st, k[1]))

    def access(self, I, a, b):
        a, b = zint(a), zint(b)
        if not any(k[0] == 'pair' and ((k[1].eq(a) and k[2].eq(b)) or (k[1].eq(b) and k[2].eq(a))) for k in self.keys):
            k = ('pair', a, b)
            if not I.pure_depth:
                self.keys.append(k)
            self.fact(I, k)

    def point(self, I, p):
        if not any(k[0] == 'point' and k[1].eq(p) for k in self.keys):
            k = ('point', p)
            if not I.pure_depth:
                self.keys.append(k)
            self.fact(I, k)

    def set(self, I, **kw):
        I.note_write(self)
        self.st = self.st.set(**kw)

    def stamp(self, I): return I.fresh('stamp', Z)
    def havoc(self, I, name, known, pknown=at, keep=()):
        """an arbitrary state, of which ``known`` holds for every pair"""
        old = self.st
        self.st = fresh_state(I, name).set(**{k: getattr(old, k) for k in keep})
        self.base(I, self.st, known, pknown)

    def snapshot(self): return self.st

    def network(self, I):
        """the ResistorNetwork object"""
        cls = I.repo(MOD, 'ResistorNetwork')
        return Obj(cls, dict(nodes=Nodes(self), locations=Locations(self), s=Resistors(self), node_to_s=Stars(self), next_id=self.st.nid,
                             precious=Precious(self), node_names=Names()))


def cond_of(I, net, c):
    if isinstance(c, CondRef) and c.net is net:
        return c.ref
    raise Undecided(f'a resistor that is no Conductance: {c!r}')


class CondRef(Model):
    """a Conductance object"""
    kind = 'Conductance'

    def __init__(self, net, ref):
        super().__init__()
        self.net, self.ref = net, ref

    def getattr(self, I, name):
        if name == 'cond':
            return self.net.st.C[self.ref]
        m = I.repo(CMOD, 'Conductance').mro_attr(name)
        if m is None:
            raise Undecided(f'Conductance.{name}')
        return BoundMethod(m[1], self)

    def setattr(self, I, name, v):
        if name != 'cond':
            raise Undecided(f'Conductance.{name}')
        self.net.set(I, C=z3.Store(self.net.st.C, self.ref, zreal(v)))

    def eq(self, I, o):
        if I.repo(CMOD, 'Conductance').mro_attr('__eq__') is not None:
            raise Undecided('Conductance.__eq__')
        return self.ref == o.ref if isinstance(o, CondRef) else False


def new_cond(I, net, v):
    r = net.st.nref
    net.set(I, nref=r + 1, C=z3.Store(net.st.C, r, zreal(v)))
    return CondRef(net, r)


def install(I, net):
    """constructing a Conductance makes a new object with the value its constructor stores"""
    def make(I, a, k):
        cls = I.repo(CMOD, 'Conductance')
        o = I.instantiate(cls, a, k)
        if set(o.fields) != {'cond'}:
            raise Undecided('fields of a Conductance')
        return new_cond(I, net, o.fields['cond'])
    I.contracts[f'{CMOD}:Conductance'] = make
    I.roots = [net]


class Dict(Model):
    """a dict of the network"""
    def __init__(self, net):
        super().__init__()
        self.net = net

    def contains(self, I, k): return self.has(I, self.key(I, k))

    def getitem(self, I, k):
        k = self.key(I, k)
        I.guard(self.has(I, k), 'KeyError')
        return self.val(I, k)

    def m_get(self, I, k, d=None):
        k = self.key(I, k)
        return self.val(I, k) if I.branch(self.has(I, k)) else d

    def setitem(self, I, k, v): self.put(I, self.key(I, k), v)

    def delitem(self, I, k):
        k = self.key(I, k)
        I.guard(self.has(I, k), 'KeyError')
        self.drop(I, k)

    def m_pop(self, I, k, *d):
        k = self.key(I, k)
        if d and not I.branch(self.has(I, k)):
            return d[0]
        I.guard(self.has(I, k), 'KeyError')
        v = self.val(I, k)
        self.drop(I, k)
        return v

    def key(self, I, k): return zint(k)
    def m_keys(self, I): return Keys(self)
    def m_items(self, I): return Keys(self, 'items')
    def m_values(self, I): return Keys(self, 'values')
    def iterate(self, I): return Keys(self).iterate(I)
    def sorted(self, I, key, rev): return Keys(self).sorted(I, key, rev)
    def length(self, I): return I.fresh('number_of_' + self.kind, Z)
    def truth(self, I): raise Undecided('truth of a dict')


class Keys(Model):
    """an enumeration of the keys of a dict, in some order"""
    kind = 'keys'

    def __init__(self, d, what='keys'):
        super().__init__()
        self.d, self.what = d, what

    def seq(self, I):
        n = I.fresh('count', Z)
        I.assume(n >= 0)
        d, st = self.d, self.d.net.st
        name = f'{d.kind}.{I.fresh_n}'
        return d.enum(I, name, n, st, self.what)

    def iterate(self, I): return self.seq(I).iterate(I)
    def m_list(self, I): return self.seq(I)
    def length(self, I): return self.d.length(I)

    def sorted(self, I, key, rev):
        if key is not None:
            raise Undecided('sort key')
        return self.seq(I)


class IdDict(Dict):
    def enum(self, I, name, n, st, what):
        K, P = z3.Function(name + '.key', Z, Z), z3.Function(name + '.index', Z, Z)
        def get(I, i):
            k = K(zint(i))
            I.assume(z3.Implies(z3.And(zint(i) >= 0, zint(i) < n), z3.And(self.in_(st, k), P(k) == zint(i))))
            self.net.access(I, k, k)
            return k if what == 'keys' else (self.val(I, k) if what == 'values' else (k, self.val(I, k)))
        s = SymSeq((self.kind, what), n, get)
        s.has = lambda k: z3.Implies(self.in_(st, k), z3.And(P(k) >= 0, P(k) < n, K(P(k)) == k))
        s.index = P
        return s


class Locations(IdDict):
    kind = 'locations'
    def in_(self, st, k): return st.PL[k]
    def has(self, I, k):
        self.net.access(I, k, k)
        return self.net.st.PL[k]
    def val(self, I, k): return self.net.st.LV[k]
    def put(self, I, k, v): self.net.set(I, PL=z3.Store(self.net.st.PL, k, z3.BoolVal(True)), LV=z3.Store(self.net.st.LV, k, v))
    def drop(self, I, k): self.net.set(I, PL=z3.Store(self.net.st.PL, k, z3.BoolVal(False)))


class Nodes(Dict):
    kind = 'nodes'

    def key(self, I, k):
        if not (is_sym(k) and k.sort() == PT):
            raise Undecided('key of nodes')
        return k

    def has(self, I, k):
        self.net.point(I, k)
        return self.net.st.NP[k]

    def val(self, I, k): return self.net.st.NV[k]
    def put(self, I, k, v): self.net.set(I, NP=z3.Store(self.net.st.NP, k, z3.BoolVal(True)), NV=z3.Store(self.net.st.NV, k, zint(v)))
    def drop(self, I, k): self.net.set(I, NP=z3.Store(self.net.st.NP, k, z3.BoolVal(False)))

    def enum(self, I, name, n, st, what):
        K, P = z3.Function(name + '.key', Z, PT), z3.Function(name + '.index', PT, Z)
        def get(I, i):
            k = K(zint(i))
            I.assume(z3.Implies(z3.And(zint(i) >= 0, zint(i) < n), z3.And(st.NP[k], P(k) == zint(i))))
            self.net.point(I, k)
            return k if what == 'keys' else (self.val(I, k) if what == 'values' else (k, self.val(I, k)))
        s = SymSeq((self.kind, what), n, get)
        s.has = lambda k: z3.Implies(st.NP[k], z3.And(P(k) >= 0, P(k) < n, K(P(k)) == k))
        s.index = P
        return s


class Resistors(Dict):
    kind = 's'

    def key(self, I, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Undecided('key of s')
        return (zint(k[0]), zint(k[1]))

    def has(self, I, k):
        self.net.access(I, *k)
        return self.net.st.s(*k) != 0

    def val(self, I, k): return CondRef(self.net, self.net.st.s(*k))

    def put(self, I, k, v):
        r = cond_of(I, self.net, v)
        st = self.net.st
        self.net.set(I, S=z3.Store(st.S, pr(*k), r), O1=z3.Store(st.O1, r, k[0]), O2=z3.Store(st.O2, r, k[1]))

    def drop(self, I, k): self.net.set(I, S=z3.Store(self.net.st.S, pr(*k), z3.IntVal(0)))

    def enum(self, I, name, n, st, what):
        K1, K2, P = z3.Function(name + '.a', Z, Z), z3.Function(name + '.b', Z, Z), z3.Function(name + '.index', Z, Z, Z)
        def get(I, i):
            i = zint(i)
            a, b = K1(i), K2(i)
            I.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(st.s(a, b) != 0, P(a, b) == i)))
            self.net.access(I, a, b)
            k = (a, b)
            return k if what == 'keys' else (self.val(I, k) if what == 'values' else (k, self.val(I, k)))
        s = SymSeq((self.kind, what), n, get)
        s.has = lambda a, b: z3.Implies(st.s(a, b) != 0, z3.And(P(a, b) >= 0, P(a, b) < n, K1(P(a, b)) == a, K2(P(a, b)) == b))
        s.index = P
        return s


class Stars(IdDict):
    kind = 'node_to_s'
    def in_(self, st, k): return st.H[k]
    def has(self, I, k):
        self.net.access(I, k, k)
        return self.net.st.H[k]
    def val(self, I, k): return Star(self.net, k)

    def put(self, I, k, v):
        if not (isinstance(v, ListVal) and not v.items):
            raise Undecided('a star list')
        v.readonly = True
        st = self.net.st
        self.net.made += 1
        self.net.news = getattr(self.net, 'news', []) + [k]
        self.net.set(I, H=z3.Store(st.H, k, z3.BoolVal(True)), E=z3.Store(st.E, k, Row.mk(z3.K(Z, z3.IntVal(0)), self.net.stamp(I))))

    def m_setdefault(self, I, k, v):
        k = zint(k)
        if not I.branch(self.has(I, k)):
            self.put(I, k, v)
        return self.val(I, k)

    def drop(self, I, k): self.net.set(I, H=z3.Store(self.net.st.H, k, z3.BoolVal(False)))


class Star(Model):
    """the list of (resistor, neighbour) of a node"""
    kind = 'star'

    def __init__(self, net, a):
        super().__init__()
        self.net, self.a, self.since = net, a, len(getattr(net, 'news', []))

    def row(self, I):
        for k in getattr(self.net, 'news', [])[self.since:]:
            if I._check(k == self.a) != z3.unsat:
                raise Undecided('a star list that may have been replaced')
        return self.net.st.E[self.a]

    def item(self, I, row, i):
        b = NBR(row, i)
        I.assume(index(row, i), order(row, b))
        self.net.access(I, self.a, b)
        return (CondRef(self.net, Row.nb(row)[b]), b)

    def pair(self, I, t):
        if not (isinstance(t, tuple) and len(t) == 2):
            raise Undecided('entry of a star list')
        b = zint(t[1])
        self.net.access(I, self.a, b)
        return cond_of(I, self.net, t[0]), b

    def length(self, I):
        n = LEN(self.row(I))
        I.assume(n >= 0)
        return n

    def truth(self, I): return self.length(I) > 0

    def contains(self, I, t):
        r, b = self.pair(I, t)
        return z3.And(r != 0, Row.nb(self.row(I))[b] == r)

    def m_append(self, I, t):
        r, b = self.pair(I, t)
        row = self.row(I)
        I.prove('one entry per neighbour in a star list', Row.nb(row)[b] == 0)
        self.net.set(I, E=z3.Store(self.net.st.E, self.a, Row.mk(z3.Store(Row.nb(row), b, r), self.net.stamp(I))))

    def m_remove(self, I, t):
        r, b = self.pair(I, t)
        row = self.row(I)
        I.guard(Row.nb(row)[b] == r, 'ValueError')
        self.net.set(I, E=z3.Store(self.net.st.E, self.a, Row.mk(z3.Store(Row.nb(row), b, z3.IntVal(0)), self.net.stamp(I))))

    def getitem(self, I, k):
        row = self.row(I)
        if isinstance(k, slice):
            if k.step is not None or k.stop is not None or k.start is None:
                raise Undecided('slice of a star list')
            lo = zint(k.start)
            if I._check(lo < 0) != z3.unsat:
                raise Undecided('slice of a star list')
            n = z3.simplify(z3.If(LEN(row) > lo, LEN(row) - lo, z3.IntVal(0)))
            s = SymSeq(('star', 'from'), n, lambda I, i: self.item(I, row, lo + zint(i)))
            s.start, s.row, s.a = lo, row, self.a
            return s
        n = self.length(I)
        return self.item(I, row, py_index(I, k, n))

    def iterate(self, I):
        row = self.row(I)
        I.assume(LEN(row) >= 0)
        s = SymSeq(('star',), LEN(row), lambda I, i: self.item(I, row, zint(i)))
        s.start, s.row, s.a = z3.IntVal(0), row, self.a
        return s.iterate(I)

    def m_copy(self, I):
        row = self.row(I)
        s = SymSeq(('star',), self.length(I), lambda I, i: self.item(I, row, zint(i)))
        s.start, s.row, s.a = z3.IntVal(0), row, self.a
        return s


class Precious(Model):
    kind = 'precious'
    IN = z3.Function('precious', Z, B)

    def __init__(self, net):
        super().__init__()
        self.net = net

    def contains(self, I, k): return Precious.IN(zint(k))


class Names(Model):
    kind = 'names'


def removed(s0, s1, n, x, y):
    """s1 is s0 without node n: for a pair x, y"""
    return z3.And(z3.Implies(z3.And(x != n, y != n), s1.s(x, y) == s0.s(x, y)), z3.Implies(z3.Or(x == n, y == n), s1.s(x, y) == 0),
                  z3.Implies(z3.And(x != n, y != n, s0.s(x, y) != 0), s1.C[s0.s(x, y)] == s0.C[s0.s(x, y)]),
                  gone(s0, s1, n, x), gone(s0, s1, n, y))


def gone(s0, s1, n, x):
    return z3.And(z3.Implies(x != n, z3.And(s1.H[x] == s0.H[x], s1.PL[x] == s0.PL[x], s1.LV[x] == s0.LV[x])),
                  z3.Implies(x == n, z3.And(z3.Not(s1.H[x]), z3.Not(s1.PL[x]))))


def unplaced(s0, s1, n, p):
    return z3.And(s1.NP[p] == z3.And(s0.NP[p], p != s0.LV[n]), z3.Implies(s1.NP[p], s1.NV[p] == s0.NV[p]))


__all__ = [n for n in dir() if not n.startswith('_')]
