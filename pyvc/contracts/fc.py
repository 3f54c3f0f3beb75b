"""contracts for the FasterCap model: kdb.Region observed at one or two arbitrary points"""
import ast
from .common import *
from .logs import *

GEN = 'klayout_pex.fastercap.fastercap_model_generator'
NAME = z3.DeclareSort('MName')
NETNM, MATNM = z3.Function('net_name', Z, NAME), z3.Function('material_name', Z, NAME)


class PReg(Model):
    """kdb.Region seen at a few arbitrary (but fixed) points: is the point inside?  What holds for them holds for all points"""
    kind = 'Region'

    def __init__(self, *v):
        super().__init__()
        self.v = tuple(zbool(x) for x in v)

    def __repr__(self): return f'<region {self.v}>'
    def get(self): return self.v

    def put(self, I, v):
        I.note_write(self)
        self.v = tuple(v)

    def oper(self, o):
        if isinstance(o, PReg):
            return o.get()
        raise Undecided(f'region operand {o!r}')

    def binop(self, I, op, other, refl):
        a, b = self.get(), self.oper(other)
        if refl:
            a, b = b, a
        if not a and not b:
            return PReg()
        f = {'BitAnd': lambda x, y: z3.And(x, y), 'Sub': lambda x, y: z3.And(x, z3.Not(y)), 'Add': lambda x, y: z3.Or(x, y),
             'BitOr': lambda x, y: z3.Or(x, y), 'BitXor': lambda x, y: z3.Xor(x, y)}.get(op)
        if f is None:
            raise Undecided(f'region {op}')
        return PReg(*[f(x, y) for x, y in zip(a, b)])

    def inplace(self, I, op, other):
        self.put(I, self.binop(I, op, other, False).v)
        return self

    def m_insert(self, I, o): self.inplace(I, 'Add', o)

    def m_is_empty(self, I):
        e = I.fresh('empty', B)
        I.assume(z3.Implies(e, z3.Not(z3.Or(*self.get()))))
        return e

    def truth(self, I): return z3.Not(self.m_is_empty(I))
    def m_dup(self, I): return PReg(*self.get())
    def m_merged(self, I): return PReg(*self.get())
    def m_merge(self, I): return self
    def m_edges(self, I): return PEdges.of(self)
    def snapshot(self): return self.v
    def eq(self, I, o): return self is o


def install(I, points=1):
    def ctor(I, a, k):
        if not a or (isinstance(a[0], ListVal) and not a[0].items):
            return PReg(*[z3.BoolVal(False)] * points)
        if isinstance(a[0], PReg):
            return PReg(*a[0].get())
        raise Undecided('Region constructor')
    I.externals['klayout.db.Region'] = Builtin('Region', ctor)


class PEdge(Model):
    kind = 'Edge'

    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def m_swapped_points(self, I): return PEdge(z3.Not(self.inner))


class PEdges(Model):
    """kdb.Edges seen at one place between two points: is there an edge, and on which side (the second point?) is the inside of what it was taken from"""
    kind = 'Edges'

    def __init__(self, on, inner):
        super().__init__()
        self.on, self.inner = on, inner

    @staticmethod
    def of(r):
        a, b = r.get()
        return PEdges(z3.Xor(a, b), b)

    def binop(self, I, op, o, refl):
        if not isinstance(o, PEdges) or refl:
            raise Undecided('edges operand')
        if op == 'BitAnd':
            return PEdges(z3.And(self.on, o.on), self.inner)
        if op == 'Sub':
            return PEdges(z3.And(self.on, z3.Not(o.on)), self.inner)
        raise Undecided(f'edges {op}')

    def inplace(self, I, op, o):
        r = self.binop(I, op, o, False)
        I.note_write(self)
        self.on, self.inner = r.on, r.inner
        return self

    def m_is_empty(self, I):
        e = I.fresh('empty', B)
        I.assume(z3.Implies(e, z3.Not(self.on)))
        return e

    def truth(self, I): return True       # kdb.Edges has no truth value of its own
    def m_dup(self, I): return PEdges(self.on, self.inner)
    def m_merged(self, I): return PEdges(self.on, self.inner)
    def snapshot(self): return (self.on, self.inner)

    def iterate(self, I):
        n = I.fresh('nedges', Z)
        I.assume(n >= 0)
        return IterSpec(('edges', self.oid), n, lambda I, k: PEdge(self.inner), base=self)
    def m_each(self, I): return self


# ---------------------------------------------------------------- names
def name_index(I, t, n):
    """(priority index of a name, is it a net)"""
    if isinstance(t, Fmt):
        t = t.v
    if is_sym(t) and t.sort() == NAME and t.num_args() == 1:
        d = t.decl()
        if d.eq(NETNM):
            return t.arg(0), True
        if d.eq(MATNM):
            return n + t.arg(0), False
    raise Undecided(f'name {t!r}')


def key_index(I, k, n):
    """the priority index behind a key '+net' or '-material'"""
    p = k.parts if isinstance(k, StrCat) else ()
    if len(p) == 2 and p[0] in ('+', '-'):
        i, net = name_index(I, p[1], n)
        if net == (p[0] == '+'):
            return i
    raise Undecided(f'key {k!r}')


class KDict(Model):
    """dict by '+net' / '-material': value of every index as a function, and what has been written since"""
    kind = 'KDict'

    def __init__(self, n, fn, has=None):
        super().__init__()
        self.setup(n, fn, has)

    def setup(self, n, fn, has=None):
        self.n, self.fn, self.has, self.over = n, fn, has or (lambda I, i: True), []

    def at(self, I, i):
        for j, v in reversed(self.over):
            if same(i, j):
                return v
            if not z3.is_false(z3.simplify(i == j)) and not I._check(i == j) == z3.unsat:
                raise Undecided('two keys that may be the same')
        return None

    def there(self, I, i):
        return True if self.at(I, i) is not None else self.has(I, i)

    def contains(self, I, k): return self.there(I, key_index(I, k, self.n))

    def val(self, I, i):
        v = self.at(I, i)
        return v if v is not None else self.fn(I, self, i)

    def getitem(self, I, k):
        i = key_index(I, k, self.n)
        I.guard(self.there(I, i), 'KeyError')
        return self.val(I, i)

    def m_get(self, I, k, default=None):
        i = key_index(I, k, self.n)
        return self.val(I, i) if I.branch(self.there(I, i)) else default

    def setitem(self, I, k, v):
        i = key_index(I, k, self.n)
        I.note_write(self)
        if self.at(I, i) is v:
            return
        self.over = [(j, x) for j, x in self.over if not same(i, j)] + [(i, v)]

    def m_setdefault(self, I, k, d=None):
        i = key_index(I, k, self.n)
        if not I.branch(self.there(I, i)):
            self.setitem(I, k, d)
        return self.val(I, i)

    def snapshot(self): return (self.fn, self.has, list(self.over))

    def m_values(self, I): return SymSeq('state values', I.fresh('nstate', Z), lambda I, i: PReg(*[I.fresh('some', B)]))

    def m_items(self, I):
        m = I.fresh('nstate', Z)
        I.assume(m >= 0)
        return SymSeq('state items', m, lambda I, i: (I.fresh('name', NAME), PReg(*[I.fresh('some', B)])))


class KElem(PReg):
    """the region a KDict holds for an index: changes stay in the dict"""
    def __init__(self, d, i, *v):
        super().__init__(*v)
        self.d, self.i = d, i

    def put(self, I, v):
        I.note_write(self.d)
        self.v = tuple(v)
        if self.d.at(I, self.i) is not self:
            self.d.over = self.d.over + [(self.i, self)]


def names(I, n, m):
    """the two name lists: nets (a list) and materials (a dict to k)"""
    nets = SymSeq('nets', n, lambda I, i: NETNM(zint(i)))
    mats = SymDict('materials', m, lambda I, i: MATNM(zint(i)), lambda I, i: z3.Function('dielectric_k', Z, R)(zint(i)), unique=True)
    return nets, mats


def used(I, L, cls):
    """the objects of a class the loop refers to by local names"""
    out = {}
    for x in ast.walk(L.stmt):
        if isinstance(x, ast.Name) and L.env.has(x.id):
            try:
                v = L.env.lookup(x.id)
            except Exception:
                continue
            if isinstance(v, cls):
                out[x.id] = v
    return out


__all__ = [n for n in globals() if not n.startswith('__')]
