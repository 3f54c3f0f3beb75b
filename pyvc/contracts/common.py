"""shared models (assumed contracts on dependencies) and helpers for the contracts"""
from fractions import Fraction
import z3
from ..engine import *
from ..engine import LoopSpec, Model, SymSeq, SymDict, IterSpec, Obj, ListVal, DictVal, Builtin, External, Undecided

R, Z, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


class Spec(LoopSpec):
    """loop contract from callables"""
    def __init__(self, name, match, inv=None, havoc=None, facts=None, pre=None, done=None, after=None, begin=None,
                 exit_facts=None):
        self.name = name
        self._m, self._i, self._h, self._f, self._p, self._d, self._a, self._b = \
            match, inv, havoc, facts, pre, done, after, begin
        self._x = exit_facts

    def match(self, I, it):
        if isinstance(it, tuple) and it and it[0] == 'while':
            return self._m(I, it) if getattr(self, 'is_while', False) else False
        return False if getattr(self, 'is_while', False) else self._m(I, it)

    def pre(self, I, L):
        if self._p: self._p(I, L)

    def havoc(self, I, L, k):
        if self._h: self._h(I, L, k)

    def inv(self, I, L, k): return self._i(I, L, k) if self._i else []
    def facts(self, I, L, k): return self._f(I, L, k) if self._f else []
    def exit_facts(self, I, L, k): return self._x(I, L, k) if self._x else []

    def elem_begin(self, I, L, k):
        if self._b: self._b(I, L, k)

    def elem_done(self, I, L, k, ctx):
        if self._d: self._d(I, L, k)

    def after(self, I, L):
        if self._a: self._a(I, L)


def mark_havoc(L, *objs):
    L.ghost.setdefault('havocked', set()).update(o.oid for o in objs)


def set_local(L, n, v):
    L.ghost.setdefault('set_locals', set()).add(n)
    L.set_local(n, v)


def havoc_num(I, L, n):
    v = I.fresh_like(L.env.lookup(n), n)
    if not (is_sym(L.env.lookup(n)) and L.env.lookup(n).sort() == z3.IntSort()) and not isinstance(L.env.lookup(n), int):
        v = I.fresh(n, R)
    set_local(L, n, v)
    return v


def same(a, b):
    """syntactic / simplified equality of two ints (python or z3)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    try:
        return z3.is_true(z3.simplify(zint(a) == zint(b)))
    except Undecided:
        return False


def unfiltered(I, it):
    """an iteration that leaves none of its elements out"""
    if it.guard is not None and I.branch(zint(it.n) > 0):
        t = I.fresh('some_element', z3.IntSort())
        I.assume(t >= 0, t < zint(it.n))
        g = it.guard(I, t)
        I.prove('none is left out', z3.BoolVal(g) if isinstance(g, bool) else g)
    return it


def base_tag(t):
    """strip enumerate / reversed / items wrappers"""
    while isinstance(t, tuple) and t and t[0] in ('enumerate', 'reversed', 'comp', 'map', 'filter', 'items', 'values', 'keys'):
        t = t[1]
    return t


def tag_has(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(tag_has(y, x) for y in t if isinstance(y, (tuple, str)))


class Record(Model):
    """read-only record with given attributes (e.g. a protobuf message as input)"""
    kind = 'Record'

    def __init__(self, name, fields, has=None, ident=None):
        super().__init__()
        self.name, self.fields, self.has, self.ident = name, fields, has or {}, ident

    def __repr__(self): return f'<{self.name}>'
    def has_attr(self, I, name): return name in self.fields

    def getattr(self, I, name):
        if name in self.fields:
            v = self.fields[name]
            return v() if callable(v) and not isinstance(v, Model) else v
        if name == 'HasField':
            def hf(I, f):
                if f in self.has:
                    return self.has[f]
                raise Undecided(f'HasField {f}')
            return Builtin('HasField', lambda I, a, k: hf(I, *a))
        raise Undecided(f'record {self.name} has no field {name}')

    def eq(self, I, other):
        if self is other:
            return True
        if isinstance(other, Record) and self.ident is not None and other.ident is not None and self.name == other.name:
            return self.ident == other.ident
        return False


class OutMsg(Model):
    """a protobuf message being filled: fields are created on first use"""
    kind = 'OutMsg'

    def __init__(self, name, defaults=None):
        super().__init__()
        self.name, self.f = name, dict(defaults or {})

    def __repr__(self): return f'<msg {self.name} {self.f}>'

    def getattr(self, I, name):
        if name in self.f:
            return self.f[name]
        if name == 'CopyFrom':
            return Builtin(name, lambda I, a, k: self.copy_from(I, *a))
        raise Undecided(f'message {self.name} has no field {name} yet')

    def copy_from(self, I, o):
        I.note_write(self)
        self.f['__copy__'] = o

    def setattr(self, I, name, v):
        I.note_write(self)
        self.f[name] = v

    def isinst(self, I, d): return None


class Trace(Model):
    """ghost log of externally visible events (append-only)"""
    kind = 'Trace'

    def __init__(self, name='trace'):
        super().__init__()
        self.name = name
        self.events = []

    def emit(self, I, *ev):
        I.note_write(self)
        self.events.append(ev)

    def snapshot(self): return list(self.events)


class TraceLoop(Spec):
    """loop whose only carried effect is what it appends to a trace: the per-iteration events are checked against
    ``expect(I, L, k)`` (list of (condition, event) or a callable check), and the loop leaves one ('loop', name) block"""
    pass


def simple_contract_log(I):
    """names whose calls are ignored"""
    return None


class Reg(Model):
    """kdb.Region as a set of points: & intersection, - difference, + / += union, area a function of the set"""
    kind = 'Region'
    PT = z3.DeclareSort('Pt')
    SORT = z3.ArraySort(PT, B)
    AREA = z3.Function('area', SORT, R)
    EMPTY = z3.K(PT, z3.BoolVal(False))

    def __init__(self, v=None):
        super().__init__()
        self.v = Reg.EMPTY if v is None else v

    @staticmethod
    def union(a, b): return z3.SetUnion(a, b)
    @staticmethod
    def inter(a, b): return z3.SetIntersect(a, b)
    @staticmethod
    def minus(a, b): return z3.SetDifference(a, b)

    def val(self, o):
        if isinstance(o, Reg):
            return o.v
        if isinstance(o, Poly):
            return o.v
        raise Undecided(f'region operand {o!r}')

    def binop(self, I, op, other, refl):
        if op == 'BitAnd':
            return Reg(Reg.inter(self.v, self.val(other)))
        if op == 'Sub':
            return Reg(Reg.minus(self.v, self.val(other)) if not refl else Reg.minus(self.val(other), self.v))
        if op in ('Add', 'BitOr'):
            return Reg(Reg.union(self.v, self.val(other)))
        raise Undecided(f'region {op}')

    def inplace(self, I, op, other):
        r = self.binop(I, op, other, False)
        self.changing(I)
        self.v = r.v
        return self

    kept = False        # handed to something that keeps it: changing it afterwards would change what was handed over

    def changing(self, I):
        if self.kept:
            raise Undecided('a region is changed after it was handed over')
        I.note_write(self)

    def m___and__(self, I, o): return self.binop(I, 'BitAnd', o, False)
    def m___add__(self, I, o): return self.binop(I, 'Add', o, False)
    def m___sub__(self, I, o): return self.binop(I, 'Sub', o, False)

    def m_insert(self, I, o):
        self.changing(I)
        if isinstance(o, SymSeq) and hasattr(o, 'union_v'):
            self.v = Reg.union(self.v, o.union_v)
            return self
        self.v = Reg.union(self.v, self.val(o))
        return self

    def m_area(self, I): return Reg.AREA(self.v)
    def m_is_empty(self, I): return self.v == Reg.EMPTY
    def truth(self, I): return self.v != Reg.EMPTY
    def m_dup(self, I): return Reg(self.v)
    def m_enable_properties(self, I): return None
    def m_merged(self, I): return Reg(self.v)

    def m_merge(self, I): return self
    def eq(self, I, o): return self is o
    def snapshot(self): return self.v

    @staticmethod
    def ctor(I, a, k):
        if not a:
            return Reg()
        x = a[0]
        if isinstance(x, (Poly, Reg)):
            return Reg(x.v)
        if isinstance(x, ListVal):
            r = Reg()
            for p in x.items:
                r.v = Reg.union(r.v, r.val(p))
            return r
        raise Undecided('Region constructor')


class Poly(Model):
    """a polygon with properties, as the set of points it covers"""
    kind = 'Polygon'

    def __init__(self, v, net=None, **attrs):
        super().__init__()
        self.v, self.net, self.attrs = v, net, attrs

    def m_property(self, I, n):
        if n == 'net':
            return self.net
        raise Undecided('polygon property')

    def getattr(self, I, name):
        if name in self.attrs:
            return self.attrs[name]
        return super().getattr(I, name)


def install_region(I):
    I.externals['klayout.db.Region'] = Builtin('Region', Reg.ctor)


class Mat(Model):
    """List[List[float]] of unknown size, as an array of arrays"""
    kind = 'Matrix'
    SORT = z3.ArraySort(Z, z3.ArraySort(Z, R))

    def __init__(self, a, n, m):
        super().__init__()
        self.a, self.n, self.m = a, n, m

    def length(self, I): return self.n

    def getitem(self, I, k):
        I.guard(z3.And(zint(k) >= 0, zint(k) < self.n), 'IndexError')
        return MatRow(self, zint(k))

    def iterate(self, I):
        return IterSpec('matrix.rows', self.n, lambda I, i: MatRow(self, i), base=self)

    def deepcopy(self, I, cp): return Mat(self.a, self.n, self.m)
    def snapshot(self): return self.a


class MatRow(Model):
    kind = 'MatRow'

    def __init__(self, mat, i):
        super().__init__()
        self.mat, self.i = mat, i

    def length(self, I): return self.mat.m

    def getitem(self, I, k):
        k = zint(k)
        if isinstance(k, int) and k < 0:
            k = self.mat.m + k
        I.guard(z3.And(k >= 0, k < self.mat.m), 'IndexError')
        return self.mat.a[self.i][k]

    def setitem(self, I, k, v):
        k = zint(k)
        I.guard(z3.And(k >= 0, k < self.mat.m), 'IndexError')
        I.note_write(self.mat)
        self.mat.a = z3.Store(self.mat.a, self.i, z3.Store(self.mat.a[self.i], k, zreal(v)))

    def iterate(self, I):
        return IterSpec('matrix.row', self.mat.m, lambda I, j: self.mat.a[self.i][j], base=self)

    def deepcopy(self, I, cp): raise Undecided('copy of a row')


class SymList(Model):
    """a list with a symbolic prefix (n elements, get(I, i)) and a concrete tail of newly appended elements"""
    kind = 'SymList'

    def __init__(self, n=None, get=None, tag='symlist'):
        super().__init__()
        self.n, self.get, self.tag, self.tail = (z3.IntVal(0) if n is None else n), get, tag, []

    def length(self, I): return z3.simplify(self.n + len(self.tail)) if self.tail else self.n
    def truth(self, I): return True if self.tail else self.n > 0

    def at(self, I, k):
        if not self.tail:
            return self.get(I, k)
        if I.branch(k < self.n):
            return self.get(I, k)
        for j, t in enumerate(self.tail):
            if I.branch(k == self.n + j):
                return t
        I.raise_('IndexError')

    def getitem(self, I, k):
        if isinstance(k, slice):
            return _eng.seq_slice(I, self, k, zint(self.length(I)), self.at)
        return self.at(I, _eng.py_index(I, k, zint(self.length(I))))

    def m_reverse(self, I):
        if self.tail:
            raise Undecided('reverse of a grown list')
        I.note_write(self)
        n, get = self.n, self.get
        self.get = lambda I, i: get(I, n - 1 - i)

    def m_pop(self, I, i=-1):
        if self.tail:
            return self.tail.pop() if i == -1 else _hidden(I, i)
        n, get = self.n, self.get
        j = _eng.py_index(I, i, n)
        I.note_write(self)
        v = get(I, j)
        self.n = n - 1
        if isinstance(i, int) and i >= 0:
            def shifted(I, t):
                t = zint(t)
                return get(I, z3.simplify(z3.If(t < i, t, t + 1)))
            self.get = shifted
        elif i != -1:
            raise Undecided('pop at a symbolic index')
        return v

    def iterate(self, I): return IterSpec(self.tag, self.length(I), lambda I, k: self.at(I, k), base=self)

    def m_append(self, I, x):
        I.note_write(self)
        self.tail.append(x)

    def m_extend(self, I, x):
        I.note_write(self)
        self.tail += I.to_items(x)

    def inplace(self, I, op, other):
        if op != 'Add':
            raise Undecided('symbolic list operator')
        self.m_extend(I, other)
        return self

    def snapshot(self): return None


def _list_setitem(self, I, k, v):
    if self.tail or isinstance(k, slice):
        raise Undecided('element of a grown list changes')
    n, get = self.n, self.get
    k = _eng.py_index(I, k, n)
    I.note_write(self)
    self.get = lambda I, i: v if I.branch(zint(i) == k) else get(I, i)


SymList.setitem = _list_setitem


def become_symlist(o, n, get, tag='symlist'):
    """in place: the list (or the symbolic list) now has n symbolic elements and no tail"""
    o.__class__ = SymList
    o.__dict__.pop('items', None)
    o.n, o.get, o.tag, o.tail = n, get, tag, []
    return o


_CompSeq = CompSeq
_CompSeq.become = staticmethod(become_symlist)


def list_items(o):
    return o.items if isinstance(o, ListVal) else None


class AppendLoop(Spec):
    """loop that appends to exactly one list (starting empty) and changes nothing else that outlives it.
    invariant: the list is [elem(0), .., elem(count(k)-1)].  ``check(I, L, k, new)`` states what iteration k appended."""

    def __init__(self, name, match, elem, check, tag='symlist', count=None, select=None, prefix=0, also=None, facts=None, begin=None):
        super().__init__(name, match, begin=begin, facts=facts)
        self.elem, self.check, self.tag = elem, check, tag
        self.count = count or (lambda L, k: k)
        self.select = select
        self.prefix = prefix
        self.also = also

    def lst(self, I, L):
        c = [o for o in L.written if isinstance(o, (ListVal, SymList))]
        if self.select:
            c = [o for o in c if self.select(I, L, o)]
        if len(c) != 1:
            raise Undecided(f'{self.name}: expected one list to grow, found {len(c)}')
        return c[0]

    def pre(self, I, L):
        o = self.lst(I, L)
        L.ghost['list'] = o
        L.ghost['start'] = len(o.items) if isinstance(o, ListVal) else None
        if L.ghost['start'] != self.prefix:
            raise Undecided(f'{self.name}: the list does not start with {self.prefix} elements')
        L.ghost['first'] = list(o.items)

    def havoc(self, I, L, k):
        o = L.ghost['list']
        n = self.count(L, k)
        if self.prefix == 0:
            become_symlist(o, n, lambda I, i: self.elem(I, L, i), self.tag)
        else:
            first = L.ghost['first']

            def get(I, i):
                for j, f in enumerate(first):
                    if I.branch(zint(i) == j):
                        return f
                return self.elem(I, L, i - len(first))
            become_symlist(o, n + len(first), get, self.tag)
        mark_havoc(L, o)
        if self.also:
            self.also(I, L, k)

    def elem_done(self, I, L, k, ctx):
        o = L.ghost['list']
        if not isinstance(o, SymList):
            raise Undecided('list replaced')
        self.check(I, L, k, o.tail)


# ---------------------------------------------------------------- text
class Joined:
    """sep.join(seq) for a sequence of unknown length"""
    def __init__(self, sep, it): self.sep, self.it = sep, it
    def __repr__(self): return f'Joined({self.sep!r},{self.it.tag})'


def install_join(I):
    I.ghost['join'] = lambda I, sep, it: StrCat([Joined(sep, it)])


def install_nested(I):
    """[e for x in A for y in B(x)]: a sequence whose k-th element is e at the (OUT(k), IN(k))-th x, y; every pair of positions is some k"""
    def nested(I, it, gens, elt, env):
        if any(g.ifs for g in gens) or len(gens) != 2:
            raise Undecided('nested symbolic comprehension with conditions')
        n, c = I.fresh('n_flat', Z), I.fresh('flat', Z)
        out, inn = z3.Function(f'outer {c}', Z, Z), z3.Function(f'inner {c}', Z, Z)
        I.assume(n >= 0)
        snap = Env(env.parent, env.module)
        snap.vars = dict(env.vars)

        def get(I, k):
            e = Env(snap, snap.module)
            o = out(zint(k))
            I.assume(z3.Implies(z3.And(zint(k) >= 0, zint(k) < n), z3.And(o >= 0, o < zint(it.n))))
            I.assign(gens[0].target, it.elem(I, o), e)
            j = I.iterate(I.eval(gens[1].iter, e))
            if isinstance(j, list):
                raise Undecided('nested comprehension over a concrete list')
            i = inn(zint(k))
            I.assume(z3.Implies(z3.And(zint(k) >= 0, zint(k) < n), z3.And(i >= 0, i < zint(j.n))))
            I.assign(gens[1].target, j.elem(I, i), e)
            return elt(e)
        return SymSeq(('flat', it.tag), n, get)
    I.ghost['nested'] = nested


class FileOut(Model):
    """a text file opened for writing: what is written goes to a trace"""
    kind = 'FileOut'

    def __init__(self, trace, path, mode, kw):
        super().__init__()
        self.trace, self.path, self.mode, self.kw = trace, path, mode, kw

    def m_write(self, I, s): self.trace.emit(I, 'w', s)

    def m_writelines(self, I, ls):
        for s in I.to_items(ls):
            self.trace.emit(I, 'w', s)
    def m_close(self, I): return None
    def m_flush(self, I): return None


def install_out_file(I, trace):
    def op(I, path, mode='r', **kw):
        if mode not in ('w', 'wt'):
            raise Undecided(f'open mode {mode}')
        trace.emit(I, 'open', path)
        return FileOut(trace, path, mode, kw)
    I.ghost['open'] = op


def same_encoding(I, what, kw):
    """kpex writes its files in UTF-8 whatever the locale"""
    e = kw.get('encoding')
    I.prove(f'{what} is read in the encoding it was written in', z3.BoolVal(isinstance(e, str) and e.lower().replace('_', '-') in ('utf-8', 'utf8')))


def text_of(events):
    """concatenation of consecutive writes, as a list of parts (str merged)"""
    s = StrCat([x for ev in events if ev[0] == 'w' for x in ([ev[1]])])
    return list(s.parts)


class TraceSpec(Spec):
    """loop whose iterations only append to the given trace: check(I, L, k, events) per iteration; after the loop the
    trace carries one ('loop', name, L) event"""

    def __init__(self, name, match, trace, check, also_havoc=None, **kw):
        super().__init__(name, match, **kw)
        self.trace, self.check, self.also = trace, check, also_havoc

    def havoc(self, I, L, k):
        L.ghost['pre_events'] = list(self.trace.events)
        self.trace.events = [('sofar', self.name)]
        mark_havoc(L, self.trace)
        if self.also:
            self.also(I, L, k)
        super().havoc(I, L, k)

    def elem_done(self, I, L, k, ctx):
        ev = self.trace.events
        if not ev or ev[0] != ('sofar', self.name):
            raise Undecided('trace was replaced')
        self.check(I, L, k, ev[1:])
        super().elem_done(I, L, k, ctx)

    def after(self, I, L):
        self.trace.events = L.ghost['pre_events'] + [('loop', self.name, L)]
        super().after(I, L)


def digits_of(spec):
    """significant digits guaranteed by a float format, or None"""
    import re
    if spec is None:
        return 17
    m = re.fullmatch(r'%?\.?(\d+)?([ge])', spec) if isinstance(spec, str) else None
    if m and '.' in spec:
        n = int(m.group(1))
        return n if m.group(2) == 'g' else n + 1
    return None


# ---------------------------------------------------------------- loops that only collect
def _hidden(I, i): raise Undecided('the loop body reads the list it is building')


class Collected(CompSeq):
    """the list a collecting loop built: element k is what the body appended at iteration k (re-executed on demand)"""
    kind = 'Collected'

    def filtered(self): return self.maybe_none

    def item(self, I, k): return self.replay(I, k)

    def cond(self, I, k):
        if not self.maybe_none:
            return z3.BoolVal(True)
        return I.pure_bool(lambda: len(self.replay(I, k)) == 1)

    def at(self, I, k):
        t = self.replay(I, k)
        if len(t) != 1:
            raise PathEnd()
        return t[0]


class AutoLoop(Spec):
    """any loop whose iterations only (a) append at most one element each to lists, (b) store at most one key each in
    dictionaries, all of them empty before, and are otherwise independent of each other.  No invariant is needed: the
    collected sequences are [body(0), body(1), ..]"""

    def __init__(self, it):
        super().__init__('collect:' + str(base_tag(it.tag))[:40], lambda I, it: True)

    def own(self, L): return L.written

    def pre(self, I, L):
        for o in self.own(L):
            if isinstance(o, ListVal) and not o.items:
                continue
            if isinstance(o, DictVal) and not o.pairs and o.default is None:
                continue
            if isinstance(o, SetVal) and not o.items:
                continue
            raise Undecided(f'loop over {L.it.tag} without a loop contract (writes {o!r})')
        L.ghost['kinds'] = {o.oid: type(o) for o in self.own(L)}

    def hide(self, I, L, n=None):
        for o in self.own(L):
            if L.ghost['kinds'][o.oid] is ListVal:
                if n is None:
                    n = I.fresh('n_collected', Z)
                    I.assume(n >= 0)
                become_symlist(o, n, _hidden, 'collecting')
            else:
                hide_dict(o, L.ghost['kinds'][o.oid])

    def havoc(self, I, L, k):
        self.hide(I, L)
        mark_havoc(L, *self.own(L))

    def elem_done(self, I, L, k, ctx):
        a = L.ghost['rec'].setdefault('auto', {})
        for o in self.own(L):
            t = o.tail
            if len(t) > 1:
                raise Undecided('an iteration appends several elements')
            f = a.setdefault(o.oid, set())
            f.add(len(t))

    def on_break(self, I, L, k):
        raise Undecided('break in a collecting loop')

    def after(self, I, L):
        bind, body = L.ghost['replay']
        env, it = L.env, L.it
        since = I.clock
        auto = L.ghost['rec'].get('auto', {})
        snap = dict(env.vars)
        objs = list(self.own(L))
        kinds = L.ghost['kinds']

        def run(I, k):
            def thunk():
                cur = env.vars
                tr = getattr(self, 'trace', None)      # what the replayed body documents is documented already
                events = list(tr.events) if tr is not None else None
                saved = [(o, o.__class__, o.__dict__) for o in objs]
                env.vars = dict(snap)
                cols = []
                for o in objs:
                    o.__dict__ = dict(o.__dict__)
                    if kinds[o.oid] is ListVal:
                        o.__dict__.pop('wtime', None)
                        become_symlist(o, z3.IntVal(0), _hidden, 'collecting')
                    else:
                        hide_dict(o, kinds[o.oid])
                    cols.append(o)
                fr = {'stamp': _eng._oid[0], 'written': {}}
                I.write_frames.append(fr)
                I.loop_stack.append((self, it, k, L))
                q, I.quiet = I.quiet, I.quiet
                try:
                    try:
                        bind(I, k)
                        body()
                    except _eng._Continue:
                        pass
                    except _eng.PyRaise:
                        # the loop came to its end, no iteration raises; in a condition, k may be outside of the range
                        if I.pure_depth > 0:
                            raise PathEnd()
                        raise
                    tails = [o.tail for o in objs]
                finally:
                    I.loop_stack.pop()
                    _eng.drop_frame(I.write_frames, fr)
                    env.vars = cur
                    for o, c, d in saved:
                        o.__class__, o.__dict__ = c, d
                    if tr is not None:
                        tr.events = events
                if set(fr['written']) - {o.oid for o in objs} - ({tr.oid} if tr is not None else set()):
                    raise Undecided('collecting loop writes something else')
                return tails
            # writes to the collectors inside are not state changes of the path
            frames, I.write_frames = I.write_frames, []
            clock = I.clock
            try:
                return I.lazily(since, thunk)
            finally:
                I.write_frames = frames
        for idx, o in enumerate(objs):
            flags = auto.get(o.oid, {0, 1})
            rep = (lambda idx: lambda I, k: run(I, k)[idx])(idx)
            maybe_none = flags != {1}
            o.__dict__.pop('items', None)
            if kinds[o.oid] is ListVal:
                o.__class__ = Collected
                o.it, o.tag, o.since, o.maybe_none, o.replay = it, ('comp', it.tag), since, maybe_none, rep
            elif kinds[o.oid] is DictVal:
                o.__class__ = SymDict

                def one(I, k, rep=rep):
                    t = rep(I, k)
                    if len(t) != 1:
                        raise PathEnd()
                    return t[0]
                o.tag, o.n, o.unique, o.extra = ('comp', it.tag), it.n, False, []
                o.over = it
                if hasattr(it.base, 'find_where') and it.guard is None:
                    o.finder = lambda I, key, x, o=o: it.base.find_where(I, key, o.condat, x)
                o.key = lambda I, k, one=one: one(I, k)[0]
                o.val = lambda I, k, one=one: one(I, k)[1]
                o.cond = (lambda I, k, rep=rep: I.pure_bool(lambda: len(rep(I, k)) == 1)) if maybe_none else None
            else:
                o.__class__ = CollectedSet
                o.it, o.tag, o.since, o.maybe_none, o.replay = it, ('set', it.tag), since, maybe_none, rep
        super().after(I, L)


class AutoTrace(AutoLoop):
    """an AutoLoop whose iterations may also append to one trace: check(I, L, k, events) per iteration, and the trace
    carries one ('loop', name, L) event afterwards.  A loop that does not touch the trace is a plain AutoLoop"""

    def __init__(self, name, trace, check, match=None):
        self.name, self.trace, self.check = name, trace, check
        Spec.__init__(self, name, match or (lambda I, it: it.n is not None))

    def own(self, L): return [o for o in L.written if o is not self.trace]
    def traced(self, L): return any(o is self.trace for o in L.written)

    def havoc(self, I, L, k):
        super().havoc(I, L, k)
        if self.traced(L):
            L.ghost['pre_events'] = list(self.trace.events)
            self.trace.events = [('sofar', self.name)]
            mark_havoc(L, self.trace)

    def elem_done(self, I, L, k, ctx):
        super().elem_done(I, L, k, ctx)
        if self.traced(L):
            ev = self.trace.events
            if not ev or ev[0] != ('sofar', self.name):
                raise Undecided('trace was replaced')
            self.check(I, L, k, ev[1:])

    def after(self, I, L):
        super().after(I, L)
        if self.traced(L):
            self.trace.events = L.ghost['pre_events'] + [('loop', self.name, L)]


class Hidden(Model):
    """a value no contract speaks about: anything observed of it is arbitrary"""
    kind = 'Hidden'
    unknown = True

    def truth(self, I): return I.fresh('unknown_truth', B)
    def eq(self, I, o): return I.fresh('unknown_eq', B)
    def contains(self, I, k): return I.fresh('unknown_in', B)
    def setitem(self, I, k, v): I.note_write(self)
    def getitem(self, I, k): return Hidden()
    def inplace(self, I, op, o): return self
    def m_insert(self, I, *a): return None
    def m_enable_properties(self, I): return None


class CollectedSet(Collected):
    kind = 'CollectedSet'

    def iterate(self, I): raise Undecided('iteration over a collected set')
    def length(self, I): raise Undecided('size of a collected set')

    def truth(self, I):
        return CompSeq.length(self, I) > 0


class DictCollector(Model):
    kind = 'DictCollector'
    def setitem(self, I, k, v):
        I.note_write(self)
        self.tail.append((k, v))
    def m_add(self, I, x):
        I.note_write(self)
        self.tail.append(x)


def hide_dict(o, kind):
    o.__class__ = DictCollector
    o.__dict__.pop('items', None)
    o.__dict__.pop('pairs', None)
    o.tail = []


def auto(I):
    I.auto_loop = AutoLoop


from .. import engine as _eng  # noqa: E402

__all__ = [n for n in globals() if not n.startswith('__')]
