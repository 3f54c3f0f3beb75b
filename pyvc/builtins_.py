"""Python built-ins and the few library functions whose meaning is fixed (math, copy, collections, os.path, ...)."""
from fractions import Fraction
import z3
from .engine import (Builtin, ListVal, DictVal, SetVal, Obj, Model, SymSeq, CompSeq, SymDict, RangeVal, IterSpec, Undecided,
                     External, ClassVal, EnumMember, Fmt, StrCat, strcat, Inf, ExcClass, FunctionVal, BoundMethod,
                     is_sym, is_num, is_intlike, zint, zreal, zbool, Opaque, HeapVal)

BUILTINS = {}
EXT_DEFAULT = {}


def bi(name):
    def d(f):
        BUILTINS[name] = Builtin(name, lambda I, a, k: f(I, *a, **k))
        return f
    return d


def ext(*names):
    def d(f):
        for n in names:
            EXT_DEFAULT[n] = Builtin(n, lambda I, a, k: f(I, *a, **k))
        return f
    return d


for _n in ('Exception', 'ValueError', 'KeyError', 'IndexError', 'TypeError', 'NotImplementedError', 'RuntimeError',
           'AssertionError', 'FileNotFoundError', 'AttributeError', 'StopIteration', 'BaseException', 'OSError',
           'ZeroDivisionError', 'ArithmeticError', 'LookupError', 'SystemExit', 'NotImplemented', 'KeyboardInterrupt'):
    BUILTINS[_n] = ExcClass(_n)


@bi('len')
def _len(I, x):
    if isinstance(x, (ListVal, SetVal)):
        return len(x.items)
    if isinstance(x, DictVal):
        return len(x.pairs)
    if isinstance(x, (tuple, str, bytes)):
        return len(x)
    if isinstance(x, RangeVal):
        it = I.iterate(x)
        return len(it) if isinstance(it, list) else it.n
    if isinstance(x, Model):
        return x.length(I)
    if isinstance(x, Obj):
        m = x.cls.mro_attr('__len__')
        if m:
            return I.call(BoundMethod(m[1], x), [])
    if x is None:
        I.raise_('TypeError')
    if isinstance(x, StrCat) and all(isinstance(p, str) or is_sym(p) and p.sort().name() in I.ghost.get('chars', ()) for p in x.parts):
        return sum(len(p) if isinstance(p, str) else 1 for p in x.parts)
    if is_sym(x) and x.sort().name() in I.ghost.get('chars', ()):
        return 1
    if isinstance(x, StrCat):
        return I.ghost_strlen(x) if hasattr(I, 'ghost_strlen') else _strlen(I, x)
    if is_sym(x) and x.sort() == z3.StringSort():
        return z3.Length(x)
    if is_sym(x) and ('len', x.sort().name()) in I.ghost:
        return I.ghost[('len', x.sort().name())](x)
    raise Undecided(f'len of {x!r}')


def _strlen(I, x):
    n = I.fresh('strlen', z3.IntSort())
    I.assume(n >= sum(len(p) for p in x.parts if isinstance(p, str)))
    return n


@bi('range')
def _range(I, *a):
    if len(a) == 1:
        return RangeVal(0, a[0], 1)
    if len(a) == 2:
        return RangeVal(a[0], a[1], 1)
    return RangeVal(*a)


@bi('enumerate')
def _enumerate(I, x, start=0):
    it = I.iterate(x)
    if isinstance(it, list):
        return ListVal([(i + start, v) for i, v in enumerate(it)])
    return IterSpec(('enumerate', it.tag), it.n, lambda I, k: (k + start if start else k, it.elem(I, k)), base=it.base,
                    guard=it.guard) if it.guard is None else _u('enumerate of a filtered sequence')


def _u(m): raise Undecided(m)


@bi('zip')
def _zip(I, *xs):
    its = [I.iterate(x) for x in xs]
    if all(isinstance(i, list) for i in its):
        return ListVal([tuple(t) for t in zip(*its)])
    sym = [i for i in its if not isinstance(i, list)]
    if len(sym) == len(its) and all(i.guard is None for i in sym):
        n = sym[0].n
        for s in sym[1:]:
            if not (s.n is n or (is_sym(s.n) and is_sym(n) and s.n.eq(n))):
                n = z3.If(s.n < n, s.n, n)
        return IterSpec(('zip',) + tuple(i.tag for i in its), n, lambda I, k: tuple(i.elem(I, k) for i in its),
                        base=its[0].base)
    raise Undecided('zip of mixed iterables')


@bi('reversed')
def _reversed(I, x):
    it = I.iterate(x)
    if isinstance(it, list):
        return ListVal(it[::-1])
    if it.guard is not None:
        raise Undecided('reversed filtered')
    return IterSpec(('reversed', it.tag), it.n, lambda I, k: it.elem(I, it.n - 1 - k), base=it.base)


@bi('list')
def _list(I, x=()):
    it = I.iterate(x) if not (isinstance(x, tuple) and not x) else []
    if isinstance(it, list):
        return ListVal(it)
    return _freeze(I, it)


@bi('tuple')
def _tuple(I, x=()):
    it = I.iterate(x)
    if isinstance(it, list):
        return tuple(it)
    return _freeze(I, it)


def _freeze(I, it):
    if hasattr(it.base, 'frozen'):
        return it.base.frozen(I)
    if it.base is not None and isinstance(it.base, (SymSeq, CompSeq)) and it.tag == it.base.tag:
        return it.base
    if it.guard is None:
        return SymSeq(it.tag, it.n, it.elem)
    raise Undecided('list() of filtered iteration')


@bi('set')
def _set(I, x=()):
    it = I.iterate(x)
    if not isinstance(it, list):
        return _symset(I, it)
    s = SetVal()
    for e in it:
        if not I.branch(I.contains(s, e)):
            s.items.append(e)
    return s


def _symset(I, it):
    if 'set' in I.ghost:
        return I.ghost['set'](I, it)
    raise Undecided('set of symbolic iterable')


BUILTINS['frozenset'] = BUILTINS['set']


@bi('dict')
def _dict(I, x=None, **kw):
    d = DictVal()
    if x is not None:
        if isinstance(x, DictVal):
            d.pairs = list(x.pairs)
        else:
            it = I.iterate(x)
            if not isinstance(it, list):
                return SymDict(it.tag, it.n, lambda I, k: it.elem(I, k)[0], lambda I, k: it.elem(I, k)[1], it.guard)
            for p in it:
                a, b = I.to_items(p)
                I.setitem(d, a, b)
    for k, v in kw.items():
        I.setitem(d, k, v)
    return d


@bi('sorted')
def _sorted(I, x, key=None, reverse=False):
    if isinstance(x, Model) and hasattr(x, 'sorted'):
        return x.sorted(I, key, reverse)
    it = I.iterate(x)
    if not isinstance(it, list):
        h = I.ghost.get('sorted')
        if h is not None:
            return h(I, it, key, reverse)
        raise Undecided('sorted of symbolic iterable')
    # insertion sort, branching on comparisons
    out = []
    for e in it:
        ke = I.call(key, [e]) if key else e
        i = len(out)
        while i > 0 and I.branch(zb(I.less(ke, out[i - 1][0]))):
            i -= 1
        out.insert(i, (ke, e))
    r = [e for _, e in out]
    return ListVal(r[::-1] if reverse else r)


def zb(x): return x


@bi('min')
def _min(I, *a, key=None, default=None):
    return _minmax(I, a, key, True, default)


@bi('max')
def _max(I, *a, key=None, default=None):
    return _minmax(I, a, key, False, default)


def _minmax(I, a, key, mn, default):
    xs = list(a) if len(a) > 1 else I.iterate(a[0])
    if not isinstance(xs, list):
        h = I.ghost.get('minmax')
        if h is not None:
            return h(I, xs, key, mn)
        raise Undecided('min/max of symbolic iterable')
    if not xs:
        if default is not None:
            return default
        I.raise_('ValueError')
    if key is None and all(is_num(x) for x in xs) and any(is_sym(x) for x in xs):
        ints = all(is_intlike(x) for x in xs)
        c = zint if ints else zreal
        r = c(xs[0])
        for x in xs[1:]:
            y = c(x)
            r = z3.If(y < r, y, r) if mn else z3.If(y > r, y, r)
        return r
    best = xs[0]
    kb = I.call(key, [best]) if key else best
    for x in xs[1:]:
        kx = I.call(key, [x]) if key else x
        if I.branch(I.less(kx, kb) if mn else I.less(kb, kx)):
            best, kb = x, kx
    return best


@bi('sum')
def _sum(I, x, start=0):
    it = I.iterate(x)
    if isinstance(it, list):
        r = start
        for e in it:
            r = I.binop('Add', r, e)
        return r
    # unbounded: a fold contract
    spec = I.find_spec(it)
    if spec is None or not hasattr(spec, 'fold'):
        h = I.ghost.get('sum')
        if h is not None:
            return h(I, it, start)
        raise Undecided(f'sum over {it.tag} without a contract')
    return spec.fold(I, it, start)


@bi('abs')
def _abs(I, x):
    if is_sym(x):
        return z3.If(x >= 0, x, -x)
    return abs(x)


@bi('any')
def _any(I, x):
    it = I.iterate(x)
    if isinstance(it, list):
        return any(I.truth(e) for e in it)
    j = z3.Int('j?any')
    b = I.pure_bool(lambda: it.elem(I, j))
    g = it.guard(I, j) if it.guard else z3.BoolVal(True)
    return z3.Exists([j], z3.And(j >= 0, j < it.n, g, b))


@bi('all')
def _all(I, x):
    it = I.iterate(x)
    if isinstance(it, list):
        return all(I.truth(e) for e in it)
    j = z3.Int('j?all')
    b = I.pure_bool(lambda: it.elem(I, j))
    g = it.guard(I, j) if it.guard else z3.BoolVal(True)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < it.n, g), b))


@bi('map')
def _map(I, f, x, *more):
    it = I.iterate(x)
    its = [it] + [I.iterate(m) for m in more]
    if all(isinstance(i, list) for i in its):
        return ListVal([I.call(f, list(t)) for t in zip(*its)])
    if more:
        raise Undecided('map of several symbolic iterables')
    return IterSpec(('map', it.tag), it.n, lambda I, k: I.call(f, [it.elem(I, k)]), base=None, guard=it.guard)


@bi('filter')
def _filter(I, f, x):
    it = I.iterate(x)
    if isinstance(it, list):
        return ListVal([e for e in it if I.truth(I.call(f, [e]) if f is not None else e)])
    base = _Filtered(I, it, f)
    return base


class _Filtered(CompSeq):
    def __init__(self, I, it, f):
        Model.__init__(self)
        self.since = I.clock
        self.it, self.f = it, f
        self.tag = ('filter', it.tag)

    def filtered(self): return True

    def cond(self, I, k):
        def th():
            if self.it.guard is not None and not I.branch(self.it.guard(I, k)):
                return False
            return I.truth(I.call(self.f, [self.it.elem(I, k)]) if self.f is not None else self.it.elem(I, k))
        return I.pure_bool(th)

    def at(self, I, k): return self.it.elem(I, k)


@bi('str')
def _str(I, x=''):
    return I.to_str(x)


@bi('repr')
def _repr(I, x=''):
    return StrCat([Fmt(x, 'repr')])


@bi('bytes')
def _bytes(I, x=b''):
    if isinstance(x, bytes):
        return x
    h = I.ghost.get('bytes')
    if h is not None:
        return h(I, x)
    raise Undecided(f'bytes of {x!r}')


@bi('int')
def _int(I, x=0, base=None):
    if base is not None:
        if isinstance(x, str) and isinstance(base, int):
            try:
                return int(x, base)
            except ValueError:
                I.raise_('ValueError')
        h = I.ghost.get('int_base')
        if h is not None:
            return h(I, x, base)
        raise Undecided(f'int of {x!r} to a base')
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return int(x)
    if is_sym(x):
        if x.sort() == z3.IntSort():
            return x
        if x.sort() == z3.RealSort():
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            I.raise_('ValueError')
    h = I.ghost.get('int_of')
    if h is not None:
        return h(I, x)
    raise Undecided(f'int of {x!r}')


@bi('float')
def _float(I, x=0):
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if is_sym(x) and x.sort() in (z3.IntSort(), z3.RealSort()):
        return zreal(x)
    if isinstance(x, str):
        try:
            return Fraction(x)
        except ValueError:
            I.raise_('ValueError')
    h = I.ghost.get('float_of')
    if h is not None:
        return h(I, x)
    raise Undecided(f'float of {x!r}')


@bi('bool')
def _bool(I, x=False):
    return I.truth_expr(x)


@bi('round')
def _round(I, x, n=None):
    if isinstance(x, int) and n is None:
        return x
    h = I.ghost.get('round')
    if h is not None:
        return h(I, x, n)
    f = z3.Function(f'round_{n}', z3.RealSort(), z3.RealSort())
    return f(zreal(x))


@bi('print')
def _print(I, *a, **k):
    return None


@bi('isinstance')
def _isinstance(I, x, c):
    return I.isinstance_(x, c)


def isinstance_(I, x, c):
    if isinstance(c, tuple):
        return I.disj([isinstance_(I, x, y) for y in c])
    if isinstance(c, Builtin):
        n = c.name
        if n == 'bool':
            return isinstance(x, bool) or (is_sym(x) and x.sort() == z3.BoolSort())
        if n == 'int':
            return isinstance(x, int) or (is_sym(x) and x.sort() in (z3.IntSort(), z3.BoolSort()))
        if n == 'float':
            return isinstance(x, Fraction) or (is_sym(x) and x.sort() == z3.RealSort())
        if n == 'str':
            return isinstance(x, (str, StrCat)) or (is_sym(x) and x.sort().kind() == z3.Z3_UNINTERPRETED_SORT)
        if n == 'list':
            return isinstance(x, (ListVal, SymSeq, CompSeq))
        if n == 'tuple':
            return isinstance(x, tuple)
        if n == 'dict':
            return isinstance(x, (DictVal, SymDict))
        if isinstance(x, Model):
            r = x.isinst(I, n)
            if r is not None:
                return r
    if isinstance(c, ClassVal):
        if isinstance(x, Obj):
            return isinstance(x.cls, ClassVal) and x.cls.subclass_of(c)
        if isinstance(x, EnumMember):
            return x.cls.subclass_of(c)
        if isinstance(x, Model):
            r = x.isinst(I, c.name)
            if r is not None:
                return r
        return False
    if isinstance(c, External):
        if isinstance(x, Model):
            r = x.isinst(I, c.dotted)
            if r is not None:
                return r
        if isinstance(x, Obj):
            return x.cls.subclass_of(c) if isinstance(x.cls, ClassVal) else False
        if x is None or isinstance(x, (str, StrCat, bool, int, Fraction, ListVal, DictVal, tuple)) or is_sym(x):
            return False        # a plain value (symbolic names are strings)
    raise Undecided(f'isinstance({x!r}, {c!r})')


from . import engine as _e  # noqa: E402
_e.Interp.isinstance_ = isinstance_


@bi('issubclass')
def _issubclass(I, c, p):
    if isinstance(p, tuple):
        return any(_issubclass(I, c, x) for x in p)
    if isinstance(c, ClassVal):
        if isinstance(p, ClassVal):
            return c.subclass_of(p)
        if isinstance(p, External):
            return c.subclass_of(p)
    raise Undecided('issubclass')


@bi('hasattr')
def _hasattr(I, o, n):
    if isinstance(o, Obj):
        return n in o.fields or (isinstance(o.cls, ClassVal) and o.cls.mro_attr(n) is not None)
    if isinstance(o, ClassVal):
        return o.mro_attr(n) is not None
    if isinstance(o, Model):
        if hasattr(o, 'has_attr'):
            return o.has_attr(I, n)
        return hasattr(o, 'm_' + n) or hasattr(o, 'a_' + n)
    raise Undecided('hasattr')


@bi('getattr')
def _getattr(I, o, n, *d):
    return I.getattr(o, n, *(d[:1]))


@bi('callable')
def _callable(I, o): return isinstance(o, (FunctionVal, BoundMethod, Builtin, ClassVal))


@bi('id')
def _id(I, o):
    if isinstance(o, HeapVal):
        return o.oid
    raise Undecided('id')


@bi('hash')
def _hash(I, o): raise Undecided('hash')


@bi('next')
def _next(I, it, *d):
    x = I.iterate(it)
    if isinstance(x, list):
        if x:
            return x[0]
        if d:
            return d[0]
        I.raise_('StopIteration')
    base = it if isinstance(it, CompSeq) else None
    if base is not None:
        try:
            return base.getitem(I, 0)
        except _e.PyRaise:
            if d:
                return d[0]
            I.raise_('StopIteration')
    raise Undecided('next of symbolic iterable')


@bi('iter')
def _iter(I, x): return x


@bi('super')
def _super(I, *a): raise Undecided('super with arguments')


@bi('open')
def _open(I, *a, **k):
    h = I.ghost.get('open')
    if h is None:
        raise Undecided('open without a file model')
    if not I.ghost.get('encodings'):        # the file models are of text files in UTF-8 (or what the platform uses) with the usual line ends
        enc = k.get('encoding', a[3] if len(a) > 3 else None)
        if enc is not None and (not isinstance(enc, str) or enc.lower().replace('_', '-') not in ('utf-8', 'utf8')) \
                or k.get('errors', a[4] if len(a) > 4 else None) not in (None, 'strict') or k.get('newline', a[5] if len(a) > 5 else None) not in (None, '\n') \
                or set(k) - {'file', 'mode', 'buffering', 'encoding', 'errors', 'newline'}:
            raise Undecided('open with a special encoding or line ends')
    return h(I, *a, **k)


@bi('type')
def _type(I, x):
    if isinstance(x, Obj):
        return x.cls
    raise Undecided('type()')


@bi('object')
def _object(I): return Obj(ClassVal('object', None, None, None))


# ---------------------------------------------------------------- library
@ext('copy.deepcopy')
def _deepcopy(I, x):
    memo = {}

    def cp(v):
        if isinstance(v, HeapVal) and id(v) in memo:
            return memo[id(v)]
        if isinstance(v, ListVal):
            r = ListVal()
            memo[id(v)] = r
            r.items = [cp(i) for i in v.items]
            return r
        if isinstance(v, DictVal):
            r = DictVal(default=v.default)
            memo[id(v)] = r
            r.pairs = [(cp(a), cp(b)) for a, b in v.pairs]
            return r
        if isinstance(v, tuple):
            return tuple(cp(i) for i in v)
        if isinstance(v, Obj):
            r = Obj(v.cls)
            memo[id(v)] = r
            r.fields = {k: cp(f) for k, f in v.fields.items()}
            return r
        if isinstance(v, Model):
            if hasattr(v, 'deepcopy'):
                r = v.deepcopy(I, cp)
                memo[id(v)] = r
                return r
            if isinstance(v, (SymSeq, CompSeq)):
                return v
            raise Undecided(f'deepcopy of {v.kind}')
        return v
    return cp(x)


@ext('copy.copy')
def _copy(I, x):
    if isinstance(x, ListVal):
        return ListVal(x.items)
    if isinstance(x, DictVal):
        return DictVal(x.pairs, x.default)
    if isinstance(x, Obj):
        return Obj(x.cls, x.fields)
    if isinstance(x, Model) and hasattr(x, 'copy'):
        return x.copy(I)
    raise Undecided('copy.copy')


@ext('collections.defaultdict')
def _defaultdict(I, factory=None, *a):
    h = I.ghost.get('defaultdict')
    if h is not None:
        r = h(I, factory)
        if r is not None:
            return r
    return DictVal(default=factory)


EXT_DEFAULT['math.pi'] = z3.Real('pi')
EXT_DEFAULT['math.inf'] = Inf(1)
ATAN = z3.Function('atan', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


@ext('math.atan')
def _atan(I, x): return ATAN(zreal(x))


@ext('math.sqrt')
def _sqrt(I, x):
    x = zreal(x)
    I.guard(x >= 0, 'ValueError')
    I.assume(SQRT(x) >= 0, SQRT(x) * SQRT(x) == x)
    return SQRT(x)


@ext('math.floor')
def _floor(I, x):
    if isinstance(x, (int, Fraction)):
        import math
        return math.floor(x)
    return z3.ToInt(zreal(x))


@ext('math.ceil')
def _ceil(I, x):
    if isinstance(x, (int, Fraction)):
        import math
        return math.ceil(x)
    return -z3.ToInt(-zreal(x))


@ext('math.isclose')
def _isclose(I, *a, **k): raise Undecided('isclose')


@ext('functools.reduce')
def _reduce(I, f, x, *init):
    it = I.iterate(x)
    if not isinstance(it, list):
        h = I.ghost.get('reduce')
        if h is not None:
            return h(I, f, it, *init)
        raise Undecided('reduce over symbolic iterable')
    xs = list(init) + it
    r = xs[0]
    for y in xs[1:]:
        r = I.call(f, [r, y])
    return r


for _m in ('os.path.join', 'os.path.basename', 'os.path.dirname', 'os.path.abspath', 'os.path.exists', 'os.path.splitext'):
    def _mk(m):
        def f(I, *a, **k):
            if all(isinstance(x, str) for x in a) and m in ('os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.join'):
                import os.path
                return getattr(os.path, m.split('.')[-1])(*a)
            if m == 'os.path.join':
                out = [a[0]]
                for x in a[1:]:
                    out += ['/', x]
                return strcat(*out)
            return StrCat([Fmt(tuple(a), m)])
        return f
    EXT_DEFAULT[_m] = Builtin(_m, (lambda g: lambda I, a, k: g(I, *a, **k))(_mk(_m)))


@ext('time.time')
def _time(I): return I.fresh('time', z3.RealSort())


for _t in ('typing.cast',):
    EXT_DEFAULT[_t] = Builtin(_t, lambda I, a, k: a[1])


# ---------------------------------------------------------------- methods of built-in types
class METHODS:
    @staticmethod
    def list(I, o, name):
        def b(f): return Builtin('list.' + name, lambda I, a, k: f(*a, **k))
        if name == 'append':
            def f(x):
                I.note_write(o)
                o.items.append(x)
            return b(f)
        if name == 'extend':
            def f(x):
                I.note_write(o)
                o.items += I.to_items(x)
            return b(f)
        if name == 'insert':
            def f(i, x):
                I.note_write(o)
                if not isinstance(i, int):
                    raise Undecided('list.insert')
                o.items.insert(i, x)
            return b(f)
        if name == 'pop':
            def f(i=-1):
                I.note_write(o)
                if not isinstance(i, int):
                    raise Undecided('list.pop')
                try:
                    return o.items.pop(i)
                except IndexError:
                    I.raise_('IndexError')
            return b(f)
        if name == 'remove':
            def f(x):
                I.note_write(o)
                for i, e in enumerate(o.items):
                    if I.branch(I.eq(e, x)):
                        del o.items[i]
                        return
                I.raise_('ValueError')
            return b(f)
        if name == 'reverse':
            def f():
                I.note_write(o)
                o.items.reverse()
            return b(f)
        if name == 'index':
            def f(x):
                for i, e in enumerate(o.items):
                    if I.branch(I.eq(e, x)):
                        return i
                I.raise_('ValueError')
            return b(f)
        if name == 'count':
            def f(x):
                return sum(1 for e in o.items if I.branch(I.eq(e, x)))
            return b(f)
        if name == 'copy':
            return b(lambda: ListVal(o.items))
        if name == 'clear':
            def f():
                I.note_write(o)
                o.items.clear()
            return b(f)
        if name == 'sort':
            def f(key=None, reverse=False):
                r = BUILTINS['sorted'].fn(I, [o], {'key': key, 'reverse': reverse})
                I.note_write(o)
                o.items = r.items
            return b(f)
        raise Undecided(f'list.{name}')

    @staticmethod
    def dict(I, o, name):
        def b(f): return Builtin('dict.' + name, lambda I, a, k: f(*a, **k))
        if name == 'get':
            def f(k, d=None):
                for kk, vv in o.pairs:
                    if I.branch(I.eq(kk, k)):
                        return vv
                return d
            return b(f)
        if name == 'items':
            return b(lambda: ListVal([(k, v) for k, v in o.pairs]))
        if name == 'keys':
            return b(lambda: ListVal([k for k, v in o.pairs]))
        if name == 'values':
            return b(lambda: ListVal([v for k, v in o.pairs]))
        if name == 'setdefault':
            def f(k, d=None):
                for kk, vv in o.pairs:
                    if I.branch(I.eq(kk, k)):
                        return vv
                I.note_write(o)
                o.pairs.append((k, d))
                return d
            return b(f)
        if name == 'pop':
            def f(k, *d):
                for i, (kk, vv) in enumerate(o.pairs):
                    if I.branch(I.eq(kk, k)):
                        I.note_write(o)
                        del o.pairs[i]
                        return vv
                if d:
                    return d[0]
                I.raise_('KeyError')
            return b(f)
        if name == 'update':
            def f(x=None, **kw):
                if x is not None:
                    if not isinstance(x, DictVal):
                        raise Undecided('dict.update of symbolic')
                    for kk, vv in x.pairs:
                        I.setitem(o, kk, vv)
                for kk, vv in kw.items():
                    I.setitem(o, kk, vv)
            return b(f)
        if name == 'copy':
            return b(lambda: DictVal(o.pairs, o.default))
        if name == 'clear':
            def f():
                I.note_write(o)
                o.pairs.clear()
            return b(f)
        raise Undecided(f'dict.{name}')

    @staticmethod
    def set(I, o, name):
        def b(f): return Builtin('set.' + name, lambda I, a, k: f(*a, **k))
        if name == 'add':
            def f(x):
                if not I.branch(I.contains(o, x)):
                    I.note_write(o)
                    o.items.append(x)
            return b(f)
        if name in ('remove', 'discard'):
            def f(x):
                for i, e in enumerate(o.items):
                    if I.branch(I.eq(e, x)):
                        I.note_write(o)
                        del o.items[i]
                        return
                if name == 'remove':
                    I.raise_('KeyError')
            return b(f)
        raise Undecided(f'set.{name}')

    @staticmethod
    def str(I, o, name):
        def b(f): return Builtin('str.' + name, lambda I, a, k: f(*a, **k))
        if isinstance(o, str):
            if name == 'join':
                def f(x):
                    xs = I.iterate(x)
                    if not isinstance(xs, list):
                        h = I.ghost.get('join')
                        if h is not None:
                            return h(I, o, xs)
                        raise Undecided('join of symbolic iterable')
                    out = []
                    for i, e in enumerate(xs):
                        if i:
                            out.append(o)
                        out.append(e)
                    return strcat(*out)
                return b(f)
            if name == 'format':
                return b(lambda *a, **k: StrCat([Fmt(tuple(a), o)]))

            def f(*a, **k):
                if not all(isinstance(x, (str, int, tuple)) or x is None for x in a):
                    h = I.ghost.get('strmethod')
                    if h is not None:
                        return h(I, o, name, a, k)
                    raise Undecided(f'str.{name} with symbolic argument')
                r = getattr(o, name)(*a, **k)
                return ListVal(r) if isinstance(r, list) else r
            if hasattr(o, name):
                return b(f)
            I.raise_('AttributeError')
        if name == 'startswith' and isinstance(o, StrCat):
            def f(p):
                if isinstance(p, str) and isinstance(o.parts[0], str):
                    if len(o.parts[0]) >= len(p):
                        return o.parts[0].startswith(p)
                    if not p.startswith(o.parts[0]):
                        return False
                raise Undecided('startswith on a symbolic string')
            return b(f)
        h = I.ghost.get('strmethod')
        if h is not None:
            return Builtin('str.' + name, lambda I, a, k: h(I, o, name, a, k))
        raise Undecided(f'str.{name} on a symbolic string')
