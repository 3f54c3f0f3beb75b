"""pyvc -- a deductive verifier for the Python of /repo (see /verif/DESIGN.md).

The real source text of /repo is parsed (``ast``) on every run and executed symbolically, function by function, on
values that stand for *all* values.  A contract (``contracts/*.py``) supplies a symbolic pre-state and the requires,
calls the real function, and states the ensures; loops over collections or ranges of unknown length are cut by loop
invariants (init / preservation / frame obligations, then the invariant is all that is known after the loop).
Every obligation is sent to z3 (cvc5 as second back end).  Nothing is bounded unless a contract says so.

Direct-style interpreter, paths enumerated by re-execution under a decision prefix.
"""
import ast, os, time, hashlib
from fractions import Fraction
import z3

REPO = os.environ.get('VERIF_REPO', '/repo')


class Undecided(Exception):
    """construct outside the verified subset, or an invariant that does not fit this shape of code"""


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc            # ExcVal
        super().__init__(repr(exc))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


_oid = [0]


class HeapVal:
    """anything mutable: carries a creation stamp (oid)"""
    def __init__(self):
        _oid[0] += 1
        self.oid = _oid[0]


class Unbound:
    def __repr__(self): return '<unbound>'


UNBOUND = Unbound()


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self): return f'{self.cls}'


class Env:
    __slots__ = ('vars', 'parent', 'module', 'nonlocals', 'declared_global')

    def __init__(self, parent, module):
        self.vars, self.parent, self.module, self.nonlocals, self.declared_global = {}, parent, module, set(), frozenset()

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return None

    def has(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return True
            e = e.parent
        return False


class FunctionVal:
    def __init__(self, node, module, env, defaults, kwdefaults, owner=None, qual=None):
        self.node, self.module, self.env = node, module, env
        self.defaults, self.kwdefaults, self.owner, self.qual = defaults, kwdefaults, owner, qual

    def __repr__(self): return f'<fn {self.qual}>'


class BoundMethod:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self): return f'<builtin {self.name}>'


class ModuleVal:
    def __init__(self, path, dotted):
        self.path, self.dotted = path, dotted
        self.globals = {}
        self.defs = {}


class External:
    """a name of a module that is not part of /repo; calling it needs a model (assumed contract)"""
    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self): return f'<ext {self.dotted}>'

    def __eq__(self, o): return isinstance(o, External) and o.dotted == self.dotted

    def __hash__(self): return hash(self.dotted)


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self): return f'{self.cls.name}.{self.name}'


class ClassVal:
    def __init__(self, name, node, module, env):
        self.name, self.node, self.module, self.env = name, node, module, env
        self.attrs = {}
        self.bases = []
        self.dataclass = False
        self.frozen = False
        self.fields = []          # (name, default or None, factory or None)
        self.is_enum = False
        self.str_enum = False
        self.members = {}

    def mro_attr(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.mro_attr(n)
                if r is not None:
                    return r
        return None

    def subclass_of(self, other):
        if self is other:
            return True
        return any(isinstance(b, ClassVal) and b.subclass_of(other) for b in self.bases) or \
            any(isinstance(b, External) and isinstance(other, External) and b.dotted == other.dotted for b in self.bases)

    def __repr__(self): return f'<class {self.name}>'


class Obj(HeapVal):
    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls, self.fields = cls, dict(fields or {})

    def __repr__(self): return f'<{self.cls.name if hasattr(self.cls, "name") else self.cls} obj>'


class ListVal(HeapVal):
    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)

    def __repr__(self): return f'L{self.items}'


class DictVal(HeapVal):
    """concrete number of entries; keys may be symbolic (lookups branch)"""
    def __init__(self, pairs=(), default=None):
        super().__init__()
        self.pairs = list(pairs)
        self.default = default

    def __repr__(self): return f'D{self.pairs}'


class SetVal(HeapVal):
    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)


class Model(HeapVal):
    """base class for models of external things and of collections of unknown size"""
    kind = 'Model'

    def getattr(self, I, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            return Builtin(name, lambda I, a, k: m(I, *a, **k))
        a = getattr(self, 'a_' + name, None)
        if a is not None:
            return a(I)
        d = {'__getitem__': 'getitem', '__setitem__': 'setitem', '__delitem__': 'delitem', '__len__': 'length',
             '__contains__': 'contains', '__iter__': 'iterate'}.get(name)
        if d is not None:
            return Builtin(name, lambda I, a, k: getattr(self, d)(I, *a))
        raise Undecided(f'model {self.kind} has no attribute {name}')

    def setattr(self, I, name, v): raise Undecided(f'model {self.kind}: set {name}')
    def getitem(self, I, k): raise Undecided(f'model {self.kind}: getitem')
    def setitem(self, I, k, v): raise Undecided(f'model {self.kind}: setitem')
    def delitem(self, I, k): raise Undecided(f'model {self.kind}: delitem')
    def collection(self):
        """stands for a list, dict or set: its truth and equality are those of what is in it"""
        c = type(self)
        return c.length is not Model.length or c.iterate is not Model.iterate or c.contains is not Model.contains or \
            any(hasattr(self, 'm_' + x) for x in ('append', 'extend', 'add', 'update', 'items', 'setdefault'))

    def truth(self, I):
        if not self.collection():
            return True
        n = self.length(I)
        return n != 0
    def contains(self, I, x): raise Undecided(f'model {self.kind}: in')
    def iterate(self, I): raise Undecided(f'model {self.kind}: iteration')
    def binop(self, I, op, other, refl): raise Undecided(f'model {self.kind}: {op}')
    def inplace(self, I, op, other): return self.binop(I, op, other, False)
    def length(self, I): raise Undecided(f'model {self.kind}: len')

    def eq(self, I, other):
        if self is other or not self.collection():
            return self is other
        raise Undecided(f'model {self.kind}: comparison')

    def isinst(self, I, dotted): return None
    def snapshot(self): return None
    def restore(self, s): pass


class SymSeq(Model):
    """immutable sequence of unknown length: length is a z3 Int (>= 0 assumed by the creator), get(I, i) a value"""
    kind = 'SymSeq'

    def __init__(self, tag, n, get, concrete=None):
        super().__init__()
        self.tag, self.n, self.get = tag, n, get

    def __repr__(self): return f'<seq {self.tag}>'
    def length(self, I): return self.n
    def truth(self, I): return self.n > 0

    def getitem(self, I, k):
        if isinstance(k, slice):
            return seq_slice(I, self, k, self.n, self.get)
        k = py_index(I, k, self.n)
        return self.get(I, k)

    def iterate(self, I): return IterSpec(self.tag, self.n, lambda I, i: self.get(I, i), base=self)

    def m_items(self, I): raise Undecided('items of seq')


def py_index(I, k, n):
    """index of Python semantics (negative counts from the end), checked"""
    if isinstance(k, bool) or not (isinstance(k, int) or is_sym(k)):
        raise Undecided(f'index {k!r}')
    if isinstance(k, int):
        k = n + k if k < 0 else z3.IntVal(k)
    elif not I.branch(k >= 0):
        k = k + n
    I.guard(z3.And(zint(k) >= 0, zint(k) < n), 'IndexError')
    return zint(k)


def seq_slice(I, seq, k, n, get):
    """seq[a:b] of a sequence of unknown length"""
    if k.step not in (None, 1):
        if k.step == -1 and k.start is None and k.stop is None:
            return SymSeq(('reversed', seq.tag), n, lambda I, i: get(I, n - 1 - i))
        raise Undecided('slice step')

    def norm(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, int):
            if x >= 0:
                return z3.If(n < x, n, z3.IntVal(x))
            return z3.If(n + x < 0, z3.IntVal(0), n + x)
        x = z3.If(x < 0, x + n, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    a, b = norm(k.start, z3.IntVal(0)), norm(k.stop, n)
    m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    if isinstance(k.start, int) and k.start >= 0 and k.stop is None and I.pure_depth == 0:
        if not I.branch(n >= k.start):
            return SymSeq(('from', k.start, seq.tag), z3.IntVal(0), lambda I, i: get(I, i))
        a, m = z3.IntVal(k.start), n - k.start
    return SymSeq(('from', k.start, seq.tag) if k.stop is None and isinstance(k.start, int) else ('slice', seq.tag), m, lambda I, i: get(I, z3.simplify(a + i)))


class IterSpec:
    """an iteration of unknown length: tag for loop specs, number of steps n, elem(I, i)"""
    words = None      # for the cells of text split at single blanks: how many are non-empty (see CompSeq.as_words)

    def __init__(self, tag, n, elem, base=None, guard=None):
        self.tag, self.n, self.elem, self.base, self.guard = tag, n, elem, base, guard


class StrCat:
    """string built from parts, some symbolic"""
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrCat):
                for q in p.parts:
                    if out and isinstance(out[-1], str) and isinstance(q, str):
                        out[-1] += q
                    else:
                        out.append(q)
            elif isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif isinstance(p, str) and p == '':
                continue
            else:
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self): return f'S{self.parts}'


def strcat(*parts):
    s = StrCat(parts)
    if len(s.parts) == 0:
        return ''
    if len(s.parts) == 1 and (isinstance(s.parts[0], str)):
        return s.parts[0]
    return s


class Fmt:
    """text of a value (str()/format of something symbolic): an injective-unknown function of the value"""
    def __init__(self, v, spec):
        self.v, self.spec = v, spec

    def __repr__(self): return f'Fmt({self.v},{self.spec})'


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Opaque:
    """a value nobody may look into (e.g. the result of an un-modelled pure call used only for logging)"""
    def __init__(self, why): self.why = why
    def __repr__(self): return f'<opaque {self.why}>'


def is_sym(v): return isinstance(v, z3.ExprRef)


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_sym(v) and v.sort() == z3.IntSort():
        return v
    raise Undecided(f'int expected: {v!r}')


def zreal(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, (int, Fraction)):
        f = Fraction(v)
        return z3.Q(f.numerator, f.denominator)
    if is_sym(v):
        if v.sort() == z3.RealSort():
            return v
        if v.sort() == z3.IntSort():
            return z3.ToReal(v)
    raise Undecided(f'number expected: {v!r}')


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_sym(v) and v.sort() == z3.BoolSort():
        return v
    raise Undecided(f'bool expected: {v!r}')


def is_num(v):
    return (isinstance(v, (int, Fraction))) or (is_sym(v) and v.sort() in (z3.IntSort(), z3.RealSort()))


def is_intlike(v):
    return isinstance(v, int) or (is_sym(v) and v.sort() == z3.IntSort())


class Obligation:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'formula', 'path', 'where')

    def __init__(self, name, status, backend, t, model, formula, path, where):
        self.name, self.status, self.backend, self.time = name, status, backend, t
        self.model, self.formula, self.path, self.where = model, formula, path, where


class LoopCtx:
    """what a loop spec may look at"""
    def __init__(self, I, env, it, assigned, written):
        self.I, self.env, self.it, self.assigned, self.written = I, env, it, assigned, written
        self.ghost = {}

    def local(self, n):
        v = self.env.lookup(n)
        if not self.env.has(n):
            raise Undecided(f'loop invariant names {n}, which the code does not have')
        return v

    def one_written(self, kind):
        c = [o for o in self.written if getattr(o, 'kind', type(o).__name__) == kind]
        if len(c) != 1:
            raise Undecided(f'loop spec expects exactly one written {kind}, found {len(c)}')
        return c[0]

    def opt_written(self, kind):
        c = [o for o in self.written if getattr(o, 'kind', type(o).__name__) == kind]
        if len(c) > 1:
            raise Undecided(f'loop spec expects at most one written {kind}, found {len(c)}')
        return c[0] if c else None

    def carried(self):
        """locals assigned in the body that were bound before the loop"""
        out = []
        for n in self.assigned:
            if self.env.has(n) and self.env.lookup(n) is not UNBOUND:
                out.append(n)
        return out

    def carried_num(self):
        return [n for n in self.carried() if is_num(self.env.lookup(n)) and not isinstance(self.env.lookup(n), bool)]

    def set_local(self, n, v):
        self.I.assign_name(n, v, self.env)


class LoopSpec:
    """override: match / havoc / inv / (optional) facts"""
    name = 'loop'

    def match(self, I, it): return False
    def pre(self, I, L): pass                  # remember the pre-loop state in L.ghost
    def havoc(self, I, L, k): pass             # give fresh values to carried locals / written objects
    def inv(self, I, L, k): return []          # [(name, formula)]
    def facts(self, I, L, k): return []        # unfoldings of spec functions at k (definitions)
    def elem_done(self, I, L, k, ctx): pass    # after the body at k (check per-iteration trace)
    def after(self, I, L): pass                # after the loop (trace bookkeeping)


_MODCACHE = {}


def parse_module(path):
    key = (path, os.stat(path).st_mtime_ns)
    if key not in _MODCACHE:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        _MODCACHE[key] = (ast.parse(src, path), src)
    return _MODCACHE[key]


def assigned_names(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ClassDef(self, n): out.add(n.name)
    for n in nodes:
        V().visit(n)
    return out


def drop_frame(frames, fr):
    for i in range(len(frames) - 1, -1, -1):
        if frames[i] is fr:
            del frames[i]
            return


class Interp:
    def __init__(self, timeout_ms=20000, max_paths=4000):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.ob_cache = {}
        self.feas_cache = {}
        self.loop_written = {}
        self.obligations = {}
        self.covers = {}
        self.externals = {}
        self.contracts = {}
        self.loop_specs = []
        self.functions_seen = {}
        self.contract_calls = {}
        self.solver_time = 0.0
        self.npaths = 0
        self.deadline = None

    # ------------------------------------------------------------ exploration
    def explore(self, harness):
        """runs harness(I) on every path; returns list of undecided reasons"""
        undecided = []
        for attempt in range(12):
            try:
                undecided = self._explore(harness)
                break
            except Restart:
                self.obligations.clear()
                self.ob_cache.clear()
                self.feas_cache.clear()
                self.covers.clear()
                continue
        else:
            undecided = ['write sets of the loops did not stabilise']
        if self.completed == 0:
            undecided = undecided + ['no path through the harness completes (vacuous contract)']
        if not self.obligations:
            undecided = undecided + ['no obligation generated']
        return list(dict.fromkeys(' '.join(u.split())[:300] for u in undecided))

    def _explore(self, harness):
        undecided = []
        stack = [[]]
        self.npaths = 0
        self.completed = 0
        while stack:
            prefix = stack.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                undecided.append('path limit')
                break
            if self.deadline and time.time() > self.deadline:
                undecided.append('time limit')
                break
            self._reset(prefix)
            try:
                harness(self)
                self.check_state()
                if not self.completed and self.path_feasible():
                    self.completed += 1
            except PathEnd:
                pass
            except Undecided as e:
                # an undecided construct on an infeasible path does not matter
                if self.path_feasible():
                    undecided.append(f'{e} [at {self.where()}]')
            except PyRaise as e:
                if self.path_feasible():
                    self.obligation('no uncaught exception', z3.BoolVal(False), note=f'{e.exc} at {self.raised_at}')
            except RecursionError:
                undecided.append('recursion')
            except Restart:
                raise
            except Exception as e:      # the code's result does not have the shape the contract looks at
                if os.environ.get('PYVC_DEBUG'):
                    import traceback
                    traceback.print_exc()
                undecided.append(f'{type(e).__name__}: {e} [at {self.where()}]')
            for alt in self.alts:
                stack.append(alt)
        return undecided

    def _reset(self, prefix):
        _oid[0] = 0
        self.prefix = list(prefix)
        self.decisions = []
        self.alts = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.fresh_n = 0
        self.ob_n = 0
        self.modules = {}
        self.cur_node = None
        self.cur_fn = []
        self.write_frames = []
        self.loop_stack = []
        self.raised_at = None
        self.quiet = 0
        self.loop_specs = []
        self.contracts = {}
        self.externals = {}
        self.ghost = {}
        self.pure_depth = 0
        self.pure_facts = []
        self.clock = 0
        self.lazy = None
        self.auto_loop = None
        self.static = []
        self.watched = {}

    # objects that serve many calls: what a method does must not depend on earlier calls, so none may write to the object
    STATELESS = {'ShapesConverter', 'TechInfo', 'KLayoutExtractionContext', 'RExtractor', 'RCX25Extractor', 'PEXEdgeNeighborhoodVisitor',
                 'PEXPolygonNeighborhoodVisitor', 'GeometryRestorer', 'FasterCapInputBuilder', 'ExtractionReporter', 'NetlistCSVWriter', 'NetlistReducer',
                 'NetlistExpander', 'RCX25NetlistExpander'}

    def check_state(self):
        for o, before, clock in self.watched.values():
            cached = {n for n, a in o.cls.attrs.items() if a[0] in ('cached_property', 'property')}
            for n, x in o.fields.items():
                if n not in cached and (n not in before or before[n] is not x or isinstance(x, (DictVal, ListVal, SetVal)) and getattr(x, 'wtime', 0) > clock):
                    raise Undecided(f'{n} of {o.cls.name} is written: what it does depends on earlier calls')

    def where(self):
        f = self.cur_fn[-1] if self.cur_fn else '?'
        ln = getattr(self.cur_node, 'lineno', '?')
        return f'{f}:{ln}'

    def choose(self, n):
        """n-way nondeterministic choice (explored exhaustively)"""
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                self.alts.append(self.decisions + [alt])
        self.decisions.append(d)
        return d

    def fresh(self, name, sort):
        if self.pure_depth:
            raise Undecided('fresh constant inside an expression evaluated under a quantifier')
        self.fresh_n += 1
        return z3.Const(f'{name}!{self.fresh_n}', sort)

    def fresh_like(self, v, name='h'):
        if isinstance(v, bool):
            return self.fresh(name, z3.BoolSort())
        if is_sym(v):
            return self.fresh(name, v.sort())
        if isinstance(v, int):
            return self.fresh(name, z3.IntSort())
        if isinstance(v, Fraction):
            return self.fresh(name, z3.RealSort())
        raise Undecided(f'cannot havoc {v!r}')

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, bool):
                if f:
                    continue
                f = z3.BoolVal(False)
            if self.pure_depth:
                self.pure_facts.append(f)
                self.solver.add(f)
                continue
            self.pc.append(f)
            self.solver.add(f)

    def _assume_branch(self, f):
        self.pc.append(f)
        self.solver.add(f)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def path_feasible(self):
        try:
            return self._check() != z3.unsat
        except z3.Z3Exception:
            return True

    def branch(self, cond):
        """truth of a condition on this path; forks when both are possible"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (tuple(self.decisions), len(self.pc), c.get_id())
        key = (tuple(self.decisions), len(self.pc), c.sexpr())
        r = self.feas_cache.get(key)
        if r is None:
            self.solver.set('timeout', 3000)
            t = self._check(c) != z3.unsat
            f = self._check(z3.Not(c)) != z3.unsat
            self.solver.set('timeout', self.timeout_ms)
            r = (t, f)
            self.feas_cache[key] = r
        if not r[0] and not r[1]:
            raise PathEnd()
        if not r[1]:
            return True
        if not r[0]:
            return False
        d = self.choose(2)
        if d == 0:
            self._assume_branch(c)
            return True
        self._assume_branch(z3.Not(c))
        return False

    # ------------------------------------------------------------ obligations
    def obligation(self, name, formula, note=None):
        if self.quiet:
            self.assume(formula)
            return True
        self.ob_n += 1
        key = (tuple(self.decisions), self.ob_n, name)
        ob = self.ob_cache.get(key)
        if ob is None:
            f = zbool(formula)
            t = time.time()
            status, backend, model = self.discharge(f)
            ob = Obligation(name, status, backend, time.time() - t, model, f.sexpr()[:2000],
                            list(self.decisions), (note or '') + ' ' + self.where())
            self.ob_cache[key] = ob
        self.obligations[key] = ob
        if self.covers.get(name) != 'sat':
            self.solver.set('timeout', 2000)
            c = str(self._check())
            self.solver.set('timeout', self.timeout_ms)
            if c == 'sat' or self.covers.get(name) in (None, 'unsat'):
                self.covers[name] = c
        self.assume(formula)
        return ob.status == 'discharged'

    prove = obligation

    def discharge(self, f):
        neg = z3.Not(f)
        r = self._check(neg)
        if r == z3.unsat:
            return 'discharged', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', self.model_text(self.solver.model())
        # second strategy: fresh solver
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.add(*self.pc)
        s.add(neg)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        if r == z3.unsat:
            return 'discharged', 'z3(fresh)', None
        if r == z3.sat:
            return 'refuted', 'z3(fresh)', self.model_text(s.model())
        st = self.cvc5(s)
        if st == 'unsat':
            return 'discharged', 'cvc5', None
        return 'unknown', 'z3,cvc5', s.reason_unknown()

    def cvc5(self, s):
        import subprocess, tempfile
        exe = os.environ.get('VERIF_CVC5', 'cvc5')
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
            t = time.time()
            p = subprocess.run([exe, '--lang=smt2', f'--tlimit={self.timeout_ms}', '-'], input=txt,
                               capture_output=True, text=True, timeout=self.timeout_ms / 1000 + 5)
            self.solver_time += time.time() - t
            return p.stdout.strip().split('\n')[0]
        except Exception as e:
            return f'error {e}'

    def model_text(self, m):
        out = []
        for d in m.decls():
            v = str(m[d])
            if len(v) < 200:
                out.append(f'{d.name()}={v}')
        return '; '.join(out[:60])

    # ------------------------------------------------------------ modules
    def module_path(self, dotted):
        p = os.path.join(REPO, *dotted.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def module(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        path = self.module_path(dotted)
        if path is None or dotted.startswith('klayout_pex_protobuf'):
            return External(dotted)
        tree, src = parse_module(path)
        m = ModuleVal(path, dotted)
        self.modules[dotted] = m
        pkg = dotted if path.endswith('__init__.py') else dotted.rsplit('.', 1)[0]
        m.pkg = pkg
        self._index(m, tree.body)
        return m

    def _index(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                m.defs[n.name] = n
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            m.defs[x.id] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = m.pkg.split('.')
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        m.defs.setdefault('*', []).append(base)
                    else:
                        m.defs[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, (ast.If, ast.Try)):
                self._index(m, n.body)

    def module_attr(self, m, name):
        if isinstance(m, External):
            return self.ext_attr(m, name)
        if name in m.globals:
            return m.globals[name]
        d = m.defs.get(name)
        if d is None:
            for base in m.defs.get('*', []):
                bm = self.module(base)
                if isinstance(bm, ModuleVal):
                    if name in bm.defs or self._star_has(bm, name):
                        return self.module_attr(bm, name)
                elif base in ('typing',):
                    continue
            sub = self.module_path(m.dotted + '.' + name)
            if sub:
                return self.module(m.dotted + '.' + name)
            return None
        if isinstance(d, tuple):
            if d[0] == 'import':
                v = self.module(d[1])
            else:
                bm = self.module(d[1])
                if isinstance(bm, External):
                    v = self.ext_attr(bm, d[2])
                else:
                    v = self.module_attr(bm, d[2])
                    if v is None:
                        v = self.module(d[1] + '.' + d[2])
        elif isinstance(d, ast.FunctionDef):
            v = self.shared(lambda: self.make_function(d, m, Env(None, m), None))
        elif isinstance(d, ast.ClassDef):
            v = self.shared(lambda: self.make_class(d, m, Env(None, m)))
        else:
            env = Env(None, m)
            v = self.shared(lambda: self.eval(d.value, env)) if d.value is not None else None
            if isinstance(d, ast.Assign) and not (len(d.targets) == 1 and isinstance(d.targets[0], ast.Name)):
                raise Undecided('module-level destructuring')
        m.globals[name] = v
        return v

    def _star_has(self, m, name):
        for base in m.defs.get('*', []):
            bm = self.module(base)
            if isinstance(bm, ModuleVal) and (name in bm.defs or self._star_has(bm, name)):
                return True
        return False

    def ext_attr(self, ext, name):
        dotted = f'{ext.dotted}.{name}'
        if dotted in self.externals:
            v = self.externals[dotted]
            return v
        if dotted in EXT_DEFAULT:
            return EXT_DEFAULT[dotted]
        return External(dotted)

    def repo(self, dotted, qual):
        m = self.module(dotted)
        if isinstance(m, External):
            raise Undecided(f'no module {dotted}')
        parts = qual.split('.')
        v = self.module_attr(m, parts[0])
        if v is None:
            raise Undecided(f'{dotted} has no {parts[0]}')
        for p in parts[1:]:
            if isinstance(v, ClassVal):
                v = v.mro_attr(p)
            else:
                v = None
            if v is None:
                raise Undecided(f'{dotted} has no {qual}')
            if isinstance(v, tuple) and v[0] == 'value' and isinstance(v[1], ClassVal):
                v = v[1]
        return v

    # ------------------------------------------------------------ functions and classes
    def shared(self, f):
        """evaluates what the module, class and default values hold: shared by all calls"""
        lo = _oid[0]
        v = f()
        if _oid[0] > lo:
            self.static.append((lo, _oid[0]))
        return v

    DECORATORS = {'staticmethod', 'classmethod', 'property', 'cached_property', 'setter', 'abstractmethod', 'override', 'final'}

    def make_function(self, node, module, env, owner):
        defaults = [self.eval(d, env) for d in node.args.defaults]
        kwd = {a.arg: (self.eval(d, env) if d is not None else None)
               for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults)}
        name = getattr(node, 'name', '<lambda>')
        q = (owner.name + '.' if owner else '') + name
        f = FunctionVal(node, module, env, defaults, kwd, owner, f'{module.dotted}:{q}')
        for d in getattr(node, 'decorator_list', ()):
            d = d.func if isinstance(d, ast.Call) else d
            n = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '')
            if n not in self.DECORATORS:
                f.decorated = n
        return f

    def make_class(self, node, module, env, outer=''):
        c = ClassVal(outer + node.name, node, module, env)
        for b in node.bases:
            c.bases.append(self.eval(b, env))
        bn = [b.dotted if isinstance(b, External) else '' for b in c.bases]
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            nm = t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')
            if nm == 'dataclass':
                c.dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == 'frozen':
                            c.frozen = bool(self.eval(k.value, env))
        if any(x in ('enum.Enum', 'enum.IntEnum', 'enum.StrEnum') for x in bn):
            c.is_enum = True
            c.str_enum = 'enum.StrEnum' in bn
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                fn = self.make_function(s, module, env, c)
                kind = 'method'
                for d in s.decorator_list:
                    nm = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '')
                    if nm in ('staticmethod', 'classmethod', 'property', 'cached_property', 'setter'):
                        kind = nm
                c.attrs[s.name] = (kind, fn)
            elif isinstance(s, ast.ClassDef):
                c.attrs[s.name] = ('value', self.make_class(s, module, env, outer + node.name + '.'))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if c.dataclass:
                    dflt = fac = None
                    has = False
                    if s.value is not None:
                        if isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', '') == 'field':
                            for k in s.value.keywords:
                                if k.arg == 'default_factory':
                                    fac = k.value
                                    has = True
                                elif k.arg == 'default':
                                    dflt = k.value
                                    has = True
                        else:
                            dflt = s.value
                            has = True
                    c.fields.append((s.target.id, dflt, fac, has))
                elif s.value is not None:
                    c.attrs[s.target.id] = ('value', self.eval(s.value, env))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if c.is_enum:
                            e2 = Env(env, module)
                            e2.vars.update({k: m.value for k, m in c.members.items()})
                            val = self.eval(s.value, e2)
                            mem = None
                            for o in c.members.values():
                                if o.value == val:
                                    mem = o
                            if mem is None:
                                mem = EnumMember(c, t.id, val)
                            c.members[t.id] = mem
                            c.attrs[t.id] = ('value', mem)
                        else:
                            e2 = Env(env, module)
                            for k, v in c.attrs.items():
                                if v[0] == 'value':
                                    e2.vars[k] = v[1]
                            c.attrs[t.id] = ('value', self.eval(s.value, e2))
        return c

    def get_class_attr(self, c, name, inst=None):
        a = c.mro_attr(name)
        if a is None:
            return None
        return a

    def instantiate(self, cls, args, kwargs):
        if cls.is_enum:
            for m in cls.members.values():
                e = self.eq(m.value, args[0])
                if self.branch(e):
                    return m
            self.raise_('ValueError')
        o = Obj(cls)
        init = cls.mro_attr('__init__')
        if init is not None:
            self.call(BoundMethod(init[1], o), args, kwargs)
        elif cls.dataclass:
            flds = self.all_fields(cls)
            pos = list(args)
            kw = dict(kwargs)
            if len(pos) > len(flds):
                self.raise_('TypeError')
            for i, (n, dflt, fac, has) in enumerate(flds):
                if i < len(pos):
                    o.fields[n] = pos[i]
                elif n in kw:
                    o.fields[n] = kw.pop(n)
                elif fac is not None:
                    o.fields[n] = self.call(self.eval(fac, cls.env), [], {})
                elif has:
                    o.fields[n] = self.eval(dflt, cls.env)
                else:
                    self.raise_('TypeError')
            if kw:
                self.raise_('TypeError')
            post = cls.mro_attr('__post_init__')
            if post is not None:
                self.call(BoundMethod(post[1], o), [], {})
        elif args or kwargs:
            raise Undecided(f'constructor of {cls.name}')
        return o

    def all_fields(self, cls):
        out = []
        for b in cls.bases:
            if isinstance(b, ClassVal):
                out += self.all_fields(b)
        return out + cls.fields

    # ------------------------------------------------------------ heap writes
    def note_write(self, o):
        if getattr(o, 'readonly', False):
            raise Undecided('write to an element of a lazily evaluated sequence')
        if any(lo < o.oid <= hi for lo, hi in self.static):
            raise Undecided('state shared by all calls is written')
        self.clock += 1
        o.wtime = self.clock
        for fr in self.write_frames:
            if o.oid <= fr['stamp']:
                fr['written'][o.oid] = o

    def touch(self, o):
        """an element of a lazily evaluated sequence must not depend on state written after the sequence was made"""
        if self.lazy is not None and getattr(o, 'wtime', 0) > self.lazy[0] and o.oid <= self.lazy[1]:
            raise Undecided('lazily evaluated sequence depends on state modified since')

    def lazily(self, since, thunk):
        """evaluate an element of a sequence made at clock ``since``"""
        save = self.lazy
        self.lazy = (since if save is None else min(since, save[0]) if False else since, _oid[0])
        first = _oid[0]
        try:
            v = thunk()
        finally:
            self.lazy = save
        self.mark_readonly(v, first)
        return v

    def mark_readonly(self, v, first, depth=0):
        if depth > 6:
            return
        if isinstance(v, (tuple, list)):
            for x in v:
                self.mark_readonly(x, first, depth + 1)
        elif isinstance(v, HeapVal) and v.oid > first:
            v.readonly = True
            if isinstance(v, Obj):
                for x in v.fields.values():
                    self.mark_readonly(x, first, depth + 1)
            elif isinstance(v, (ListVal, SetVal)):
                for x in v.items:
                    self.mark_readonly(x, first, depth + 1)
            elif isinstance(v, DictVal):
                for p in v.pairs:
                    self.mark_readonly(p, first, depth + 1)

    def snapshot_val(self, o):
        if isinstance(o, Obj):
            return dict(o.fields)
        if isinstance(o, (ListVal, SetVal)):
            return list(o.items)
        if isinstance(o, DictVal):
            return list(o.pairs)
        return o.snapshot()

    # ------------------------------------------------------------ exceptions
    def raise_(self, cls, *args):
        self.raised_at = self.where()
        raise PyRaise(ExcVal(cls, args))

    def guard(self, cond, exc):
        """the operation raises exc unless cond"""
        if isinstance(cond, bool):
            if not cond:
                self.raise_(exc)
            return
        if not self.branch(cond):
            self.raise_(exc)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self_] + list(args), kwargs) if not isinstance(f.fn, Builtin) \
                else f.fn.fn(self, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, ClassVal):
            key = f'{f.module.dotted}:{f.name}'
            if key in self.contracts:
                self.contract_calls[key] = self.contract_calls.get(key, 0) + 1
                return self.contracts[key](self, list(args), kwargs)
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, FunctionVal):
            if f.qual in self.contracts:
                self.contract_calls[f.qual] = self.contract_calls.get(f.qual, 0) + 1
                return self.contracts[f.qual](self, list(args), kwargs)
            if getattr(f, 'decorated', None):
                raise Undecided(f'{f.qual}: decorator {f.decorated}')
            if args and isinstance(args[0], Obj) and f.owner is not None and args[0].oid not in self.watched and f.node.name != '__init__' \
                    and getattr(args[0].cls, 'name', '').rsplit('.', 1)[-1] in self.STATELESS:
                o = args[0]
                self.watched[o.oid] = (o, dict(o.fields), self.clock)
            return self.call_function(f, list(args), kwargs)
        if isinstance(f, External):
            h = self.externals.get(f.dotted) or EXT_DEFAULT.get(f.dotted)
            if h is not None:
                return self.call(h, args, kwargs)
            raise Undecided(f'call of external {f.dotted} without a model')
        if isinstance(f, Model):
            return f.m_call(self, *args, **kwargs)
        if isinstance(f, tuple) and len(f) == 2 and f[0] in ('staticmethod', 'method', 'classmethod'):
            return self.call(f[1], args, kwargs)
        if isinstance(f, EnumMember) or f is None:
            self.raise_('TypeError')
        raise Undecided(f'call of {f!r}')

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = Env(f.env, f.module)
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        for i, n in enumerate(names):
            if i < len(args):
                env.vars[n] = args[i]
                if n in kwargs:
                    self.raise_('TypeError')
            elif n in kwargs:
                env.vars[n] = kwargs.pop(n)
            else:
                j = i - (len(names) - len(f.defaults))
                if j >= 0:
                    env.vars[n] = f.defaults[j]
                else:
                    self.raise_('TypeError')
        if len(args) > len(names):
            if a.vararg:
                env.vars[a.vararg.arg] = tuple(args[len(names):])
            else:
                self.raise_('TypeError')
        elif a.vararg:
            env.vars[a.vararg.arg] = ()
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env.vars[x.arg] = kwargs.pop(x.arg)
            else:
                env.vars[x.arg] = f.kwdefaults.get(x.arg)
        if a.kwarg:
            env.vars[a.kwarg.arg] = DictVal(list(kwargs.items()))
        elif kwargs:
            self.raise_('TypeError')
        return env

    def call_function(self, f, args, kwargs):
        if len(self.cur_fn) > 60:
            raise Undecided('call depth')
        env = self.bind(f, args, kwargs)
        if f.owner is not None:
            env.vars['__class__'] = f.owner
        self.functions_seen[f.qual] = self.functions_seen.get(f.qual, 0) + 1
        self.cur_fn.append(f.qual)
        saved = self.cur_node
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    raise Undecided('generator function')
            self.exec_block(f.node.body, env)
            return None
        except _Return as r:
            return r.v
        finally:
            self.cur_fn.pop()
            self.cur_node = saved

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.cur_node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided(f'statement {type(s).__name__}')
        m(s, env)

    def s_Pass(self, s, env): pass
    def s_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name.split('.')[0]] = self.module(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s, env):
        base = s.module or ''
        if s.level:
            parts = env.module.pkg.split('.')
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        bm = self.module(base)
        for a in s.names:
            env.vars[a.asname or a.name] = self.module_attr(bm, a.name)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Global(self, s, env): env.declared_global = env.declared_global | set(s.names)
    def s_Nonlocal(self, s, env): env.nonlocals.update(s.names)

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Undecided('decorated local function')
        f = self.make_function(s, env.module, env, None)
        f.qual = (self.cur_fn[-1] if self.cur_fn else env.module.dotted) + '.' + s.name
        env.vars[s.name] = f

    def s_ClassDef(self, s, env):
        env.vars[s.name] = self.make_class(s, env.module, env)

    def s_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env): raise _Break()
    def s_Continue(self, s, env): raise _Continue()

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            self.raise_('AssertionError')

    def s_Raise(self, s, env):
        if s.exc is None:
            self.raise_(getattr(self, 'handling', None) or 'Exception')
        v = s.exc
        name = None
        if isinstance(v, ast.Call):
            fv = self.eval(v.func, env)
            name = self.exc_name(fv)
        else:
            name = self.exc_name(self.eval(v, env))
        self.raise_(name)

    def exc_name(self, fv):
        if isinstance(fv, ExcVal):
            return fv.cls
        if isinstance(fv, ExcClass):
            return fv.name
        if isinstance(fv, External):
            return fv.dotted.split('.')[-1]
        if isinstance(fv, ClassVal):
            return fv.name
        if isinstance(fv, Builtin):
            return fv.name
        return str(fv)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            self.assign(t, self.inplace(op, cur, self.eval(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, cur, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_slice(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, cur, self.eval(s.value, env)))
        else:
            raise Undecided('augmented assignment target')

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval_slice(t.slice, env))
            else:
                raise Undecided('del target')

    def assign_name(self, n, v, env):
        e = env
        if n in e.declared_global:
            raise Undecided('assignment to a global')
        while n in e.nonlocals and e.parent is not None:
            e = e.parent
            while n not in e.vars and e.parent is not None:
                e = e.parent
        # comprehension / function environments: assignment goes to the innermost env
        e.vars[n] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.to_items(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                nafter = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, ListVal(items[i:len(items) - nafter]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - nafter:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                self.raise_('ValueError')
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_slice(t.slice, env), v)
        else:
            raise Undecided('assignment target')

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def s_With(self, s, env):
        exits = []
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if not isinstance(v, Model):
                raise Undecided('with on unmodelled object')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            if hasattr(v, 'on_exit'):
                exits.append(v)
        try:
            self.exec_block(s.body, env)
        except (PyRaise, _Return, _Break, _Continue):
            for v in reversed(exits):
                v.on_exit(self)
            raise
        for v in reversed(exits):
            v.on_exit(self)

    def s_Try(self, s, env):
        try:
            self.exec_block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.exc_matches(e.exc, self.eval(h.type, env)):
                    if h.name:
                        env.vars[h.name] = e.exc
                    prev = getattr(self, 'handling', None)
                    self.handling = e.exc.cls
                    try:
                        self.exec_block(h.body, env)
                    finally:
                        self.handling = prev
                    break
            else:
                self.exec_block(s.finalbody, env)
                raise
            self.exec_block(s.finalbody, env)
            return
        except (_Return, _Break, _Continue):
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.orelse, env)
        self.exec_block(s.finalbody, env)

    EXC_PARENT = {'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
                  'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
                  'FileNotFoundError': 'OSError', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
                  'Exception': 'BaseException'}

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        want = self.exc_name(t)
        c = exc.cls
        while c is not None:
            if c == want:
                return True
            if c == 'BaseException':
                return False
            c = self.EXC_PARENT.get(c, 'Exception')
        return False

    def s_Match(self, s, env):
        subj = self.eval(s.subject, env)
        for c in s.cases:
            if self.match_pat(c.pattern, subj, env):
                if c.guard is not None and not self.truth(self.eval(c.guard, env)):
                    continue
                self.exec_block(c.body, env)
                return

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            if isinstance(p.value, bool) and is_sym(v) and v.sort() == z3.BoolSort():
                return self.branch(v if p.value else z3.Not(v))
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, ListVal)) or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Undecided('sequence pattern')
            xs = list(v) if isinstance(v, tuple) else v.items
            return len(xs) == len(p.patterns) and all(self.match_pat(q, x, env) for q, x in zip(p.patterns, xs))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.assign_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.branch(self.isinstance_(v, self.eval(p.cls, env)))
        raise Undecided(f'match pattern {type(p).__name__}')

    # ------------------------------------------------------------ loops
    def s_For(self, s, env):
        itv = self.eval(s.iter, env)
        it = self.iterate(itv)
        if isinstance(it, list):
            for x in it:
                self.assign(s.target, x, env)
                try:
                    self.exec_block(s.body, env)
                except _Break:
                    return
                except _Continue:
                    continue
            self.exec_block(s.orelse, env)
            return
        self.sym_loop(s, it, env, lambda I, k: self.bind_elem(s, it, k, env))

    def bind_elem(self, s, it, k, env):
        if it.guard is not None and not self.branch(it.guard(self, k)):
            raise _Continue()
        self.assign(s.target, it.elem(self, k), env)

    def s_While(self, s, env):
        # concrete unrolling while the test is decided by constants, else loop contract
        n = 0
        while True:
            spec = None
            for sp in self.loop_specs:
                if sp.match(self, ('while', self.cur_fn[-1], s)):
                    spec = sp
            if spec is not None:
                it = IterSpec(('while', self.cur_fn[-1]), None, None)
                self.sym_loop(s, it, env, None, spec=spec, while_test=s.test)
                return
            t = self.eval(s.test, env)
            c = self.truth_expr(t)
            if not isinstance(c, bool):
                c2 = z3.simplify(c)
                if z3.is_true(c2):
                    c = True
                elif z3.is_false(c2):
                    c = False
                else:
                    raise Undecided('while loop on a symbolic condition without a loop contract')
            if not c:
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 200:
                raise Undecided('while unrolling limit')
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue

    def find_spec(self, it):
        for sp in self.loop_specs:
            if sp.match(self, it):
                return sp
        return None

    def sym_loop(self, s, it, env, bind, spec=None, while_test=None):
        node = s
        if spec is None:
            spec = self.find_spec(it)
        if spec is None and self.auto_loop is not None and it.n is not None:
            spec = self.auto_loop(it)
        if spec is None:
            raise Undecided(f'loop over {it.tag} without a loop contract')
        self.cut_loop(spec, it, env, assigned_names(s.body) | assigned_names([s.target] if hasattr(s, 'target') else []),
                      (bind or (lambda I, k: None)),
                      lambda: self.exec_block(s.body, env),
                      lambda: self.exec_block(s.orelse, env),
                      while_test=while_test, stmt=s)

    def cut_loop(self, spec, it, env, assigned, bind, body, orelse, while_test=None, stmt=None):
        I = self
        key = (tuple(self.decisions), spec.name, str(it.tag))
        stamp = _oid[0]
        node = self.cur_node
        rec = self.loop_written.setdefault(key, {'assigned': None, 'written': {}})
        assigned = set(assigned)
        mode = self.choose(3)           # 0 probe, 1 body, 2 exit
        k = self.fresh('k_' + str(spec.name), z3.IntSort())
        if mode == 0:
            # probe: find out which pre-existing objects an iteration may write (no obligations)
            self.quiet += 1
            fr = {'stamp': stamp, 'written': {}}
            self.write_frames.append(fr)
            self.loop_stack.append((spec, it, k, None))
            try:
                if it.n is not None:
                    self.assume(k >= 0, k < it.n)
                bind(self, k)
                body()
            except (PathEnd, _Break, _Continue, _Return, PyRaise, Undecided) as e:
                if os.environ.get('PYVC_DEBUG'):
                    print('probe', spec.name, self.decisions, type(e).__name__, e, self.where(), list(fr['written']))
            self.loop_stack.pop()
            rec['written'].update({o: None for o in fr['written']})
            raise PathEnd()
        objs = self.objects_by_oid(rec['written'], env)
        L = LoopCtx(self, env, it, assigned, objs)
        L.stmt = stmt
        spec.pre(self, L)
        if mode == 1:
            # init
            for nm, f in spec.inv(self, L, z3.IntVal(0)):
                self.obligation(f'{spec.name}: init: {nm}', f)
        # havoc
        for n in assigned:
            if env.has(n) and n in env.vars:
                L.ghost.setdefault('old_locals', {})[n] = env.vars[n]
        spec.havoc(self, L, k)
        for o in objs:
            if o.oid not in L.ghost.get('havocked', set()):
                raise Undecided(f'{spec.name}: loop body writes an object the loop contract does not mention: {o!r} '
                                f'{getattr(o, "kind", "")}')
        for n in assigned:
            if n not in L.ghost.get('set_locals', set()) and n in env.vars:
                env.vars[n] = UNBOUND
        if mode == 1:
            if it.n is not None:
                self.assume(k >= 0, k < it.n)
            for nm, f in spec.inv(self, L, k):
                self.assume(f)
            for f in spec.facts(self, L, k):
                self.assume(f)
            fr = {'stamp': stamp, 'written': {}}
            self.write_frames.append(fr)
            if while_test is not None:
                if not self.truth(self.eval(while_test, env)):
                    raise PathEnd()
            self.loop_stack.append((spec, it, k, L))
            broke = False
            try:
                try:
                    bind(self, k)
                    spec.elem_begin(self, L, k) if hasattr(spec, 'elem_begin') else None
                    body()
                except _Continue:
                    pass
                except _Break:
                    broke = True
            except (_Return, PyRaise):
                self.check_frame(fr, rec, spec)
                drop_frame(self.write_frames, fr)
                self.loop_stack.pop()
                raise
            self.check_frame(fr, rec, spec)
            drop_frame(self.write_frames, fr)
            self.loop_stack.pop()
            self.cur_node = node
            if broke:
                if hasattr(spec, 'on_break'):
                    spec.on_break(self, L, k)
                return
            L.ghost['rec'] = rec
            spec.elem_done(self, L, k, None)
            for nm, f in spec.inv(self, L, k + 1):
                self.obligation(f'{spec.name}: preserved: {nm}', f)
            raise PathEnd()
        # exit
        L.ghost['rec'] = rec
        if it.n is not None:
            self.assume(k == it.n)
            self.assume(it.n >= 0)
        for nm, f in spec.inv(self, L, k):
            self.assume(f)
        for f in (spec.exit_facts(self, L, k) if hasattr(spec, 'exit_facts') else []):
            self.assume(f)
        if while_test is not None:
            if self.truth(self.eval(while_test, env)):
                raise PathEnd()
        L.ghost['replay'] = (bind, body)
        spec.after(self, L)
        orelse()

    def check_frame(self, fr, rec, spec):
        extra = [o for o in fr['written'] if o not in rec['written']]
        if extra:
            for o in extra:
                rec['written'][o] = None
            raise Restart()

    def objects_by_oid(self, oids, env):
        """locate live heap objects by creation stamp (reachable from the environment, or ghost roots)"""
        want = set(oids)
        found = {}
        seen = set()
        stack = []
        e = env
        while e is not None:
            stack += list(e.vars.values())
            e = e.parent
        stack += list(self.ghost.values())
        stack += getattr(self, 'roots', [])
        while stack and len(found) < len(want):
            v = stack.pop()
            if isinstance(v, (tuple, list)):
                stack += list(v)
                continue
            if isinstance(v, BoundMethod):
                stack.append(v.self_)
                continue
            if isinstance(v, FunctionVal):
                e = v.env
                while e is not None:
                    if id(e) in seen:
                        break
                    seen.add(id(e))
                    stack += list(e.vars.values())
                    e = e.parent
                continue
            if not isinstance(v, HeapVal) or id(v) in seen:
                continue
            seen.add(id(v))
            if v.oid in want:
                found[v.oid] = v
            if isinstance(v, Obj):
                stack += list(v.fields.values())
            elif isinstance(v, (ListVal, SetVal)):
                stack += v.items
            elif isinstance(v, DictVal):
                stack += [x for p in v.pairs for x in p]
            elif isinstance(v, Model):
                stack += [x for x in vars(v).values() if isinstance(x, (HeapVal, list, tuple))]
        missing = want - set(found)
        if missing:
            raise Undecided(f'loop writes objects that are not reachable from the frame ({missing})')
        return [found[o] for o in sorted(found)]

    # ------------------------------------------------------------ truth / equality
    def truth_expr(self, v):
        if self.lazy is not None and isinstance(v, HeapVal):
            self.touch(v)
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, (ListVal, SetVal)):
            return len(v.items) > 0
        if isinstance(v, DictVal):
            return len(v.pairs) > 0
        if isinstance(v, Model):
            return v.truth(self)
        if is_sym(v):
            if v.sort() == z3.BoolSort():
                return v
            if v.sort() == z3.IntSort() or v.sort() == z3.RealSort():
                return v != 0
            if v.sort() == z3.StringSort():
                return z3.Length(v) > 0
            h = self.ghost.get(('truth', v.sort().name()))
            if h is not None:
                return h(v)
            raise Undecided(f'truth of {v.sort()}')
        if isinstance(v, StrCat):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            raise Undecided('truth of symbolic string')
        if isinstance(v, Obj):
            b = v.cls.mro_attr('__bool__')
            if b is not None:
                return self.call(BoundMethod(b[1], v), [])
            b = v.cls.mro_attr('__len__')
            if b is not None:
                return self.truth_expr(self.call(BoundMethod(b[1], v), []))
            return True
        if isinstance(v, EnumMember):
            if isinstance(v.value, int) and 'IntEnum' in str(v.cls.bases):
                return v.value != 0
            if v.cls.str_enum:
                return len(v.value) > 0
            return True
        if isinstance(v, (FunctionVal, ClassVal, BoundMethod, Builtin, External, ModuleVal)):
            return True
        if isinstance(v, Opaque):
            return self.fresh('opaque', z3.BoolSort())
        raise Undecided(f'truth of {v!r}')

    def truth(self, v):
        return self.branch(self.truth_expr(v))

    def is_(self, a, b):
        if getattr(a, 'unknown', False) or getattr(b, 'unknown', False):
            return self.branch(self.fresh('unknown_is', z3.BoolSort()))
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, (HeapVal, EnumMember, ClassVal, FunctionVal)) or isinstance(b, (HeapVal, EnumMember, ClassVal, FunctionVal)):
            return a is b
        if isinstance(a, External) or isinstance(b, External):
            return a == b
        r = self.eq(a, b)        # small ints / interned enums of protobuf: identity treated as equality
        return self.branch(r)

    def eq(self, a, b):
        """equality as bool or z3 Bool"""
        if a is b:
            return True
        if isinstance(a, Model):
            return a.eq(self, b)
        if isinstance(b, Model):
            return b.eq(self, a)
        if a is None or b is None:
            return False
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            if isinstance(a, EnumMember) and isinstance(b, EnumMember):
                return a is b
            m, o = (a, b) if isinstance(a, EnumMember) else (b, a)
            if m.cls.str_enum or 'IntEnum' in str(m.cls.bases):
                return self.eq(m.value, o)
            return False
        if is_num(a) and is_num(b):
            if is_sym(a) or is_sym(b):
                if is_intlike(a) and is_intlike(b):
                    return zint(a) == zint(b)
                return zreal(a) == zreal(b)
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, StrCat) or isinstance(b, StrCat):
            return self.streq(a, b)
        if is_sym(a) and is_sym(b):
            if a.sort() == b.sort():
                return a == b
            if {a.sort(), b.sort()} == {z3.BoolSort(), z3.IntSort()}:
                raise Undecided('bool/int comparison')
            return False
        if is_sym(a) or is_sym(b):
            s, c = (a, b) if is_sym(a) else (b, a)
            if s.sort() == z3.BoolSort() and isinstance(c, bool):
                return s == z3.BoolVal(c)
            if s.sort() == z3.StringSort() and isinstance(c, str):
                return s == z3.StringVal(c)
            if isinstance(c, str):
                lit = self.literal(c, s.sort())
                if lit is not None:
                    return s == lit
            if isinstance(c, (tuple, HeapVal, External, FunctionVal)):
                return False
            h = self.ghost.get(('eqtext', s.sort().name()))
            if h is not None:
                return h(self, s, c)
            raise Undecided(f'comparison of {a!r} and {b!r}'[:300])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, ListVal) and isinstance(b, ListVal):
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Obj) and isinstance(b, Obj):
            m = a.cls.mro_attr('__eq__') if isinstance(a.cls, ClassVal) else None
            if m is not None:
                return self.truth_expr(self.call(BoundMethod(m[1], a), [b]))
            if isinstance(a.cls, ClassVal) and a.cls.dataclass and a.cls is b.cls:
                return self.conj([self.eq(a.fields[n], b.fields[n]) for n, *_ in self.all_fields(a.cls)])
            return a is b
        if type(a) is not type(b):
            if isinstance(a, (Opaque, Fmt)) or isinstance(b, (Opaque, Fmt)):
                raise Undecided('comparison of opaque values')
            return False
        if isinstance(a, Fmt):
            raise Undecided('comparison of formatted values')
        if isinstance(a, External):
            return a == b
        return a is b

    def conj(self, xs):
        out = []
        for x in xs:
            if isinstance(x, bool):
                if not x:
                    return False
            else:
                out.append(x)
        return True if not out else (out[0] if len(out) == 1 else z3.And(*out))

    def literal(self, s, sort):
        """a string constant as an element of an abstract name sort: distinct constants, distinct values"""
        lits = self.ghost.setdefault('literals', {})
        if sort.kind() not in (z3.Z3_UNINTERPRETED_SORT, z3.Z3_INT_SORT):
            return None
        key = (sort.name(), s)
        if key not in lits:
            c = z3.Const(f'lit_{s}_{sort.name()}', sort)
            for (sn, o), oc in lits.items():
                if sn == sort.name():
                    self.assume(c != oc)
            lits[key] = c
        return lits[key]

    def streq(self, a, b):
        pa = a.parts if isinstance(a, StrCat) else (a,)
        pb = b.parts if isinstance(b, StrCat) else (b,)
        pa, pb = list(pa), list(pb)
        while pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return False
            ra, rb = pa[0][n:], pb[0][n:]
            pa = ([ra] if ra else []) + pa[1:]
            pb = ([rb] if rb else []) + pb[1:]
        while pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
            n = min(len(pa[-1]), len(pb[-1]))
            if pa[-1][-n:] != pb[-1][-n:]:
                return False
            ra, rb = pa[-1][:-n], pb[-1][:-n]
            pa = pa[:-1] + ([ra] if ra else [])
            pb = pb[:-1] + ([rb] if rb else [])
        if not pa and not pb:
            return True
        if len(pa) == 1 and len(pb) == 1:
            return self.eq(pa[0], pb[0])
        if len(pa) == len(pb) and all(type(x) is type(y) for x, y in zip(pa, pb)) and \
           all(not isinstance(x, str) or x == y for x, y in zip(pa, pb)) and \
           all(isinstance(x, str) or not is_sym(x) or x.eq(y) for x, y in zip(pa, pb) if is_sym(x)):
            ok = all((x is y) or (isinstance(x, str) and x == y) or (is_sym(x) and is_sym(y) and x.eq(y))
                     for x, y in zip(pa, pb))
            if ok:
                return True
        raise Undecided(f'equality of composed strings {a!r} {b!r}')

    def less(self, a, b, strict=True):
        if is_num(a) and is_num(b):
            if is_sym(a) or is_sym(b):
                x, y = (zint(a), zint(b)) if is_intlike(a) and is_intlike(b) else (zreal(a), zreal(b))
                return x < y if strict else x <= y
            return a < b if strict else a <= b
        if isinstance(a, Inf) or isinstance(b, Inf):
            if isinstance(a, Inf) and isinstance(b, Inf):
                return (a.sign < b.sign) if strict else (a.sign <= b.sign)
            if isinstance(b, Inf):
                return b.sign > 0
            return a.sign < 0
        if isinstance(a, str) and isinstance(b, str):
            return a < b if strict else a <= b
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            res = (not strict) if len(a) == len(b) else (len(a) < len(b))
            for x, y in reversed(list(zip(a, b))):
                lt, e = self.less(x, y), self.eq(x, y)
                if isinstance(lt, bool) and isinstance(e, bool) and isinstance(res, bool):
                    res = lt or (e and res)
                else:
                    res = z3.Or(zbool(lt), z3.And(zbool(e), zbool(res)))
            return res
        if is_sym(a) and is_sym(b) and a.sort() == b.sort():
            h = self.ghost.get(('less', a.sort().name()))
            if h is not None:
                r = h(a, b)
                return r if strict else z3.Or(r, a == b)
            if a.sort() == z3.StringSort():
                return a < b if strict else a <= b
        if isinstance(a, Obj) and isinstance(a.cls, ClassVal):
            m = a.cls.mro_attr('__lt__')
            if m is not None and strict:
                return self.truth_expr(self.call(BoundMethod(m[1], a), [b]))
        if a is None or b is None:
            self.raise_('TypeError')
        raise Undecided(f'ordering of {a!r} and {b!r}')

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """python list of elements, or IterSpec"""
        if self.lazy is not None and isinstance(v, HeapVal):
            self.touch(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, list):
            return v
        if isinstance(v, (ListVal, SetVal)):
            return list(v.items)
        if isinstance(v, DictVal):
            return [p[0] for p in v.pairs]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeVal):
            lo, hi, st = v.lo, v.hi, v.step
            if all(isinstance(x, int) for x in (lo, hi, st)):
                return list(range(lo, hi, st))
            if isinstance(st, int) and st == 1:
                n = z3.If(zint(hi) > zint(lo), zint(hi) - zint(lo), z3.IntVal(0))
                n = z3.simplify(n)
                return IterSpec(('range', lo, hi), n, lambda I, i: z3.simplify(zint(lo) + i))
            if isinstance(st, int) and st == -1:
                n = z3.simplify(z3.If(zint(lo) > zint(hi), zint(lo) - zint(hi), z3.IntVal(0)))
                return IterSpec(('range', lo, hi), n, lambda I, i: z3.simplify(zint(lo) - i))
            raise Undecided('symbolic range step')
        if isinstance(v, IterSpec):
            return v
        if isinstance(v, Model):
            return v.iterate(self)
        if isinstance(v, ClassVal) and v.is_enum:
            out = []
            for m in v.members.values():
                if m not in out:
                    out.append(m)
            return out
        if v is None:
            self.raise_('TypeError')
        if isinstance(v, Obj):
            raise Undecided('iteration over object')
        raise Undecided(f'iteration over {v!r}')

    def to_items(self, v):
        it = self.iterate(v)
        if isinstance(it, list):
            return it
        raise Undecided(f'unpacking of symbolic iterable {it.tag}')

    # ------------------------------------------------------------ attributes / items
    def getattr(self, o, name, default=Exception):
        if self.lazy is not None and isinstance(o, HeapVal):
            self.touch(o)
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if isinstance(o.cls, ClassVal):
                a = o.cls.mro_attr(name)
                if a is not None:
                    kind, f = a
                    if kind == 'method':
                        return BoundMethod(f, o)
                    if kind == 'staticmethod':
                        return f
                    if kind == 'classmethod':
                        return BoundMethod(f, o.cls)
                    if kind == 'property':
                        return self.call(f, [o])
                    if kind == 'cached_property':
                        v = self.call(f, [o])
                        o.fields[name] = v
                        return v
                    return f
                if name == '__class__':
                    return o.cls
                ext = o.fields.get('__ext__')
                if ext is not None:
                    return self.getattr(ext, name)
            if default is not Exception:
                return default
            self.raise_('AttributeError', name)
        if isinstance(o, Model):
            return o.getattr(self, name)
        if isinstance(o, ClassVal):
            a = o.mro_attr(name)
            if a is not None:
                kind, f = a
                if kind == 'classmethod':
                    return BoundMethod(f, o)
                return f
            if name == '__name__':
                return o.name
            if name == '__members__' and o.is_enum:
                return DictVal([(n, m) for n, m in o.members.items()])
            for b in o.bases:
                if isinstance(b, External):
                    return self.ext_attr(b, name)
            if default is not Exception:
                return default
            self.raise_('AttributeError', name)
        if isinstance(o, EnumMember):
            if name == 'name':
                return o.name
            if name == 'value':
                return o.value
            a = o.cls.mro_attr(name)
            if a is not None:
                kind, f = a
                if kind == 'method':
                    return BoundMethod(f, o)
                if kind == 'property':
                    return self.call(f, [o])
                return f
            if o.cls.str_enum:
                return self.getattr(o.value, name)
            self.raise_('AttributeError', name)
        if isinstance(o, ModuleVal):
            v = self.module_attr(o, name)
            if v is None:
                raise Undecided(f'module {o.dotted} has no {name}')
            return v
        if isinstance(o, External):
            return self.ext_attr(o, name)
        if isinstance(o, ListVal):
            return METHODS.list(self, o, name)
        if isinstance(o, DictVal):
            return METHODS.dict(self, o, name)
        if isinstance(o, SetVal):
            return METHODS.set(self, o, name)
        if isinstance(o, (str, StrCat, Fmt)):
            return METHODS.str(self, o, name)
        if isinstance(o, bytes):
            if name in ('decode', 'hex') or name in ('startswith', 'endswith'):
                return Builtin('bytes.' + name, lambda I, a, k: getattr(o, name)(*a, **k))
            raise Undecided(f'bytes.{name}')
        if o is None:
            if default is not Exception:
                return default
            self.raise_('AttributeError', name)
        if isinstance(o, SuperVal):
            for b in o.cls.bases:
                if isinstance(b, ClassVal):
                    a = b.mro_attr(name)
                    if a is not None:
                        return BoundMethod(a[1], o.obj)
            return Builtin('super.' + name, lambda I, a, k: None)
        if is_sym(o):
            h = self.ghost.get(('attr', o.sort().name()))
            if h is not None:
                return h(self, o, name)
        raise Undecided(f'attribute {name} of {o!r}')

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassVal) and o.cls.frozen:
                self.raise_('FrozenInstanceError')
            self.note_write(o)
            o.fields[name] = v
            return
        if isinstance(o, Model):
            return o.setattr(self, name, v)
        raise Undecided(f'setattr on {o!r}')

    def getitem(self, o, k):
        if self.lazy is not None and isinstance(o, HeapVal):
            self.touch(o)
        if isinstance(o, ListVal):
            return self.list_index(o.items, k, ListVal)
        if isinstance(o, tuple):
            return self.list_index(list(o), k, tuple)
        if isinstance(o, DictVal):
            for kk, vv in o.pairs:
                if self.branch(self.eq(kk, k)):
                    return vv
            if o.default is not None:
                v = self.call(o.default, [])
                self.note_write(o)
                o.pairs.append((k, v))
                return v
            self.raise_('KeyError')
        if isinstance(o, Model):
            return o.getitem(self, k)
        if isinstance(o, str):
            if isinstance(k, (int, slice)):
                try:
                    return o[k]
                except IndexError:
                    self.raise_('IndexError')
            raise Undecided('string index')
        if isinstance(o, StrCat):
            if isinstance(k, slice) and k.stop is None and isinstance(k.start, int) and \
               isinstance(o.parts[0], str) and len(o.parts[0]) >= k.start >= 0:
                return strcat(o.parts[0][k.start:], *o.parts[1:])
            if isinstance(k, slice) and k.start is None and k.step is None and isinstance(k.stop, int) and k.stop < 0 and \
               isinstance(o.parts[-1], str) and len(o.parts[-1]) >= -k.stop:
                return strcat(*o.parts[:-1], o.parts[-1][:k.stop])
            raise Undecided('symbolic string slice')
        if isinstance(o, Obj):
            m = o.cls.mro_attr('__getitem__')
            if m is not None:
                return self.call(BoundMethod(m[1], o), [k])
        if isinstance(o, ClassVal) and o.is_enum:
            for n, m in o.members.items():
                if self.branch(self.eq(n, k)):
                    return m
            self.raise_('KeyError')
        if isinstance(o, External):
            return o
        raise Undecided(f'getitem on {o!r}')

    def list_index(self, items, k, mk):
        if isinstance(k, slice):
            for x in (k.start, k.stop, k.step):
                if not (x is None or isinstance(x, int)):
                    raise Undecided('symbolic slice')
            return mk(items[k])
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            try:
                return items[k]
            except IndexError:
                self.raise_('IndexError')
        k = zint(k) if not (is_sym(k) and k.sort() == z3.BoolSort()) else z3.If(k, z3.IntVal(1), z3.IntVal(0))
        for i in range(len(items)):
            if self.branch(k == i):
                return items[i]
        for i in range(1, len(items) + 1):
            if self.branch(k == -i):
                return items[-i]
        self.raise_('IndexError')

    def setitem(self, o, k, v):
        if isinstance(o, ListVal):
            self.note_write(o)
            if isinstance(k, int):
                try:
                    o.items[k] = v
                    return
                except IndexError:
                    self.raise_('IndexError')
            for i in range(len(o.items)):
                if self.branch(zint(k) == i):
                    o.items[i] = v
                    return
            self.raise_('IndexError')
        if isinstance(o, DictVal):
            self.note_write(o)
            for i, (kk, vv) in enumerate(o.pairs):
                if self.branch(self.eq(kk, k)):
                    o.pairs[i] = (kk, v)
                    return
            o.pairs.append((k, v))
            return
        if isinstance(o, Model):
            return o.setitem(self, k, v)
        if isinstance(o, Obj):
            m = o.cls.mro_attr('__setitem__')
            if m is not None:
                return self.call(BoundMethod(m[1], o), [k, v])
        raise Undecided(f'setitem on {o!r}')

    def delitem(self, o, k):
        if isinstance(o, DictVal):
            self.note_write(o)
            for i, (kk, vv) in enumerate(o.pairs):
                if self.branch(self.eq(kk, k)):
                    del o.pairs[i]
                    return
            self.raise_('KeyError')
        if isinstance(o, ListVal) and isinstance(k, int):
            self.note_write(o)
            try:
                del o.items[k]
            except IndexError:
                self.raise_('IndexError')
            return
        if isinstance(o, Model):
            return o.delitem(self, k)
        raise Undecided(f'del on {o!r}')

    def contains(self, o, x):
        """x in o, as bool or z3 Bool"""
        if self.lazy is not None and isinstance(o, HeapVal):
            self.touch(o)
        if isinstance(o, (ListVal, SetVal)):
            return self.disj([self.eq(i, x) for i in o.items])
        if isinstance(o, tuple):
            return self.disj([self.eq(i, x) for i in o])
        if isinstance(o, DictVal):
            return self.disj([self.eq(i, x) for i, _ in o.pairs])
        if isinstance(o, str) and isinstance(x, str):
            return x in o
        if isinstance(o, str) and is_sym(x) and x.sort().name() in self.ghost.get('chars', ()):
            return self.disj([self.eq(x, i) for i in o])         # a single character in a text
        if isinstance(o, Model):
            return o.contains(self, x)
        if is_sym(o) and ('contains', o.sort().name()) in self.ghost:
            return self.ghost['contains', o.sort().name()](self, o, x)
        if isinstance(o, Obj):
            m = o.cls.mro_attr('__contains__')
            if m is not None:
                return self.truth_expr(self.call(BoundMethod(m[1], o), [x]))
        raise Undecided(f'in {o!r}')

    def disj(self, xs):
        out = []
        for x in xs:
            if isinstance(x, bool):
                if x:
                    return True
            else:
                out.append(x)
        return False if not out else (out[0] if len(out) == 1 else z3.Or(*out))

    # ------------------------------------------------------------ arithmetic
    def inplace(self, op, a, b):
        if isinstance(a, ListVal) and op == 'Add':
            self.note_write(a)
            a.items += self.to_items(b)
            return a
        if isinstance(a, DictVal) and op == 'BitOr':
            for k, v in b.pairs:
                self.setitem(a, k, v)
            return a
        if isinstance(a, Model):
            return a.inplace(self, op, b)
        if isinstance(a, Obj):
            m = a.cls.mro_attr('__i' + {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul'}.get(op, op) + '__')
            if m is not None:
                return self.call(BoundMethod(m[1], a), [b])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if self.lazy is not None:
            for x in (a, b):
                if isinstance(x, HeapVal):
                    self.touch(x)
        if isinstance(a, Model):
            return a.binop(self, op, b, False)
        if isinstance(b, Model):
            return b.binop(self, op, a, True)
        if isinstance(a, Obj):
            m = a.cls.mro_attr({'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(op, '?'))
            if m is not None:
                return self.call(BoundMethod(m[1], a), [b])
        if op == 'Add':
            if isinstance(a, (str, StrCat, Fmt)) or isinstance(b, (str, StrCat, Fmt)) or \
               (is_sym(a) and a.sort().kind() == z3.Z3_UNINTERPRETED_SORT):
                if isinstance(a, (int, Fraction)) or isinstance(b, (int, Fraction)) or a is None or b is None:
                    self.raise_('TypeError')
                return strcat(a, b)
            if isinstance(a, ListVal) and isinstance(b, ListVal):
                return ListVal(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == 'Add' and isinstance(a, bytes) and isinstance(b, bytes):
            return a + b
        if op == 'Mod' and isinstance(a, (str, StrCat)):
            return self.percent(a, b)
        if op == 'Mult' and isinstance(a, str) and isinstance(b, int):
            return a * b
        if op == 'Mult' and isinstance(a, ListVal) and isinstance(b, int):
            return ListVal(a.items * b)
        if op == 'BitOr' and isinstance(a, (External, ClassVal)):
            return (a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if is_sym(a) and a.sort() == z3.BoolSort() and is_num(b):
            a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if is_sym(b) and b.sort() == z3.BoolSort() and is_num(a):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if a is None or b is None:
            self.raise_('TypeError')
        if is_num(a) and is_num(b):
            return self.arith(op, a, b)
        if isinstance(a, SetVal) and isinstance(b, SetVal):
            if op == 'BitOr':
                r = SetVal(a.items)
                for x in b.items:
                    if not self.branch(self.contains(r, x)):
                        r.items.append(x)
                return r
        raise Undecided(f'operator {op} on {a!r}, {b!r}')

    def arith(self, op, a, b):
        sym = is_sym(a) or is_sym(b)
        ints = is_intlike(a) and is_intlike(b)
        if op in ('Add', 'Sub', 'Mult'):
            if not sym:
                return a + b if op == 'Add' else a - b if op == 'Sub' else a * b
            x, y = (zint(a), zint(b)) if ints else (zreal(a), zreal(b))
            return x + y if op == 'Add' else x - y if op == 'Sub' else x * y
        if op == 'Div':
            if not is_sym(b):
                if b == 0:
                    self.raise_('ZeroDivisionError')
                if not sym:
                    return Fraction(a) / Fraction(b)
                return zreal(a) / zreal(b)
            self.guard(zreal(b) != 0, 'ZeroDivisionError')
            return zreal(a) / zreal(b)
        if op == 'Pow':
            if isinstance(b, int) and 0 <= b <= 8:
                if not is_sym(a):
                    return a ** b
                r = z3.IntVal(1) if is_intlike(a) else z3.RealVal(1)
                for _ in range(b):
                    r = r * a
                return z3.simplify(r) if b < 2 else r
            if not sym and isinstance(b, int):
                return Fraction(a) ** b
            raise Undecided('power')
        if op in ('Mod', 'FloorDiv') and ints:
            if not sym:
                if b == 0:
                    self.raise_('ZeroDivisionError')
                return a % b if op == 'Mod' else a // b
            if isinstance(b, int) and b > 0:
                return zint(a) % b if op == 'Mod' else zint(a) / zint(b)
            raise Undecided('symbolic modulus')
        if op == 'FloorDiv':
            if not sym:
                import math
                return Fraction(math.floor(Fraction(a) / Fraction(b)))
        if op in ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor') and not sym and ints:
            return {'LShift': lambda: a << b, 'RShift': lambda: a >> b, 'BitAnd': lambda: a & b,
                    'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b}[op]()
        raise Undecided(f'arithmetic {op}')

    def percent(self, a, b):
        """text % values: literals and formatted values"""
        import re
        vals = list(b) if isinstance(b, tuple) else [b]
        if not isinstance(a, str) or '%(' in a:
            return Fmt(b, a)
        bits = re.split(r'(%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%])', a)
        if sum(1 for i, x in enumerate(bits) if i % 2 and x != '%%') != len(vals):
            self.raise_('TypeError')
        out = []
        for i, x in enumerate(bits):
            if i % 2 == 0:
                out.append(x)
            elif x == '%%':
                out.append('%')
            else:
                v = vals.pop(0)
                if x == '%s':
                    out.append(v if isinstance(v, (str, StrCat)) else Fmt(v, None))
                elif x == '%d' and isinstance(v, int):
                    out.append(str(v))
                else:
                    out.append(Fmt(v, x))
        if len([x for x in out if x != '']) == 1:
            return [x for x in out if x != ''][0]
        return strcat(*out)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if v is Ellipsis:
            raise Undecided('ellipsis')
        return v

    def e_Name(self, e, env):
        x = env
        while x is not None:
            if e.id in x.vars:
                v = x.vars[e.id]
                if v is UNBOUND:
                    raise Undecided(f'{e.id} is carried across a loop iteration but no loop contract gives its value')
                return v
            x = x.parent
        v = self.module_attr(env.module, e.id) if env.module is not None else None
        if v is not None:
            return v
        if env.module is not None and e.id in env.module.globals:
            return env.module.globals[e.id]
        if e.id in BUILTINS:
            return BUILTINS[e.id]
        if env.module is not None and e.id in env.module.defs:
            return None
        for base in (env.module.defs.get('*', []) if env.module is not None else []):
            if base == 'typing':
                return External('typing.' + e.id)
        if e.id in ('int', 'str'):
            return External(e.id)
        self.raise_('NameError', e.id)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Attribute(self, e, env):
        o = self.eval(e.value, env)
        self.cur_node = e if hasattr(e, 'lineno') else self.cur_node
        return self.getattr(o, e.attr)

    def eval_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, External) and o.dotted.startswith('typing'):
            return o
        return self.getitem(o, self.eval_slice(e.slice, env))

    def e_Tuple(self, e, env): return tuple(self.eval_elts(e.elts, env))
    def e_List(self, e, env):
        if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            return self.call(BUILTINS['list'], [self.eval(e.elts[0].value, env)])
        return ListVal(self.eval_elts(e.elts, env))

    def e_Set(self, e, env):
        if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            return self.call(BUILTINS['set'], [self.eval(e.elts[0].value, env)])
        s = SetVal()
        for x in self.eval_elts(e.elts, env):
            if not self.branch(self.contains(s, x)):
                s.items.append(x)
        return s

    def eval_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.to_items(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = DictVal()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, DictVal):
                    raise Undecided('** of symbolic dict')
                for kk, vv in src.pairs:
                    self.setitem(d, kk, vv)
            else:
                kk = self.eval(k, env)
                self.setitem(d, kk, self.eval(v, env))
        return d

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truth_expr(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if op == 'USub':
            if isinstance(v, Inf):
                return Inf(-v.sign)
            if is_num(v):
                return -v
            if isinstance(v, Model):
                return v.binop(self, 'Neg', None, False)
        if op == 'UAdd' and is_num(v):
            return v
        raise Undecided(f'unary {op}')

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth_expr(v)
            b = self.branch(t)
            if isand and not b:
                return v if not (is_sym(v)) else False if v.sort() == z3.BoolSort() else v
            if not isand and b:
                return v if not (is_sym(v)) else True if v.sort() == z3.BoolSort() else v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(type(op).__name__, left, right)
            if isinstance(c, bool) and not c:
                return False
            res.append(c)
            left = right
        return self.conj(res) if res else True

    def compare(self, op, a, b):
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return not self.is_(a, b)
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if op == 'Lt':
            return self.less(a, b)
        if op == 'Gt':
            return self.less(b, a)
        if op == 'LtE':
            return self.less(a, b, False)
        if op == 'GtE':
            return self.less(b, a, False)
        raise Undecided(op)

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        f = self.make_function(e, env.module, env, None)
        f.qual = (self.cur_fn[-1] if self.cur_fn else '') + '.<lambda>'
        return f

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                parts.append(self.to_str(x, spec, v.conversion))
        return strcat(*parts)

    def e_FormattedValue(self, e, env):
        return self.to_str(self.eval(e.value, env), None, -1)

    def to_str(self, x, spec=None, conv=-1):
        if spec in (None, '') and conv in (-1, 115):
            if isinstance(x, str):
                return x
            if isinstance(x, StrCat):
                return x
            if isinstance(x, bool) or x is None:
                return str(x)
            if isinstance(x, int):
                return str(x)
            if isinstance(x, EnumMember) and x.cls.str_enum:
                return x.value
            if isinstance(x, Obj) and isinstance(x.cls, ClassVal):
                m = x.cls.mro_attr('__str__') or x.cls.mro_attr('__repr__')
                if m is not None:
                    return self.call(BoundMethod(m[1], x), [])
            if is_sym(x) and x.sort().kind() == z3.Z3_UNINTERPRETED_SORT:
                return StrCat([x])      # an abstract name is a string already
        return StrCat([Fmt(x, spec if conv == -1 else (spec, conv))])

    # comprehensions -------------------------------------------------------
    def e_ListComp(self, e, env): return self.comp(e.generators, lambda env: self.eval(e.elt, env), env, 'list')
    def e_GeneratorExp(self, e, env): return self.comp(e.generators, lambda env: self.eval(e.elt, env), env, 'gen')
    def e_SetComp(self, e, env):
        r = self.comp(e.generators, lambda env: self.eval(e.elt, env), env, 'set')
        return BUILTINS['set'].fn(self, [r], {})

    def e_DictComp(self, e, env):
        r = self.comp(e.generators, lambda env: (self.eval(e.key, env), self.eval(e.value, env)), env, 'dict')
        if isinstance(r, ListVal):
            d = DictVal()
            for k, v in r.items:
                self.setitem(d, k, v)
            return d
        return SymDict.from_comp(self, r)

    def comp(self, gens, elt, env, kind):
        """concrete generators: a ListVal; one symbolic generator: a lazily evaluated CompSeq"""
        out = ListVal()
        sym = []

        def go(i, env):
            if i == len(gens):
                out.items.append(elt(env))
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, env))
            if not isinstance(it, list):
                if len(gens) != 1:
                    if i == 0 and 'nested' in self.ghost and kind in ('list', 'gen'):
                        sym.append(it)
                        return
                    raise Undecided('nested symbolic comprehension')
                sym.append(it)
                return
            for x in it:
                e2 = Env(env, env.module)
                self.assign(g.target, x, e2)
                if all(self.truth(self.eval(c, e2)) for c in g.ifs):
                    go(i + 1, e2)
        go(0, Env(env, env.module))
        if sym and len(gens) != 1:
            return self.ghost['nested'](self, sym[0], gens, elt, env)
        if sym:
            g = gens[0]
            it = sym[0]
            snap = Env(env.parent, env.module)
            snap.vars = dict(env.vars)
            c = CompSeq(self, it, g, elt, snap)
            return self.ghost['comp'](self, c) if 'comp' in self.ghost else c
        return out

    def pure_eval(self, thunk):
        """all outcomes of a side-effect-free computation: [(condition, value)], conditions exclusive, covering"""
        outs = []
        allfacts = []
        save = (self.prefix, self.decisions, self.alts, list(self.pc))
        stack = [[]]
        stamp = _oid[0]
        while stack:
            p = stack.pop()
            if len(outs) > 64:
                raise Undecided('pure evaluation: too many outcomes')
            self.prefix, self.decisions, self.alts = p, [], []
            self.solver.push()
            npc = len(self.pc)
            fr = {'stamp': stamp, 'written': {}}
            self.write_frames.append(fr)
            self.pure_id = getattr(self, 'pure_id', 0) + 1
            self.decisions_tag = None
            base = tuple(save[1])
            fc, self.feas_cache = self.feas_cache, {}
            self.pure_depth += 1
            facts, self.pure_facts = self.pure_facts, []
            try:
                v = thunk()
                outs.append((z3.And(*self.pc[npc:]) if len(self.pc) > npc else z3.BoolVal(True), v))
            except PathEnd:
                pass
            finally:
                self.pure_depth -= 1
                mine, self.pure_facts = self.pure_facts, facts
                allfacts += mine
                self.feas_cache = fc
                drop_frame(self.write_frames, fr)
                stack += self.alts
                del self.pc[npc:]
                self.solver.pop()
                self.prefix, self.decisions, self.alts = save[0], save[1], save[2]
            if fr['written']:
                raise Undecided('side effect in an expression assumed pure')
        for f in allfacts:
            self.assume(f)
        return outs

    def pure_bool(self, thunk):
        outs = self.pure_eval(lambda: self.truth_expr(thunk()))
        return z3.simplify(z3.Or(*[z3.And(c, zbool(v)) for c, v in outs])) if outs else z3.BoolVal(False)

    def pure_val(self, thunk):
        outs = self.pure_eval(thunk)
        if len(outs) == 1:
            return outs[0][1]
        vals = [v for _, v in outs]
        if all(is_num(v) for v in vals):
            conv = zint if all(is_intlike(v) for v in vals) else zreal
        elif all(is_sym(v) for v in vals) and len({v.sort().name() for v in vals}) == 1:
            conv = lambda v: v
        else:
            raise Undecided('pure evaluation with unmergeable outcomes')
        r = conv(vals[-1])
        for c, v in outs[:-1]:
            r = z3.If(c, conv(v), r)
        return r

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        if isinstance(f, (FunctionVal, Builtin)) and self.is_log(f):
            return None
        args = []
        kwargs = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.to_items(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, DictVal):
                    raise Undecided('**kwargs of symbolic dict')
                for kk, vv in d.pairs:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        self.cur_node = e
        if f is BUILTINS['super']:
            x = env
            cls = None
            while x is not None and '__class__' not in x.vars:
                x = x.parent
            cls = x.vars['__class__'] if x else None
            selfv = None
            if x:
                selfv = next(iter(x.vars.values()))
            return SuperVal(cls, selfv)
        return self.call(f, args, kwargs)

    LOGMOD = 'klayout_pex.log'

    def is_log(self, f):
        if isinstance(f, Builtin):
            return f.name == 'print'
        return f.module.dotted.startswith(self.LOGMOD) and getattr(f.node, 'name', '') in (
            'debug', 'info', 'warning', 'error', 'subproc', 'rule', 'log')


class SuperVal:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class Inf:
    def __init__(self, sign): self.sign = sign


class ExcClass:
    def __init__(self, name): self.name = name


class CompSeq(Model):
    """[elt for x in <symbolic iteration> if cond], evaluated lazily at an index"""
    kind = 'CompSeq'

    def __init__(self, I, it, g, elt, env):
        super().__init__()
        self.it, self.g, self.elt, self.env = it, g, elt, env
        self.tag = ('comp', it.tag)
        self.since = I.clock

    def bind(self, I, k):
        e2 = Env(self.env, self.env.module)
        I.assign(self.g.target, self.it.elem(I, k), e2)
        return e2

    def filtered(self): return bool(self.g.ifs) or self.it.guard is not None

    def cond(self, I, k):
        """filter condition at k as z3 Bool (pure)"""
        if not self.filtered():
            return z3.BoolVal(True)

        def th():
            if self.it.guard is not None and not I.branch(self.it.guard(I, k)):
                return False
            def ev():
                e2 = self.bind(I, k)
                return all(I.truth(I.eval(c, e2)) for c in self.g.ifs)
            return I.lazily(self.since, ev)
        return I.pure_bool(th)

    def at(self, I, k): return I.lazily(self.since, lambda: self.elt(self.bind(I, k)))

    def iterate(self, I):
        w = self.as_words(I)
        if w is not None:
            return w.iterate(I)
        r = IterSpec(self.tag, self.it.n, lambda I, k: self.at(I, k), base=self,
                     guard=(lambda I, k: self.cond(I, k)) if self.filtered() else None)
        if not self.filtered():
            r.words = self.it.words
        return r

    def as_words(self, I):
        """a filter that keeps exactly the non-empty cells of a split text gives its words"""
        if not self.filtered() or self.it.words is None:
            return None
        if not hasattr(self, '_w'):
            t = I.fresh('t', z3.IntSort())
            I.solver.push()
            I.solver.add(t >= 0, t < self.it.words)
            keep = I.pure_bool(lambda: z3.BoolVal(True) if self.keeps(I, t) else z3.BoolVal(False))
            ok = I._check(z3.Not(keep)) == z3.unsat
            I.solver.pop()
            drop = I.pure_bool(lambda: z3.BoolVal(True) if self.keeps(I, z3.IntVal(-1)) else z3.BoolVal(False))
            ok = ok and I._check(drop) == z3.unsat
            if not ok:
                raise Undecided('filter of split text that does not keep exactly the words')
            self._w = SymSeq(('words', self.tag), self.it.words, lambda I, k: self.at(I, k))
        return self._w

    def keeps(self, I, k): return I.branch(self.cond(I, k))

    def length(self, I):
        if not self.filtered():
            return self.it.n
        if self.as_words(I) is not None:
            return self._w.n
        n = I.fresh('len', z3.IntSort())
        k = z3.Int('k?')
        I.assume(n >= 0, n <= self.it.n)
        if 'marks' in I.ghost:      # the elements the property speaks about: no quantifiers needed
            known = I.ghost.setdefault('lengths', {})
            if id(self) in known:
                return known[id(self)][1]
            w, v = I.fresh('w', z3.IntSort()), I.fresh('v', z3.IntSort())
            here = lambda j: z3.And(j >= 0, j < self.it.n, self.cond(I, j))
            I.assume(z3.Implies(n >= 1, here(w)), z3.Implies(n >= 2, z3.And(w < v, here(v))))
            known[id(self)] = (self, n, [])
            I.ghost['marks'] += [w, v]
            self.count_marks(I)
            return n
        c = self.cond(I, k)
        w = I.fresh('w', z3.IntSort())
        I.assume(z3.Implies(n > 0, z3.And(w >= 0, w < self.it.n, self.cond(I, w))))
        I.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.it.n, c), n > 0)))
        return n

    def count_marks(self, I):
        """the known elements count: one makes the length >= 1, two different ones >= 2"""
        _, n, done = I.ghost['lengths'][id(self)]
        for a in I.ghost['marks']:
            if any(a.eq(b) for b, _ in done):
                continue
            ha = z3.And(a >= 0, a < self.it.n, self.cond(I, a))
            I.assume(z3.Implies(ha, n >= 1), *[z3.Implies(z3.And(ha, hb, a != b), n >= 2) for b, hb in done])
            done.append((a, ha))

    def truth(self, I): return self.length(I) > 0

    def getitem(self, I, k):
        if self.as_words(I) is not None:
            return self._w.getitem(I, k)
        if not self.filtered():
            if isinstance(k, slice):
                return seq_slice(I, self, k, self.it.n, self.at)
            return self.at(I, py_index(I, k, self.it.n))
        if isinstance(k, int) and k in (0, -1):
            j = z3.Int('j?')
            ex = I.fresh('nonempty', z3.BoolSort())
            w = I.fresh('first' if k == 0 else 'last', z3.IntSort())
            if 'marks' in I.ghost:
                here = lambda j: z3.And(j >= 0, j < self.it.n, self.cond(I, j))
                I.assume(*[z3.Implies(here(g), z3.And(ex, w <= g if k == 0 else w >= g)) for g in I.ghost['marks']])
                I.guard(ex, 'IndexError')
                I.assume(here(w))
                I.ghost['marks'].append(w)
                if id(self) in I.ghost.get('lengths', {}):
                    self.count_marks(I)
                return self.at(I, w)
            c = self.cond(I, j)
            I.assume(z3.Implies(z3.Not(ex), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.it.n), z3.Not(c)))))
            I.guard(ex, 'IndexError')
            I.assume(w >= 0, w < self.it.n, self.cond(I, w))
            other = j < w if k == 0 else j > w
            I.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.it.n, other), z3.Not(c))))
            return self.at(I, w)
        raise Undecided('index into filtered symbolic list')

    def as_list(self, I):
        """a new list: it can be changed in place from now on (contracts/common.SymList)"""
        if self.filtered() or type(self) is not CompSeq:
            raise Undecided('change of a filtered symbolic list')
        it, at = self.it, CompSeq(I, self.it, self.g, self.elt, self.env)
        I.note_write(self)
        return CompSeq.become(self, it.n, lambda I, k: at.at(I, k), self.tag)

    def setitem(self, I, k, v): return self.as_list(I).setitem(I, k, v)
    def m_append(self, I, x): return self.as_list(I).m_append(I, x)

    def m_sort(self, I, key=None, reverse=False):
        if 'sorted' not in I.ghost:
            raise Undecided('sort of a symbolic list')
        at = CompSeq(I, self.it, self.g, self.elt, self.env)
        r = I.ghost['sorted'](I, at.iterate(I), key, reverse)
        I.note_write(self)
        CompSeq.become(self, r.n, r.get, r.tag)

    def contains(self, I, x):
        if 'marks' in I.ghost:
            for o, y, f in I.ghost.setdefault('containing', []):
                if o is self and (y is x or (is_sym(y) and is_sym(x) and y.eq(x)) or (type(x) is str and x == y)):
                    return f
            f, w = I.fresh('contains', z3.BoolSort()), I.fresh('at', z3.IntSort())
            at = lambda j: z3.And(j >= 0, j < self.it.n, self.cond(I, j), zbool(I.pure_bool(lambda: I.eq(self.at(I, j), x))))
            I.assume(z3.Implies(f, at(w)), *[z3.Implies(at(g), f) for g in I.ghost['marks']])
            I.ghost['marks'].append(w)
            I.ghost['containing'].append((self, x, f))
            return f
        j = z3.Int('j?')
        c = z3.And(self.cond(I, j), zbool(I.pure_bool(lambda: I.eq(self.at(I, j), x))))
        return z3.Exists([j], z3.And(j >= 0, j < self.it.n, c))

    def snapshot(self): return None


class SymDict(Model):
    """{key(k): val(k) for k in 0..n-1 if cond(k)}, last entry wins"""
    kind = 'SymDict'
    finder = None

    def __init__(self, tag, n, key, val, cond=None, unique=False):
        super().__init__()
        self.tag, self.n, self.key, self.val, self.cond, self.unique = tag, n, key, val, cond, unique
        self.extra = []       # entries written later: list of (key, value), newest last
        self.finder = None

    @staticmethod
    def from_comp(I, c):
        d = SymDict.from_comp_(I, c)
        if hasattr(c.it.base, 'find_key') and c.it.guard is None and not c.filtered():
            d.finder = c.it.base.find_key
        if hasattr(c.it.base, 'find_where') and c.it.guard is None:
            d.finder = lambda I, key, x: c.it.base.find_where(I, key, d.condat, x)
        return d

    @staticmethod
    def from_comp_(I, c):
        return SymDict(c.tag, c.it.n, lambda I, k: c.at(I, k)[0], lambda I, k: c.at(I, k)[1],
                       (lambda I, k: c.cond(I, k)) if c.filtered() else None)

    def keyeq(self, I, k, x): return zbool(I.pure_bool(lambda: I.eq(self.key(I, k), x)))
    def condat(self, I, k): return self.cond(I, k) if self.cond else z3.BoolVal(True)

    def find(self, I, x):
        """(found, index): index is the last position with that key"""
        if self.finder is not None:
            r = self.finder(I, self.key, x)
            if r is not None:
                return r
        j = z3.Int('j?')
        found = I.fresh('found', z3.BoolSort())
        w = I.fresh('at', z3.IntSort())
        if 'marks' in I.ghost:
            at = lambda j: z3.And(j >= 0, j < self.n, self.condat(I, j), self.keyeq(I, j, x))
            I.assume(z3.Implies(found, at(w)), *[z3.Implies(at(g), z3.And(found, w >= g)) for g in I.ghost['marks']])
            I.ghost['marks'].append(w)
            return found, w
        here = z3.And(self.condat(I, j), self.keyeq(I, j, x))
        I.assume(z3.Implies(found, z3.And(w >= 0, w < self.n, self.condat(I, w), self.keyeq(I, w, x))))
        I.assume(z3.Implies(found, z3.ForAll([j], z3.Implies(z3.And(j > w, j < self.n), z3.Not(here)))))
        I.assume(z3.Implies(z3.Not(found), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.Not(here)))))
        return found, w

    def lookup(self, I, x):
        for k, v in reversed(self.extra):
            if I.branch(I.eq(k, x)):
                return True, v
        f, w = self.find(I, x)
        if I.branch(f):
            return True, self.val(I, w)
        return False, None

    def getitem(self, I, x):
        ok, v = self.lookup(I, x)
        if not ok:
            I.raise_('KeyError')
        return v

    def m_get(self, I, x, default=None):
        ok, v = self.lookup(I, x)
        return v if ok else default

    def contains(self, I, x):
        for k, v in reversed(self.extra):
            if I.branch(I.eq(k, x)):
                return True
        return self.find(I, x)[0]

    def setitem(self, I, k, v):
        I.note_write(self)
        self.extra.append((k, v))

    def distinct(self, I):
        if not hasattr(self, '_distinct'):
            self._distinct = DistinctKeys(I, self)
        return self._distinct

    def it(self, I, what):
        if self.extra:
            raise Undecided('iteration over a dictionary built from a symbolic sequence')
        if not self.unique:
            return self.distinct(I).it(I, what)
        return IterSpec((what, self.tag), self.n,
                        {'items': lambda I, k: (self.key(I, k), self.val(I, k)), 'keys': self.key,
                         'values': self.val}[what], base=self)

    def m_items(self, I): return self.it(I, 'items')
    def m_values(self, I): return self.it(I, 'values')
    def m_keys(self, I): return self.it(I, 'keys')
    def iterate(self, I): return self.it(I, 'keys')
    def truth(self, I): return True if self.extra else self.n > 0
    def length(self, I):
        if self.unique and not self.extra:
            return self.n
        raise Undecided('len of symbolic dict')


class DistinctKeys(Model):
    """the iteration over a SymDict whose sequence may repeat keys: step k is the last entry with the k-th distinct key"""
    kind = 'DistinctKeys'

    def __init__(self, I, d):
        super().__init__()
        self.d = d
        self.n = I.fresh('nkeys', z3.IntSort())
        I.assume(self.n >= 0, self.n <= d.n, z3.Implies(d.n <= 0, self.n == 0))
        _uid[0] += 1
        self.idx = z3.Function(f'entry_of_key!{_uid[0]}', z3.IntSort(), z3.IntSort())
        self.found = {}

    def entry(self, I, k):
        i = self.idx(zint(k))
        I.assume(z3.Implies(z3.And(zint(k) >= 0, zint(k) < self.n), z3.And(i >= 0, i < self.d.n, self.d.condat(I, i))))
        return i

    def position(self, I, x):
        """(present, position) of key x; no other position has it"""
        f, w = self.d.find(I, x)
        p = I.fresh('keypos', z3.IntSort())
        I.assume(z3.Implies(f, z3.And(p >= 0, p < self.n, self.idx(p) == w)))
        return f, p

    def only(self, I, k, x, f, p):
        """fact: position k has key x iff it is p"""
        k = zint(k)
        i = self.entry(I, k)
        return z3.Implies(z3.And(k >= 0, k < self.n), self.d.keyeq(I, i, x) == z3.And(f, k == p))

    def it(self, I, what):
        d = self.d
        g = {'items': lambda I, k: (lambda i: (d.key(I, i), d.val(I, i)))(self.entry(I, k)),
             'keys': lambda I, k: d.key(I, self.entry(I, k)), 'values': lambda I, k: d.val(I, self.entry(I, k))}[what]
        return IterSpec((what, d.tag), self.n, g, base=self)

    def find_key(self, I, key, x):
        """a dictionary made over these keys, keyed by them"""
        j = z3.Int('j?key')
        kv = I.pure_val(lambda: key(I, j))
        src = I.pure_val(lambda: self.d.key(I, self.idx(j)))
        if not (is_sym(kv) and is_sym(src) and kv.eq(src)):
            return None
        return self.position(I, x)


_uid = [0]

from .builtins_ import BUILTINS, EXT_DEFAULT, METHODS  # noqa: E402
