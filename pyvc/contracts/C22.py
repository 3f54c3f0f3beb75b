from .fc import *
from .fcgen import *

ASSUMPTIONS = ['kdb.Region: &, -, + and += are intersection, difference and union of point sets (shown for an arbitrary point)',
               'kdb.Region.delaunay covers a region by clockwise triangles, each point once (for rare slanted shapes it raises an error, or does not come to an end when a minimum angle is asked for)',
               'kdb.Point, DPoint, Vector, DVector, Box: as documented, with the integer classes rounding their operands (half way: up)',
               'heights are given to within a ten-millionth of a multiple of the database unit, and a sheet has a positive height',
               'names of nets and of materials are distinct', 'conductors of different nets do not touch', 'floats treated as exact, also roots and quotients']


# ---------------------------------------------------------------- counting sheets
class Pyra(Model):
    """list of regions: which of them have the point"""
    kind = 'Pyra'

    def __init__(self, arr, n):
        super().__init__()
        self.arr, self.n = arr, n

    def length(self, I): return self.n
    def truth(self, I): return self.n > 0
    def getitem(self, I, k): return PyraEl(self, py_index(I, k, self.n))

    def setitem(self, I, k, v):
        k = py_index(I, k, self.n)
        if isinstance(v, PyraEl) and v.p is self and same(v.i, k):
            return
        I.note_write(self)
        self.arr = z3.Store(self.arr, k, v.get()[0])

    def m_append(self, I, r):
        I.note_write(self)
        self.arr = z3.Store(self.arr, self.n, r.get()[0])
        self.n = self.n + 1

    def snapshot(self): return (self.arr, self.n)


class PyraEl(PReg):
    def __init__(self, p, i):
        super().__init__()
        self.p, self.i = p, i

    def get(self): return (z3.Select(self.p.arr, self.i),)

    def put(self, I, v):
        I.note_write(self.p)
        self.p.arr = z3.Store(self.p.arr, self.i, zbool(v[0]))


def more_than(c):
    j = z3.Int('level')
    return z3.Lambda([j], c > j)


INB, OUTB = z3.Function('sheet_in_has_point', Z, B), z3.Function('sheet_out_has_point', Z, B)
CI, CO = z3.Function('sheets_in_so_far', Z, Z), z3.Function('sheets_out_so_far', Z, Z)


class Sheets(Spec):
    """over the sheets that come (or go): the pyramid counts them"""
    def __init__(self, g, what):
        super().__init__('sheets ' + what, lambda I, it: base_tag(it.tag) == what)
        self.g, self.what = g, what

    def count(self, k):
        c0, n1 = self.g['c0'], self.g['n1']
        return c0 + CI(k) if self.what == 'in' else c0 + CI(n1) - CO(k)

    def pre(self, I, L):
        p = [o for o in L.written if isinstance(o, Pyra)]
        if len(p) > 1 or len(L.written) != len(p):
            raise Undecided(f'{self.name}: the loop writes something else {L.written}')
        L.ghost['p'] = p[0] if p else None
        L.ghost['g'] = I.fresh('some_level', Z)
        I.assume(L.ghost['g'] >= 0)
        I.assume(CI(0) == 0, CO(0) == 0, CI(self.g['n1']) >= 0)

    def havoc(self, I, L, k):
        p = L.ghost['p']
        if p is None:
            return
        p.arr, p.n = more_than(self.count(k)), I.fresh('levels', Z)
        mark_havoc(L, p)

    def inv(self, I, L, k):
        p, g = L.ghost['p'], L.ghost['g']
        if p is None:
            return []
        return [('level i is where more than i sheets are', z3.Implies(g < p.n, z3.Select(p.arr, g) == (self.count(k) > g))),
                ('enough levels', z3.And(p.n >= 0, p.n >= self.count(k)))]

    def facts(self, I, L, k):
        s = (INB if self.what == 'in' else OUTB)(k)
        c = (CI if self.what == 'in' else CO)
        out = [c(k + 1) == c(k) + z3.If(s, 1, 0), c(k) >= 0]
        if self.what == 'out':
            out += [CO(k + 1) <= self.g['c0'] + CI(self.g['n1'])]
        return out

    def exit_facts(self, I, L, k):
        return [(CI if self.what == 'in' else CO)(k) >= 0] + ([] if self.what == 'in' else [CO(k) <= self.g['c0'] + CI(self.g['n1'])])


class Levels(Spec):
    """over the levels from the top: what the sheet adds to (takes from) each"""
    def __init__(self, g):
        super().__init__('levels', lambda I, it: isinstance(it.tag, tuple) and it.tag[0] == 'range')
        self.g = g

    def pre(self, I, L):
        gh = L.ghost
        p = [o for o in L.written if isinstance(o, Pyra)]
        s = [o for o in L.written if isinstance(o, PReg)]
        if len(p) > 1 or len(s) > 1 or len(p) + len(s) != len(L.written):
            raise Undecided(f'{self.name}: the loop writes something else {L.written}')
        gh['p'] = p[0] if p else None
        gh['s'] = s[0] if s else None
        gh['N'] = L.it.n
        gh['names'] = [x for x in L.carried() if x in L.assigned and s and L.env.lookup(x) is s[0]]
        gh['bare'] = not p or not s
        gh['g'] = I.fresh('some_level', Z)
        I.assume(gh['g'] >= 0)

    def terms(self, L, k):
        N, c, s = L.ghost['N'], self.g['cnt'], self.g['bit']
        return N, c, s

    def adds(self):
        return self.g['phase'] == 'in'

    def state(self, L, k, j):
        N, c, s = self.terms(L, k)
        one = z3.If(s, 1, 0)
        if self.adds():
            return z3.If(j >= N - k + 1, c + one > j, c > j)
        return z3.If(j >= N - k, c - one > j, c > j)

    def havoc(self, I, L, k):
        mark_havoc(L, *L.written)
        if L.ghost['bare']:
            for o in L.written:
                o.__class__ = Hidden
            return
        p, s = L.ghost['p'], L.ghost['s']
        j = z3.Int('level')
        p.arr, p.n = z3.Lambda([j], self.state(L, k, j)), I.fresh('levels', Z)
        for x in L.ghost['names']:
            set_local(L, x, s)
        s.v = (I.fresh('left', B),)

    def inv(self, I, L, k):
        p, s, g = L.ghost['p'], L.ghost['s'], L.ghost['g']
        if L.ghost['bare']:
            return []
        N, c, b = self.terms(L, k)
        out = [('levels passed are up to date', z3.Implies(g < p.n, z3.Select(p.arr, g) == self.state(L, k, g))),
               ('the rest of the sheet', s.get()[0] == z3.And(b, z3.Not(c > N - k)))]
        if self.adds():
            out += [('number of levels', z3.And(p.n >= N, p.n <= N + 1, z3.Implies(z3.And(k >= 1, b, c >= N), p.n == N + 1)))]
        else:
            out += [('number of levels', p.n == N)]
        return out


def merge(I):
    """requires: a pyramid that counts the sheets present at the point, sheets coming and going (going ones are present).
    ensures: it counts the sheets present afterwards; in / out / state returned are where the first came, the last went, and any is"""
    install(I)
    g = dict(c0=I.fresh('c0', Z), n1=I.fresh('nin', Z), n2=I.fresh('nout', Z))
    n0 = I.fresh('levels', Z)
    I.assume(g['c0'] >= 0, g['n1'] >= 0, g['n2'] >= 0, n0 >= g['c0'])
    pyra = Pyra(more_than(g['c0']), n0)
    lv, si, so = Levels(g), Sheets(g, 'in'), Sheets(g, 'out')

    def elem(spec, has):
        def get(I, i):
            i = zint(i)
            g.update(phase=spec.what, cnt=spec.count(i), bit=has(i))
            return PReg(has(i))
        return get
    ins, outs = SymSeq('in', g['n1'], elem(si, INB)), SymSeq('out', g['n2'], elem(so, OUTB))
    I.roots = [pyra]
    I.loop_specs = [si, so, lv]
    f = I.repo(GEN, 'FasterCapModelGenerator._merge_events')
    f = f[1] if isinstance(f, tuple) else f
    r = I.call(f, [], dict(pyra=pyra, lin=ins, lout=outs))
    if not isinstance(r, tuple) or len(r) != 3:
        raise Undecided('something else is returned')
    c1 = g['c0'] + CI(g['n1']) - CO(g['n2'])
    I.assume(z3.Implies(g['n1'] == 0, CI(g['n1']) == 0), z3.Implies(g['n2'] == 0, CO(g['n2']) == 0))
    was, now = g['c0'] > 0, c1 > 0
    I.prove('comes in where there was none', r[0].get()[0] == z3.And(now, z3.Not(was)))
    I.prove('goes out where the last one went', r[1].get()[0] == z3.And(was, z3.Not(now)))
    I.prove('is where any sheet is', r[2].get()[0] == now)
    j = I.fresh('some_level', Z)
    I.prove('the pyramid counts the sheets', z3.Implies(z3.And(j >= 0, j < pyra.n), z3.Select(pyra.arr, j) == (c1 > j)))
    I.prove('with enough levels', z3.And(pyra.n >= 1, pyra.n >= c1))



# ---------------------------------------------------------------- one level: who owns the point below and above
CUR, WAS = z3.Function('covered_above', Z, B), z3.Function('covered_below', Z, B)
HASS, HASC = z3.Function('has_state', Z, B), z3.Function('has_current', Z, B)


class CurRef(Model):
    """self.current[mk]"""
    kind = 'CurRef'

    def __init__(self, i):
        super().__init__()
        self.i = i

    def length(self, I):
        n = I.fresh('levels', Z)
        I.assume(n >= 0, z3.Implies(n == 0, z3.Not(WAS(self.i))))
        return n

    def truth(self, I): return self.length(I) > 0

    def getitem(self, I, k):
        if k != 0:
            raise Undecided('another level')
        return PReg(WAS(self.i))


class Prio(Spec):
    """over the names by priority: who has the point is settled for the names passed"""

    def __init__(self, g):
        super().__init__('names by priority', lambda I, it: False)
        self.g = g

    def roles(self, I, L):
        g, gh = self.g, L.ghost
        gh['regs'], gh['dicts'] = {}, {}
        for o in L.written:
            nm = next((x for x, v in sorted(L.env.vars.items()) if v is o), '')
            if o is g['state'] or o is g['current']:
                continue
            if isinstance(o, (DictVal, KDict)):
                gh['dicts']['out' if 'out' in nm else 'in'] = o
            elif isinstance(o, PReg):
                gh['regs']['out' if 'out' in nm else 'in' if 'in' in nm.split('_') else 'all'] = o
            else:
                raise Undecided(f'{self.name}: writes {o!r}')
        if len(gh['regs']) + len(gh['dicts']) + sum(o in (g['state'], g['current']) for o in L.written) != len(L.written):
            raise Undecided(f'{self.name}: which region is which')

    def pre(self, I, L):
        self.roles(I, L)
        L.ghost['locals'] = [(x, L.env.lookup(x)) for x in L.carried() if x in L.assigned and any(L.env.lookup(x) is o for o in L.written)]
        L.ghost['base'] = z3.IntVal(0) if base_tag(L.it.tag) == 'nets' else self.g['n']

    def form(self, what, q):
        wo, wn = self.g['wo'], self.g['wn']
        return {'in': z3.And(wn < q, wn != wo), 'out': z3.And(wo < q, wo != wn), 'all': wn < q}[what]

    def fn(self, what):
        wo, wn = self.g['wo'], self.g['wn']
        return lambda I, d, i: KElem(d, i, z3.And(wn == i, wo != i) if what == 'in' else z3.And(wo == i, wn != i))

    def state_fn(self, q):
        wo, wn = self.g['wo'], self.g['wn']
        return lambda I, d, i: KElem(d, i, z3.If(i < q, wn == i, wo == i))

    def havoc(self, I, L, k):
        gh, g = L.ghost, self.g
        q = gh['base'] + k
        for w, o in gh['regs'].items():
            o.v = (I.fresh(w, B),)
        for w, o in gh['dicts'].items():
            o.__dict__.pop('pairs', None)
            o.__class__ = KDict
            o.setup(g['n'], self.fn(w), lambda I, i, q=q: i < q)
        if g['state'] in L.written:
            g['state'].setup(g['n'], self.state_fn(q), lambda I, i, q=q: z3.Or(i < q, HASS(i)))
        if g['current'] in L.written:
            g['current'].setup(g['n'], g['current'].fn, lambda I, i, q=q: z3.Or(i < q, HASC(i)))
        for x, o in gh['locals']:
            set_local(L, x, o)
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        q = L.ghost['base'] + k
        return [(dict(all='points taken by the names passed', out='points the names passed gave up')
                 .get(w, 'points the names passed took over'), o.get()[0] == self.form(w, q)) for w, o in L.ghost['regs'].items()]

    def facts(self, I, L, k): return self.g['facts'](L.ghost['base'] + k)

    def elem_done(self, I, L, k, ctx):
        gh, g = L.ghost, self.g
        q = gh['base'] + k
        wo, wn = g['wo'], g['wn']
        for d, want, t in [(g['state'], wn == q, 'state: the point belongs to the first name that covers it')] + \
                [(o, self.fn(w)(I, o, q).v[0], f'{w}: where its state changes') for w, o in gh['dicts'].items()]:
            if d not in L.written:
                raise Undecided('state is kept elsewhere')
            if any(not same(i, q) for i, _ in d.over):
                raise Undecided('other names are written')
            v = d.at(I, q)
            if v is None and d is not g['state']:
                raise Undecided('nothing is stored')
            v = v if v is not None else d.val(I, q)
            I.prove(t, v.get()[0] == want)
        if g['state'].at(I, q) is None and not I._check(z3.Not(HASS(q))) == z3.unsat:
            raise Undecided('no state is kept')

    def after(self, I, L):
        gh, g = L.ghost, self.g
        self.g.update(din=gh['dicts'].get('in'), dout=gh['dicts'].get('out'))
        self.g.setdefault('passes', []).append((base_tag(L.it.tag), L.it.n))


def idx_or_void(I, g, t): return g['n'] + g['m'] if t is None else name_index(I, t, g['n'])[0]


class Surf(Spec):
    """over names, when the state of the level is settled: surfaces are made"""

    def __init__(self, g, tr):
        super().__init__('surfaces', lambda I, it: False)
        self.g, self.tr = g, tr

    def outer(self, I): return [(x[3], x[2]) for x in I.loop_stack if x[0] is self and x[3] is not None]

    def pre(self, I, L):
        gh, g = L.ghost, self.g
        gh['traced'] = self.tr in L.written
        gh['regs'] = [o for o in L.written if isinstance(o, PReg)]
        gh['inner'] = bool(self.outer(I))
        if len(gh['regs']) + gh['traced'] != len(L.written) or len(gh['regs']) > 1:
            raise Undecided(f'{self.name}: writes {L.written}')
        gh['locals'] = [(x, L.env.lookup(x)) for x in L.carried() if x in L.assigned and any(L.env.lookup(x) is o for o in gh['regs'])]
        ds = set()
        for x, d in used(I, L, KDict).items():
            ds.add('in' if d is g['din'] else 'out' if d is g['dout'] else '?')
        gh['uses'] = ds
        if gh['inner']:
            if not gh['regs']:
                gh['start'] = None
                return
            gh['start'] = gh['regs'][0].get()[0]
            if len(ds) != 1 or '?' in ds:
                raise Undecided('the inner loop looks at something else')
            if base_tag(L.it.tag) != 'materials':
                raise Undecided('the inner loop is over other names')

    def left(self, L, k):
        gh, g = L.ghost, self.g
        n, wo, wn = g['n'], g['wo'], g['wn']
        w = wo if gh['uses'] == {'out'} else wn
        return z3.And(gh['start'], z3.Not(z3.And(w >= n, w < n + k, wo != wn)))

    def havoc(self, I, L, k):
        gh = L.ghost
        for o in gh['regs']:
            o.v = (I.fresh('left', B),)
        for x, o in gh['locals']:
            set_local(L, x, o)
        if gh['traced']:
            gh['before'] = list(self.tr.events)
            self.tr.events = [('sofar', self.name)]
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        gh = L.ghost
        if gh['inner'] and gh['regs']:
            return [('what is left of the region', gh['regs'][0].get()[0] == self.left(L, k))]
        return []

    def facts(self, I, L, k): return []

    def surfaces(self, I, evs):
        """every surface separates what it says"""
        g = self.g
        n, m, wo, wn = g['n'], g['m'], g['wo'], g['wn']
        out = []
        for e in evs:
            kind, b = e[0], e[-1]
            out.append(z3.If(b, 1, 0))
            if kind == 'hdiel':
                _, below, above, _ = e
                lo, hi = idx_or_void(I, g, below), idx_or_void(I, g, above)
                I.prove('a dielectric surface is where one dielectric (or nothing) is below and another above', z3.Implies(b, z3.And(wo == lo, wn == hi, lo != hi)))
            elif kind == 'in':
                _, net, below, _ = e
                lo, i = idx_or_void(I, g, below), name_index(I, net, n)[0]
                I.prove('the underside of a conductor is where it begins, over what is below', z3.Implies(b, z3.And(wn == i, wo != i, z3.Or(wo == lo, wo < n))))
            elif kind == 'out':
                _, net, above, _ = e
                hi, i = idx_or_void(I, g, above), name_index(I, net, n)[0]
                I.prove('the top of a conductor is where it ends, under what is above', z3.Implies(b, z3.And(wo == i, wn == hi)))
        return sum(out) if out else z3.IntVal(0)

    def elem_done(self, I, L, k, ctx):
        gh, g = L.ghost, self.g
        n, m, wo, wn = g['n'], g['m'], g['wo'], g['wn']
        evs = self.tr.events[1:] if gh['traced'] else []
        loops, ev = [e for e in evs if e[0] == 'loop'], [e for e in evs if e[0] != 'loop']
        cnt = self.surfaces(I, ev)
        if gh['inner']:
            if loops:
                raise Undecided('three loops')
            if not gh['regs']:
                if ev:
                    raise Undecided('surfaces of other regions')
                return
            w = wo if gh['uses'] == {'out'} else wn
            hit = z3.And(self.left(L, k), w == n + k, wo != wn)
            Lo = self.outer(I)[-1][0]
            role = self.role(I, Lo, base_tag(Lo.it.tag) == 'nets')
            # dielectrics that end are only looked through: where another begins, its own pass has made the surface
            I.prove('one surface where the two meet', cnt == (0 if role == ('out', False) else z3.If(hit, 1, 0)))
            return
        net = base_tag(L.it.tag) == 'nets'
        q = (z3.IntVal(0) if net else n) + k
        role = self.role(I, L, net)
        resp = z3.And(wo != wn, {('in', False): z3.And(wn == q, wo >= n), ('out', False): z3.And(wo == q, wn == n + m),
                                 ('in', True): wn == q, ('out', True): z3.And(wo == q, wn >= n)}[role])
        if len(loops) > 1:
            raise Undecided('several inner loops')
        w = wo if role[0] == 'in' else wn
        rest = z3.Or(w < n, w == n + m)
        I.prove(f'a surface where nothing else is left ({role[0]}, {"conductors" if net else "dielectrics"})',
                cnt == z3.If(z3.And(resp, rest), 1, 0))
        if not loops:
            I.prove('nothing is left out', z3.Not(z3.And(resp, z3.Not(rest))))
        for e in loops:
            gi = e[2].ghost
            lead = {('out', False): z3.And(wo == q, wn >= n, wo != wn)}.get(role, resp)
            I.prove('the region looked at is where it changes', gi['start'] == lead)
            I.prove('all the others are looked at', zint(e[2].it.n) == m)

    def role(self, I, L, net):
        """which dict the loop starts from: the first one its body refers to"""
        first = None
        for x in sorted((x for x in ast.walk(L.stmt) if isinstance(x, ast.Name) and L.env.has(x.id)), key=lambda x: (x.lineno, x.col_offset)):
            try:
                v = L.env.lookup(x.id)
            except Exception:
                continue
            if v is self.g['din'] or v is self.g['dout']:
                first = 'in' if v is self.g['din'] else 'out'
                break
        if first is None:
            raise Undecided('surfaces of something else')
        return (first, net)

    def after(self, I, L):
        gh = L.ghost
        if gh['inner']:
            if gh['traced']:
                self.tr.events = gh['before'] + [('loop', self.name, L)]
            elif gh['regs']:
                self.tr.emit(I, 'loop', self.name, L)
            return
        if gh['traced']:
            self.tr.events = gh['before'] + [('loop', self.name, L)]
            L.ghost['role'] = self.role(I, L, base_tag(L.it.tag) == 'nets')


class Ignored(Spec):
    def pre(self, I, L):
        if any(not isinstance(o, PReg) or isinstance(o, KElem) for o in L.written):
            raise Undecided(f'{self.name}: writes {L.written}')

    def havoc(self, I, L, k):
        for o in L.written:
            for x in L.carried():
                if L.env.lookup(x) is o and x in L.assigned:
                    set_local(L, x, o)
            o.v = (I.fresh('some', B),)
        mark_havoc(L, *L.written)


def finish(I):
    """requires: at the point, name wo had it (the first that covered it; n + m: none) and the sheets cover it as they say.
    ensures: the first name that covers it has it now; where the owner changes there is exactly one surface, and it says who is below and above"""
    install(I)
    tr = I.ghost['trace'] = Trace()
    n, m, wo, wn = [I.fresh(x, Z) for x in ('nnets', 'nmaterials', 'owner_below', 'owner_above')]
    I.assume(n >= 0, m >= 0, wo >= 0, wn >= 0, wo <= n + m, wn <= n + m)
    nets, mats = names(I, n, m)
    g = dict(n=n, m=m, wo=wo, wn=wn)

    def facts(i):
        return [z3.Implies(WAS(i), wo <= i), z3.Implies(wo == i, WAS(i)), z3.Implies(CUR(i), wn <= i), z3.Implies(wn == i, CUR(i)),
                z3.Implies(z3.Not(HASC(i)), z3.Not(WAS(i))), z3.Implies(z3.Not(HASS(i)), wo != i)]
    g['facts'] = facts
    state = g['state'] = KDict(n, lambda I, d, i: KElem(d, i, wo == i), lambda I, i: HASS(i))
    cur = g['current'] = KDict(n, lambda I, d, i: CurRef(i), lambda I, i: HASC(i))

    def sheets(what):
        class Given(Model):
            kind = 'layers_' + what

            def m_get(self, I, k, default=None): return Record('sheets', dict(what=what), ident=key_index(I, k, n))
        return Given()
    I.contracts[GEN + ':FasterCapModelGenerator._merge_events'] = lambda I, a, kw: do_merge(I, a, kw)

    def do_merge(I, a, kw):
        ps = dict(zip(('pyra', 'lin', 'lout'), a))
        ps.update(kw)
        p = ps['pyra']
        i = p.i if isinstance(p, CurRef) else next((j for j, v in cur.over if v is p), None)
        if i is None:
            raise Undecided('merges something else')
        if isinstance(p, ListVal):
            if p.items:
                raise Undecided('a list that was not empty')
            I.assume(z3.Not(WAS(i)))
        for x in ('lin', 'lout'):
            s = ps[x]
            if not isinstance(s, Record) or s.name != 'sheets':
                raise Undecided('sheets from elsewhere')
            I.prove('the sheets of this name, coming and going', z3.And(z3.BoolVal(s.fields['what'] == x[1:]), s.ident == i))
        c = PReg(CUR(i))
        c.put = None
        return (PReg(z3.And(CUR(i), z3.Not(WAS(i)))), PReg(z3.And(WAS(i), z3.Not(CUR(i)))), c)
    for f, ev, ps in (('generate_hdiel', 'hdiel', ('below', 'above', 'layer')), ('generate_hcond_in', 'in', ('net_name', 'below', 'layer')),
                      ('generate_hcond_out', 'out', ('net_name', 'above', 'layer'))):
        def con(I, a, kw, ev=ev, ps=ps):
            d = dict(zip(ps, a[1:]))
            d.update(kw)
            tr.emit(I, ev, *[d[p] for p in ps[:-1]], d['layer'].get()[0])
        I.contracts[f'{GEN}:FasterCapModelGenerator.{f}'] = con
    I.ghost['reduce'] = lambda I, f, it, *init: PReg(I.fresh('some', B)) if init else undec('reduce without a start')

    def undec(t): raise Undecided(t)
    I.roots = [state, cur, tr]
    gen = Obj(I.repo(GEN, 'FasterCapModelGenerator'), dict(net_names=nets, materials=mats, state=state, current=cur, layers_in=sheets('in'),
                                                           layers_out=sheets('out'), z=I.fresh('z', R)))
    prio, surf, ign = Prio(g), Surf(g, tr), Ignored('check', lambda I, it: False)

    def pick(it):
        t = base_tag(it.tag)
        if t in ('nets', 'materials'):
            if len(g.get('passes', [])) < 2:
                return prio
            return surf
        return ign
    I.auto_loop = pick
    f = I.repo(GEN, 'FasterCapModelGenerator.finish_z')
    I.call(BoundMethod(f[1] if isinstance(f, tuple) else f, gen), [])
    I.prove('every name is settled once, nets first', z3.And(z3.BoolVal([t for t, _ in g.get('passes', [])] == ['nets', 'materials']),
                                                             *[zint(x) == dict(nets=n, materials=m)[t] for t, x in g.get('passes', [])]))
    ls = [e[2] for e in tr.events if e[0] == 'loop']
    if len(ls) != len(tr.events):
        raise Undecided('surfaces outside of loops')
    I.prove('all kinds of surfaces are made', z3.BoolVal(sorted(L.ghost['role'] for L in ls) ==
                                                        sorted([('in', False), ('out', False), ('in', True), ('out', True)])))
    for L in ls:
        I.prove('for all names', zint(L.it.n) == (n if L.ghost['role'][1] else m))
    i = I.fresh('some_name', Z)
    I.prove('afterwards the point belongs to the first name that covers it',
            z3.Implies(z3.And(i >= 0, i < n + m), state.val(I, i).get()[0] == (wn == i)))



# ---------------------------------------------------------------- walls between two levels
class Each(Spec):
    """over the edges of a set: seen at one place, where the set has an edge or has not"""

    def __init__(self, tr):
        super().__init__('edges', lambda I, it: isinstance(it.base, PEdges))
        self.tr = tr

    def pre(self, I, L):
        if any(o is not self.tr for o in L.written):
            raise Undecided(f'{self.name}: writes {L.written}')

    def havoc(self, I, L, k):
        L.ghost['before'] = list(self.tr.events)
        mark_havoc(L, *L.written)

    def on_break(self, I, L, k): raise Undecided('edges are left out')

    def after(self, I, L):
        self.tr.events = L.ghost['before']
        bind, body = L.ghost['replay']
        if I.branch(L.it.base.on):
            try:
                bind(I, I.fresh('edge', Z))
                body()
            except _eng._Continue:
                pass


class Walls(Spec):
    """over names: the walls of what the name owns"""

    def __init__(self, g, tr):
        super().__init__('walls', lambda I, it: base_tag(it.tag) in ('nets', 'materials'))
        self.g, self.tr = g, tr

    def outer(self, I): return [(x[3], x[2]) for x in I.loop_stack if x[0] is self and x[3] is not None]

    def pre(self, I, L):
        gh = L.ghost
        gh['traced'] = self.tr in L.written
        gh['regs'] = [o for o in L.written if isinstance(o, PReg) and not isinstance(o, KElem)]
        gh['edges'] = [o for o in L.written if isinstance(o, PEdges)]
        gh['inner'] = bool(self.outer(I))
        if len(gh['regs']) + len(gh['edges']) + gh['traced'] != len(L.written) or len(gh['regs']) > 1 or len(gh['edges']) > 1:
            raise Undecided(f'{self.name}: writes {L.written}')
        own = gh['regs'] + gh['edges']
        gh['locals'] = [(x, L.env.lookup(x)) for x in L.carried() if x in L.assigned and any(L.env.lookup(x) is o for o in own)]
        if gh['regs'] and base_tag(L.it.tag) != 'nets':
            raise Undecided('a region of other names')
        gh['start'] = None
        if gh['inner']:
            if base_tag(L.it.tag) != 'materials':
                raise Undecided('the inner loop is over other names')
            if gh['edges']:
                gh['start'] = gh['edges'][0].on
                gh['side'] = gh['edges'][0].inner
        elif gh['edges']:
            raise Undecided('edges are kept from name to name')

    def q(self, L, k): return (z3.IntVal(0) if base_tag(L.it.tag) == 'nets' else self.g['n']) + k

    def other(self, q):
        l, r = self.g['l'], self.g['r']
        return z3.If(l == q, r, l)

    def left(self, I, L, k):
        Lo, ko = self.outer(I)[-1]
        o = self.other(self.q(Lo, ko))
        n = self.g['n']
        return z3.And(L.ghost['start'], z3.Not(z3.And(o >= n, o < n + k)))

    def havoc(self, I, L, k):
        gh = L.ghost
        for o in gh['regs']:
            o.v = (I.fresh('left', B), I.fresh('right', B))
        for o in gh['edges']:
            o.on = I.fresh('on', B)
        for x, o in gh['locals']:
            set_local(L, x, o)
        if gh['traced']:
            gh['before'] = list(self.tr.events)
            self.tr.events = [('sofar', self.name)]
        mark_havoc(L, *L.written)

    def inv(self, I, L, k):
        gh, g = L.ghost, self.g
        out = []
        for o in gh['regs']:
            v = o.get()
            out.append(('conductors passed', z3.And(v[0] == (g['l'] < k), v[1] == (g['r'] < k))))
        if gh['inner'] and gh['edges']:
            out.append(('edges that are left', gh['edges'][0].on == self.left(I, L, k)))
        return out

    def facts(self, I, L, k):
        q = self.q(L, k)
        return [z3.Implies(z3.Not(HASS(q)), z3.And(self.g['l'] != q, self.g['r'] != q))]

    def walls(self, I, evs):
        g = self.g
        for e in evs:
            kind, ins, outs, edge = e
            if not isinstance(edge, PEdge):
                raise Undecided('the wall of something else')
            i, o = idx_or_void(I, g, ins), idx_or_void(I, g, outs)
            if kind == 'vcond':
                I.prove('a conductor wall is one of a net', i < g['n'])
            I.prove('a wall has what it says on its inside (right of the edge) and outside',
                    z3.If(edge.inner, z3.And(g['r'] == i, g['l'] == o), z3.And(g['l'] == i, g['r'] == o)))
            I.prove('it separates two', i != o)
        return z3.IntVal(len(evs))

    def elem_done(self, I, L, k, ctx):
        gh, g = L.ghost, self.g
        n, m, l, r = g['n'], g['m'], g['l'], g['r']
        evs = self.tr.events[1:] if gh['traced'] else []
        loops, ev = [e for e in evs if e[0] == 'loop'], [e for e in evs if e[0] != 'loop']
        cnt = self.walls(I, ev)
        if gh['inner']:
            if loops:
                raise Undecided('three loops')
            Lo, ko = self.outer(I)[-1]
            q = self.q(Lo, ko)
            if gh['start'] is None:
                if ev:
                    raise Undecided('walls of other regions')
                return
            hit = z3.And(self.left(I, L, k), self.other(q) == n + k)
            if base_tag(Lo.it.tag) != 'nets':     # each pair of dielectrics once
                conv = I.__dict__.setdefault('c22conv', {})
                ways = {'>': n + k > q, '<': n + k < q}
                if 'way' not in conv:
                    ok = [w for w, c in ways.items() if I._check(cnt != z3.If(z3.And(hit, c), 1, 0)) == z3.unsat]
                    if len(ok) == 1:
                        conv['way'] = ok[0]
                hit = z3.And(hit, ways[conv.get('way', '>')])
            I.prove('one wall where the two meet', cnt == z3.If(hit, 1, 0))
            return
        if gh['regs']:
            if ev or loops:
                raise Undecided('walls while collecting')
            return
        net = base_tag(L.it.tag) == 'nets'
        q = self.q(L, k)
        resp = z3.And(z3.Xor(l == q, r == q), True if net else self.other(q) >= n)
        rest = self.other(q) == n + m
        I.prove(f'a wall where nothing else is left ({"conductors" if net else "dielectrics"})', cnt == z3.If(z3.And(resp, rest), 1, 0))
        if len(loops) > 1:
            raise Undecided('several inner loops')
        if not loops:
            I.prove('nothing is left out', z3.Not(z3.And(resp, z3.Not(rest))))
        for e in loops:
            I.prove('the edges looked at are those of what it owns', e[2].ghost['start'] == resp)
            I.prove('all the others are looked at', zint(e[2].it.n) == m)

    def after(self, I, L):
        gh = L.ghost
        if gh['traced']:
            self.tr.events = gh['before'] + [('loop', self.name, L)]
        elif gh['inner'] and gh['edges']:
            self.tr.emit(I, 'loop', self.name, L)


def walls(I):
    """requires: the point left of a place belongs to l, the point right of it to r (n + m: none); not two nets.
    ensures: iff they differ there is exactly one wall, with its inside and outside as they are, from the level before to this one"""
    install(I, 2)
    tr = I.ghost['trace'] = Trace()
    n, m, l, r = [I.fresh(x, Z) for x in ('nnets', 'nmaterials', 'owner_left', 'owner_right')]
    I.assume(n >= 0, m >= 0, l >= 0, r >= 0, l <= n + m, r <= n + m, z3.Not(z3.And(l < n, r < n, l != r)))
    nets, mats = names(I, n, m)
    g = dict(n=n, m=m, l=l, r=r)
    state = KDict(n, lambda I, d, i: KElem(d, i, l == i, r == i), lambda I, i: HASS(i))
    I.roots = [tr, state]
    z0, z1 = I.fresh('z0', R), I.fresh('z1', R)
    ins, outs = DictVal([]), DictVal([])
    gen = Obj(I.repo(GEN, 'FasterCapModelGenerator'), dict(net_names=nets, materials=mats, state=state, z=z0, zz=I.fresh('zz', R),
                                                           layers_in=ins, layers_out=outs))
    for f, ev, ps in (('generate_vdiel', 'vdiel', ('outside', 'inside', 'edge')), ('generate_vcond', 'vcond', ('net_name', 'outside', 'edge'))):
        def con(I, a, kw, ev=ev, ps=ps):
            d = dict(zip(ps, a[1:]))
            d.update(kw)
            I.prove('walls reach from the level before to this one', z3.And(zreal(gen.fields['z']) == z0, zreal(gen.fields['zz']) == z1))
            tr.emit(I, ev, d.get('inside', d.get('net_name')), d['outside'], d['edge'])
        I.contracts[f'{GEN}:FasterCapModelGenerator.{f}'] = con
    I.loop_specs = [Each(tr), Walls(g, tr)]
    f = I.repo(GEN, 'FasterCapModelGenerator.next_z')
    I.call(BoundMethod(f[1] if isinstance(f, tuple) else f, gen), [z1])
    ls = [e[2] for e in tr.events if e[0] == 'loop']
    if len(ls) != len(tr.events):
        raise Undecided('walls outside of loops')
    I.prove('walls of all kinds are made', z3.BoolVal(sorted(base_tag(L.it.tag) for L in ls) == ['materials', 'nets']))
    for L in ls:
        I.prove('for all names', zint(L.it.n) == (n if base_tag(L.it.tag) == 'nets' else m))
    I.prove('this level is the current one', zreal(gen.fields['z']) == z1)
    for x in ('layers_in', 'layers_out'):
        d = gen.fields[x]
        I.prove('its sheets are still to come', z3.BoolVal(isinstance(d, DictVal) and not d.pairs))


HARNESSES = [('merge', merge), ('finish', finish), ('walls', walls), ('horizontal', horizontal), ('wall', wall), ('side', side), ('upright', upright),
             ('finalize', finalize), ('sheets', sheets), ('put', put), ('build', build)]
