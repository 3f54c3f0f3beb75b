from .common import *

MOD = 'klayout_pex.util.multiple_choice'
NAME = z3.DeclareSort('Text')
ASSUMPTIONS = ['str.split, lower, strip, startswith and slicing are those of Python (functions of the text)', 'lower() of a lower-case text is the text']
COMP = z3.Function('component', Z, NAME)          # pieces between commas
LOW, STRIP, REST = z3.Function('lower', NAME, NAME), z3.Function('strip', NAME, NAME), z3.Function('without_sign', NAME, NAME)
STARTS = {c: z3.Function('starts_' + n, NAME, B) for c, n in (('+', 'plus'), ('-', 'minus'))}


def bool_expr(I, x): return x if is_sym(x) else z3.BoolVal(bool(x))


class Text(Model):
    kind = 'Text'

    def __init__(self, t):
        super().__init__()
        self.t = t

    def m_lower(self, I): return Text(LOW(self.t))
    def m_casefold(self, I): return Text(LOW(self.t))

    def m_strip(self, I, *a):
        if a:
            raise Undecided('strip of something')
        # changing the case and taking off spaces commute
        inner = self.t.decl().eq(LOW) and self.t.arg(0)
        return Text(LOW(STRIP(self.t.arg(0)))) if inner is not False and is_sym(inner) else Text(STRIP(self.t))

    def m_startswith(self, I, p):
        if p not in STARTS:
            raise Undecided(f'startswith {p!r}')
        I.assume(z3.Not(z3.And(STARTS['+'](self.t), STARTS['-'](self.t))))
        return STARTS[p](self.t)

    def m_removeprefix(self, I, p):
        raise Undecided('removeprefix')

    def getitem(self, I, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (1, None, None):
            return Text(REST(self.t))
        raise Undecided('part of a text')

    def eq(self, I, o):
        if isinstance(o, Text):
            return self.t == o.t
        if isinstance(o, str):
            l = I.literal(o, NAME)
            if o in ('all', 'none'):
                I.assume(z3.Implies(self.t == l, z3.Not(z3.Or(STARTS['+'](self.t), STARTS['-'](self.t)))))
            return self.t == l
        return False
    def isinst(self, I, d): return None


class Pattern(Text):
    def __init__(self, n):
        super().__init__(z3.Const('pattern', NAME))
        self.n = n

    def m_split(self, I, sep=None, maxsplit=-1):
        if sep != ',' or maxsplit != -1:
            raise Undecided('split')
        return SymSeq('components', self.n, lambda I, i: Text(COMP(zint(i))))


def setup(I):
    auto(I)
    n, g, h = I.fresh('n', Z), I.fresh('g', Z), I.fresh('h', Z)
    I.assume(n >= 1)
    I.ghost['marks'] = [g, h]
    c = lambda i: LOW(STRIP(COMP(i)))
    inr = lambda i: z3.And(i >= 0, i < n)
    is_ = lambda i, w: z3.And(inr(i), c(i) == I.literal(w, NAME))
    has = lambda i, s, nm=None: z3.And(inr(i), STARTS[s](c(i)), *([REST(c(i)) == nm] if nm is not None else []))
    for i in (g, h):
        for w in ('all', 'none'):
            I.assume(z3.Implies(c(i) == I.literal(w, NAME), z3.Not(z3.Or(STARTS['+'](c(i)), STARTS['-'](c(i))))))
        I.assume(z3.Not(z3.And(STARTS['+'](c(i)), STARTS['-'](c(i)))))
    try:
        p = I.instantiate(I.repo(MOD, 'MultipleChoicePattern'), [], dict(pattern=Pattern(n)))
    except PyRaise as e:
        p = e
    some = lambda f: z3.Or(*[f(i) for i in I.ghost['marks']])
    return p, g, h, is_, has, some


def errors(I):
    """requires: any pattern.  ensures: rejected iff it has both all and none, none with an exclusion, or all with an inclusion"""
    p, g, h, is_, has, some = setup(I)
    bad = lambda a, b: z3.Or(z3.And(is_(a, 'all'), is_(b, 'none')), z3.And(is_(a, 'none'), has(b, '-')), z3.And(is_(a, 'all'), has(b, '+')))
    if isinstance(p, PyRaise):
        I.prove('the error is a ValueError', z3.BoolVal('ValueError' in repr(p.exc)))
        ms = list(I.ghost['marks'])
        I.prove('only contradictory patterns are rejected', z3.Or(*[bad(a, b) for a in ms for b in ms]))
    else:
        I.prove('contradictory patterns are rejected', z3.Not(bad(g, h)))


def included(I):
    """requires: a pattern that is not contradictory.  ensures: with all everything but the exclusions is included, else exactly the inclusions"""
    p, g, h, is_, has, some = setup(I)
    if isinstance(p, PyRaise):
        return
    x = I.fresh('choice', NAME)
    r = bool_expr(I, I.call(I.getattr(p, 'is_included'), [Text(x)]))
    lx = LOW(x)
    if I.branch(r):
        I.prove('included: with all, not excluded', z3.Implies(is_(h, 'all'), z3.Not(has(g, '-', lx))))
        I.prove('included: all or listed', z3.Or(some(lambda i: is_(i, 'all')), some(lambda i: has(i, '+', lx))))
    else:
        I.prove('left out: with all, only what is excluded', z3.Implies(is_(h, 'all'), some(lambda i: has(i, '-', lx))))
        I.prove('left out: what is listed is included', z3.Not(has(g, '+', lx)))


def keeps(I, r, j):
    """does element j stay (decided on this path)"""
    if isinstance(r, Collected):
        return not r.maybe_none or len(r.replay(I, j)) == 1
    e = r.bind(I, j)
    return all(I.truth(I.eval(c, e)) for c in r.g.ifs)


def filters(I):
    """requires: any pattern and list of names.  ensures: filter keeps exactly the names that are included, in order"""
    p, g, h, is_, has, some = setup(I)
    if isinstance(p, PyRaise):
        return
    n = I.fresh('nchoices', Z)
    I.assume(n >= 0)
    ch = z3.Function('choice_at', Z, NAME)
    cs = {}

    def get(I, i):
        i = zint(i)
        return cs.setdefault(str(i), Text(ch(i)))
    r = I.call(I.getattr(p, 'filter'), [SymSeq('choices', n, get)])
    if not isinstance(r, CompSeq) or base_tag(r.it.tag) != 'choices':
        raise Undecided(f'filter gives {r!r}')
    j = I.fresh('j', Z)
    I.assume(j >= 0, j < n)
    I.prove('all names are looked at', r.it.n == n)
    lx = LOW(ch(j))
    if keeps(I, r, j):
        e2 = z3.And(z3.Implies(is_(h, 'all'), z3.Not(has(g, '-', lx))), z3.Or(some(lambda i: is_(i, 'all')), some(lambda i: has(i, '+', lx))))
        I.prove('kept: included', e2)
    else:
        I.prove('dropped: with all, only what is excluded', z3.Implies(is_(h, 'all'), some(lambda i: has(i, '-', lx))))
        I.prove('dropped: what is listed is kept', z3.Not(has(g, '+', lx)))
    x = r.at(I, j)
    I.prove('the name itself', x.t == ch(j) if isinstance(x, Text) else z3.BoolVal(False))


HARNESSES = [('errors', errors), ('is_included', included), ('filter', filters)]
