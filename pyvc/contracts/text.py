"""lines of text made of known pieces and tokens of arbitrary content, and regular expressions on them (assumed contract of re):
the pattern in the source is matched piece by piece; a result that would depend on where a token is split is Undecided"""
from .common import *
import re, re._parser as sre, re._constants as K

UNI = [chr(c) for c in range(32, 127)] + ['\n', '\t', 'é', '→']
ALL = frozenset(UNI)
DIG = frozenset('0123456789')
def minus(chars): return ALL - frozenset(chars) - frozenset('\n')


class Tok:
    """text of one or more characters from chars; value: what it stands for"""
    def __init__(self, name, chars, value=None, of=None, words=None):
        self.name, self.chars, self.value, self.of, self.words = name, frozenset(chars), value, of, words
    def __repr__(self): return f'<{self.name}>'


class Opt:
    """pieces that are there iff cond"""
    def __init__(self, cond, pieces, of=None):
        self.cond, self.pieces, self.of = cond, pieces, of


class Num:
    """what pieces of a number belong to"""
    def __init__(self, value, kind): self.value, self.kind = value, kind


def integer(name, v):
    n = Num(v, 'int')
    return [Opt(v < 0, ['-'], n), Tok(name, DIG, of=n)]


def floating(name, v, *ix):
    """as printed by %g"""
    n = Num(v, 'float')
    f = lambda w: z3.Function(f'{w} of {name}', *[Z] * len(ix), B)(*ix)
    return [Opt(v < 0, ['-'], n), Tok(name, DIG, of=n), Opt(f('fraction'), ['.', Tok(name + '.', DIG)], n),
            Opt(f('exponent'), ['e', Tok(name + ' sign', '+-', words=1), Tok(name + 'e', DIG)], n)]


def explode(p, of=None):
    out = []
    for x in p:
        if isinstance(x, str):
            out += [(c, of) for c in x]
        else:
            out.append((x, x.of or of))
    return out


class _Again(Exception):
    pass


class Inside:
    """a place inside token i"""
    def __init__(self, i): self.i = i
    def __eq__(self, o): return isinstance(o, Inside) and o.i == self.i
    def __hash__(self): return hash(('in', self.i))


CLS = {}


def charset(op, av, flags):
    """the characters a one-character pattern stands for, or None"""
    if op not in (K.LITERAL, K.NOT_LITERAL, K.IN, K.ANY):
        return None
    key = (op, repr(av), flags)
    if key not in CLS:
        if flags & re.IGNORECASE:
            raise Undecided('IGNORECASE')
        if op == K.ANY:
            CLS[key] = ALL if flags & re.DOTALL else ALL - {'\n'}
        elif op == K.LITERAL:
            CLS[key] = frozenset(chr(av))
        elif op == K.NOT_LITERAL:
            CLS[key] = ALL - {chr(av)}
        else:
            out, neg = set(), False
            for o, v in av:
                if o == K.NEGATE:
                    neg = True
                elif o == K.LITERAL:
                    out.add(chr(v))
                elif o == K.RANGE:
                    out |= {chr(c) for c in range(v[0], min(v[1], 127) + 1)}
                elif o == K.CATEGORY:
                    esc = {K.CATEGORY_DIGIT: r'\d', K.CATEGORY_NOT_DIGIT: r'\D', K.CATEGORY_SPACE: r'\s', K.CATEGORY_NOT_SPACE: r'\S',
                           K.CATEGORY_WORD: r'\w', K.CATEGORY_NOT_WORD: r'\W'}.get(v) or _u('category')
                    out |= {c for c in UNI if re.fullmatch(esc, c, flags & re.ASCII)}
                else:
                    raise Undecided(f'pattern class {o}')
            CLS[key] = (ALL - out) if neg else frozenset(out)
    return CLS[key]


class Text(Model):
    """a text (or a part of one)"""
    kind = 'Text'

    def __init__(self, atoms):
        super().__init__()
        self.atoms = atoms

    def __repr__(self): return ''.join(str(a[0]) if isinstance(a[0], (str, Tok)) else '?' for a in self.atoms)

    def literal(self):
        return ''.join(a for a, _ in self.atoms) if all(isinstance(a, str) for a, _ in self.atoms) else None

    def simple(self):
        """a text that is known, or one whole token that stands for something"""
        if len(self.atoms) == 1 and isinstance(self.atoms[0][0], Tok) and self.atoms[0][0].value is not None:
            return self.atoms[0][0].value
        s = self.literal()
        return s if s is not None and all(of is None for _, of in self.atoms) else self

    def truth(self, I):
        if any(not isinstance(a, Opt) for a, _ in self.atoms):
            return True
        if not self.atoms:
            return False
        raise Undecided('truth of a text')

    def strip(self, I, left, right):
        a = list(self.atoms)
        ws = frozenset(' \t\n')
        def ok(x, step=1):
            if isinstance(x, Opt):           # what is optional is no blank, nor what is next to it
                rest = [b for b, _ in (a if step == 1 else a[::-1]) if not isinstance(b, Opt)]
                if any(isinstance(y, str) and y in ws for y in x.pieces) or not rest or ok(rest[0]):
                    raise Undecided('strip next to something optional')
                return False
            if isinstance(x, Tok) and x.chars & ws and not x.words:
                raise Undecided('strip next to a token')
            return isinstance(x, str) and x in ws
        while left and a and ok(a[0][0]): a.pop(0)
        while right and a and ok(a[-1][0], -1): a.pop()
        return Text(a)

    def m_strip(self, I, *c): return self.strip(I, True, True) if not c else _u('strip(chars)')
    def m_rstrip(self, I, *c): return self.strip(I, False, True) if not c or c == ('\n',) else _u('strip(chars)')
    def m_lstrip(self, I, *c): return self.strip(I, True, False) if not c else _u('strip(chars)')

    def resolve(self, I):
        out = []
        for a, of in self.atoms:
            if isinstance(a, Opt):
                if I.branch(a.cond):
                    out += explode(a.pieces, of)
            else:
                out.append((a, of))
        self.atoms = out

    def starts(self, I, s):
        self.resolve_near(I)
        for c, (a, of) in zip(s, self.atoms):
            if isinstance(a, Tok):
                return False if c not in a.chars else _u('startswith inside a token')
            if a != c:
                return False
        return len(self.atoms) >= len(s) or _u('startswith')

    def resolve_near(self, I): self.resolve(I)

    def m_startswith(self, I, s):
        return any(self.starts(I, x) for x in (s if isinstance(s, tuple) else (s,)))

    def m_endswith(self, I, s):
        self.resolve(I)
        for c, (a, of) in zip(reversed(s), reversed(self.atoms)):
            if isinstance(a, Tok):
                return False if c not in a.chars else _u('endswith inside a token')
            if a != c:
                return False
        return len(self.atoms) >= len(s) or _u('endswith')

    def m_removesuffix(self, I, s): return Text(self.atoms[:-len(s)]).simple() if self.m_endswith(I, s) is True else self
    def m_removeprefix(self, I, s): return Text(self.atoms[len(s):]).simple() if self.m_startswith(I, s) is True else self

    def contains(self, I, x):
        self.resolve(I)
        s = ''.join(a if isinstance(a, str) else '\0' for a, _ in self.atoms)
        if x in s:
            return True
        if any(isinstance(a, Tok) and a.chars & frozenset(x) for a, _ in self.atoms):
            _u('search next to a token')
        return False

    def eq(self, I, o):
        if isinstance(o, str):
            if len(o) < len([a for a, _ in self.atoms if not isinstance(a, Opt)]):
                return False
            s = self.literal()
            if s is not None:
                return s == o
        raise Undecided(f'text {self!r} compared')

    def number(self, I, kinds):
        """the number this text is"""
        ofs = {id(of): of for _, of in self.atoms}
        if len(ofs) == 1 and list(ofs.values())[0] is not None:
            n = list(ofs.values())[0]
            if self.whole(n):
                if n.kind not in kinds:
                    if n.kind == 'float' and kinds == ('int',):
                        if any(isinstance(a, str) and a in '.e' for a, _ in self.atoms):
                            I.raise_('ValueError', 'int')
                        raise Undecided('int of a float text')
                return n.value
        return None

    def whole(self, n): return getattr(self, 'is_whole', False)


def _u(m): raise Undecided(m)


class Line(Text):
    """a text that patterns are matched against"""
    kind = 'Line'

    def __init__(self, pieces):
        super().__init__(explode(pieces))

    def m_strip(self, I, *c):
        t = super().m_strip(I, *c)
        l = Line([])
        l.atoms = t.atoms
        return l
    m_rstrip = m_strip


def sub(I, text, i, j):
    """characters i..j of the text"""
    t = Text(text.atoms[i:j])
    ofs = [of for _, of in t.atoms]
    if ofs and ofs[0] is not None and all(o is ofs[0] for o in ofs):
        t.is_whole = (i == 0 or text.atoms[i - 1][1] is not ofs[0]) and (j == len(text.atoms) or text.atoms[j][1] is not ofs[0])
    return t.simple()


def match(I, pattern, flags, how, text):
    if not isinstance(pattern, str):
        raise Undecided('pattern')
    p = sre.parse(pattern, flags)
    fl = p.state.flags
    names = p.state.groupdict
    while True:
        try:
            atoms = text.atoms
            starts = [0] if how != 'search' else list(range(len(atoms) + 1))
            for s in starts:
                if how == 'search' and s < len(atoms) and isinstance(atoms[s][0], Opt):
                    resolve(I, text, s)
                for pos, g in run(I, text, list(p), s, {}, fl):
                    if how == 'fullmatch' and not at_end(I, text, pos):
                        continue
                    if g.get('inside') or isinstance(pos, Inside):
                        raise Undecided('a match inside a token')
                    return Match(I, text, dict(g, **{}), names, p.state.groups, s, pos)
                if how == 'search' and s < len(atoms) and isinstance(atoms[s][0], Tok):
                    for pos, g in run(I, text, list(p), Inside(s), {}, fl):
                        raise Undecided('a match inside a token')
            return None
        except _Again:
            continue


def resolve(I, text, i):
    a, of = text.atoms[i]
    new = explode(a.pieces, of) if I.branch(a.cond) else []
    text.atoms = text.atoms[:i] + new + text.atoms[i + 1:]
    raise _Again()


def at_end(I, text, pos):
    if isinstance(pos, Inside):
        return False
    if pos < len(text.atoms) and isinstance(text.atoms[pos][0], Opt):
        resolve(I, text, pos)
    return pos == len(text.atoms)


def one(I, text, pos, cs, fl):
    """positions after one character of cs"""
    if isinstance(pos, Inside):
        t = text.atoms[pos.i][0]
        if t.chars & cs:
            yield pos, True
            yield pos.i + 1, True
        return
    if pos >= len(text.atoms):
        return
    a = text.atoms[pos][0]
    if isinstance(a, Opt):
        resolve(I, text, pos)
    if isinstance(a, Tok):
        if a.words == 1:                 # exactly one character
            if a.chars <= cs:
                yield pos + 1, False
            elif a.chars & cs:
                raise Undecided('a character that may match')
            return
        if a.chars & cs:
            yield Inside(pos), True
            yield pos + 1, True
        return
    if a in cs:
        yield pos + 1, False


def many(I, text, pos, cs, lo, hi):
    """positions reached by lo..hi characters of cs, fewest first, with (inside?)"""
    out = [(pos, False)] if lo == 0 else []
    n = 0
    if isinstance(pos, Inside):
        t = text.atoms[pos.i][0]
        if not t.chars & cs:
            return out
        out.append((pos, True))
        if not t.chars <= cs:
            return out
        pos = pos.i + 1
        n = 1
        out.append((pos, True))
    while pos < len(text.atoms) and (hi == K.MAXREPEAT or n < hi):
        a = text.atoms[pos][0]
        if isinstance(a, Opt):
            resolve(I, text, pos)
        if isinstance(a, Tok) and a.words != 1:
            if not a.chars & cs:
                break
            if a.chars <= cs and hi == K.MAXREPEAT:
                out.append((Inside(pos), True))
            elif a.chars <= cs or hi != K.MAXREPEAT:
                out.append((Inside(pos), True))
                break
            else:
                key = ''.join(sorted(cs))
                if not I.branch(z3.Const(f'all of {a.name} in {hash_of(key)}', B)):
                    out.append((Inside(pos), True))
                    break
                out.append((Inside(pos), True))
        elif isinstance(a, Tok):
            if not a.chars <= cs:
                if a.chars & cs:
                    raise Undecided('a character that may match')
                break
        elif a not in cs:
            break
        pos += 1
        n += 1
        if n >= lo:
            out.append((pos, False))
    return out


def hash_of(s): return __import__('hashlib').sha1(s.encode()).hexdigest()[:8]


def run(I, text, ops, pos, g, fl):
    """all ways to match ops from pos, in the order of backtracking"""
    if not ops:
        yield pos, g
        return
    (op, av), rest = ops[0], ops[1:]
    cs = charset(op, av, fl)
    if cs is not None:
        for q, ins in one(I, text, pos, cs, fl):
            yield from run(I, text, rest, q, dict(g, inside=True) if ins else g, fl)
        return
    if op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, body = av
        body = list(body)
        if (lo, hi) == (0, 1) and body == [(K.LITERAL, ord('-'))] and op == K.MAX_REPEAT and not isinstance(pos, Inside) \
                and pos < len(text.atoms) and isinstance(text.atoms[pos][0], Opt) and text.atoms[pos][0].pieces == ['-']:
            nx = rest[0] if rest else None
            cn = charset(*nx, fl) if nx and nx[0] not in (K.MAX_REPEAT, K.MIN_REPEAT) else \
                charset(*list(nx[1][2])[0], fl) if nx and nx[1][0] >= 1 and len(list(nx[1][2])) == 1 else None
            if cn is None or '-' in cn:
                resolve(I, text, pos)
            yield from run(I, text, rest, pos + 1, g, fl)       # the sign if there is one
            return
        cs = charset(*body[0], fl) if len(body) == 1 else None
        if cs is not None:
            ps = many(I, text, pos, cs, lo, hi)
            for q, ins in (reversed(ps) if op == K.MAX_REPEAT else ps):
                yield from run(I, text, rest, q, dict(g, inside=True) if ins else g, fl)
            return

        def rep(n, pos, g):
            more = []
            if hi == K.MAXREPEAT or n < hi:
                def again():
                    for q, g2 in run(I, text, body, pos, g, fl):
                        if q != pos or n < lo:
                            yield from rep(n + 1, q, g2)
                more = again
            stop = (lambda: run(I, text, rest, pos, g, fl)) if n >= lo else (lambda: ())
            first, second = (more or (lambda: ()), stop) if op == K.MAX_REPEAT else (stop, more or (lambda: ()))
            yield from first()
            yield from second()
        yield from rep(0, pos, g)
        return
    if op == K.SUBPATTERN:
        num, add, rem, body = av
        if add or rem:
            raise Undecided('flags in a pattern')
        for q, g2 in run(I, text, list(body), pos, g, fl):
            yield from run(I, text, rest, q, dict(g2, **{str(num): (pos, q)}) if num else g2, fl)
        return
    if op == K.BRANCH:
        for alt in av[1]:
            yield from run(I, text, list(alt) + rest, pos, g, fl)
        return
    if op == K.AT:
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            if pos == 0:
                yield from run(I, text, rest, pos, g, fl)
            return
        if av in (K.AT_END, K.AT_END_STRING):
            if at_end(I, text, pos) or av == K.AT_END and not isinstance(pos, Inside) and pos == len(text.atoms) - 1 and text.atoms[pos][0] == '\n':
                yield from run(I, text, rest, pos, g, fl)
            return
    raise Undecided(f'pattern element {op}')


class Match(Model):
    kind = 'Match'

    def __init__(self, I, text, g, names, n, s, e):
        super().__init__()
        self.text, self.g, self.names, self.n, self.s, self.e = text, g, names, n, s, e

    def truth(self, I): return True

    def m_group(self, I, *ks):
        if len(ks) > 1:
            return tuple(self.m_group(I, k) for k in ks)
        k = ks[0] if ks else 0
        if k == 0:
            return sub(I, self.text, self.s, self.e)
        if isinstance(k, str):
            if k not in self.names:
                I.raise_('IndexError', 'no such group')
            k = self.names[k]
        if not isinstance(k, int) or not 0 < k < self.n:
            I.raise_('IndexError', 'no such group')
        if str(k) not in self.g:
            return None
        i, j = self.g[str(k)]
        if isinstance(i, Inside) or isinstance(j, Inside):
            raise Undecided('a group inside a token')
        return sub(I, self.text, i, j)

    def getitem(self, I, k): return self.m_group(I, k)
    def m_groups(self, I): return tuple(self.m_group(I, k) for k in range(1, self.n))
    def m_groupdict(self, I): return DictVal([(k, self.m_group(I, k)) for k in self.names])


class Pat(Model):
    kind = 'Pattern'

    def __init__(self, p, flags):
        super().__init__()
        self.p, self.flags = p, flags

    def m_match(self, I, t): return regex(I, self.p, self.flags, 'match', t)
    def m_fullmatch(self, I, t): return regex(I, self.p, self.flags, 'fullmatch', t)
    def m_search(self, I, t): return regex(I, self.p, self.flags, 'search', t)


def regex(I, p, flags, how, t):
    if isinstance(p, Pat):
        p, flags = p.p, p.flags
    if not isinstance(t, Text):
        raise Undecided('pattern on something else')
    return match(I, p, flags, how, t)


def install(I):
    for how in ('match', 'fullmatch', 'search'):
        I.externals['re.' + how] = Builtin('re.' + how, (lambda how: lambda I, a, k: regex(I, a[0], a[2] if len(a) > 2 else k.get('flags', 0), how, a[1]))(how))
    I.externals['re.compile'] = Builtin('re.compile', lambda I, a, k: Pat(a[0], a[1] if len(a) > 1 else k.get('flags', 0)))

    def conv(kinds, what):
        def f(I, v, *a):
            if isinstance(v, Text):
                n = v.number(I, kinds)
                return n if n is not None else I.fresh(f'{what} of a part', Z if what == 'int' else R)
            raise Undecided(what)
        return f
    I.ghost['int_of'], I.ghost['float_of'] = conv(('int',), 'int'), conv(('int', 'float'), 'float')


class TextFile(Model):
    """a text file with the given lines"""
    kind = 'TextFile'

    def __init__(self, lines):
        super().__init__()
        self.lines = lines

    def m_readlines(self, I): return self.lines
    def iterate(self, I): return I.iterate(self.lines)
    def m_close(self, I): return None


__all__ = [n for n in globals() if not n.startswith('__')]
