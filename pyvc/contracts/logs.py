"""model of a solver log as a sequence of lines (assumed contract of text files, str methods and re)"""
from .common import *
import re

WORD = z3.DeclareSort('Word')
W = z3.Function('word', Z, Z, WORD)        # word t of line p
NUM = z3.Function('num', WORD, R)          # its value as a number
LEN = z3.Function('wlen', WORD, Z)
NW = z3.Function('nwords', Z, Z)
HDR = z3.Function('is_matrix_title', Z, B)
DIM = z3.Function('dim_text', Z, Z)
EMPTY = z3.Const('empty_word', WORD)


class Log:
    def __init__(self, I, title, title_prefix, samples):
        """title: exact stripped text of the title line (or None); title_prefix: its prefix (or None);
        samples: {pattern kind: [(text, group1)]} texts the regular expressions are tried on"""
        self.title, self.title_prefix, self.samples = title, title_prefix, samples
        self.n = I.fresh('nlines', Z)
        I.assume(self.n >= 0, LEN(EMPTY) == 0)
        I.ghost[('attr', 'Word')] = self.word_attr
        I.ghost[('len', 'Word')] = lambda w: LEN(w)
        I.ghost[('truth', 'Word')] = lambda w: LEN(w) > 0
        I.ghost['float_of'] = lambda I, v: NUM(v) if is_sym(v) else _no('float')
        I.externals['re.match'] = Builtin('re.match', lambda I, a, k: self.re(I, re.match, *a))
        I.externals['re.fullmatch'] = Builtin('re.fullmatch', lambda I, a, k: self.re(I, re.fullmatch, *a))
        I.externals['re.search'] = Builtin('re.search', lambda I, a, k: self.re(I, re.search, *a))
        I.ghost['open'] = self.open
        self.opened = []

        def eqtext(I, w, c):
            if isinstance(c, Fmt) and is_intlike(c.v):
                return z3.Function('is_number_text', WORD, Z, B)(w, zint(c.v))
            raise Undecided('word compared with a text')
        I.ghost[('eqtext', 'Word')] = eqtext
        self.wf = lambda I, p: None        # contract of a title line, instantiated where one is looked at
        self.rowfact = lambda I, p: None   # contract of a row line, instantiated where one is split

    def open(self, I, path, mode='r', **kw):
        if mode != 'r':
            raise Undecided('log opened for writing')
        self.opened.append(path)
        same_encoding(I, 'the log', kw)
        log = self

        class F(Model):
            kind = 'FileIn'
            def m_readlines(self, I): return SymList(log.n, lambda I, i: LogLine(log, i), 'lines')
            def iterate(self, I): return self.m_readlines(I).iterate(I)
            def m_close(self, I): return None
        return F()

    def word_attr(self, I, w, nm):
        if nm == 'strip':
            return Builtin(nm, lambda I, a, k: w)
        raise Undecided(f'word method {nm}')

    def re(self, I, fn, pattern, line, *flags):
        if not isinstance(pattern, str) or not isinstance(line, LogLine):
            raise Undecided('re on something else')
        for kind, smp in self.samples.items():
            ms = [fn(pattern, t, *flags) for t, _ in smp]
            if all(m is not None and m.group(1) == g for m, (_, g) in zip(ms, smp)):
                at = line.p - 1 if kind == 'dimension' else line.p
                if not I.branch(HDR(at)):
                    raise Undecided('pattern on a line of unknown shape')
                log = self

                class M(Model):
                    kind = 'Match'
                    def m_group(self, I, n=0):
                        if n != 1:
                            raise Undecided('group')
                        return log.group(I, kind, line.p)
                    def m_groups(self, I): raise Undecided('groups')
                    def getitem(self, I, n): return self.m_group(I, n)
                return M()
        raise Undecided(f'regular expression {pattern!r} does not recognise the documented lines')

    def group(self, I, kind, p): raise Undecided('group')


class LogLine(Model):
    kind = 'LogLine'

    def __init__(self, log, p, stripped=False):
        super().__init__()
        self.log, self.p, self.stripped = log, zint(p), stripped

    def m_strip(self, I, *a): return LogLine(self.log, self.p, True)
    m_rstrip = m_strip
    m_lstrip = m_strip

    def eq(self, I, o):
        if isinstance(o, str) and self.stripped and o == self.log.title:
            self.log.wf(I, self.p)
            return HDR(self.p)
        raise Undecided(f'line compared with {o!r}')

    def contains(self, I, x):
        raise Undecided('text search in a line')

    def m_startswith(self, I, x):
        if self.log.title_prefix is not None and x == self.log.title_prefix:
            self.log.wf(I, self.p)
            return HDR(self.p)
        raise Undecided(f'line starts with {x!r}')

    def m_split(self, I, sep=None, maxsplit=-1):
        if maxsplit != -1:
            raise Undecided('maxsplit')
        p, n = self.p, NW(self.p)
        self.log.rowfact(I, p)

        def word(I, t):
            I.assume(z3.Implies(z3.And(t >= 0, t < n), LEN(W(p, t)) >= 1))
            return z3.If(t >= 0, W(p, t), EMPTY)
        if sep is None:
            return SymList(n, lambda I, t: W(p, t), 'words')
        if sep == ' ' and self.stripped:
            return Raw(p, n, word)
        raise Undecided('split')

    def truth(self, I): return I.fresh('nonblank', B)


class Raw(Model):
    """text split at single blanks: the words and any number of empty cells between them"""
    kind = 'Raw'

    def __init__(self, p, n, word):
        super().__init__()
        self.p, self.n, self.word = p, n, word

    def iterate(self, I):
        def elem(I, t):
            return self.word(I, t)
        ncells = z3.Function('ncells', Z, Z)(self.p)
        r = IterSpec(('raw',), ncells, elem, base=self)
        r.words = self.n
        return r


def _no(m): raise Undecided(m)


def last_title_spec(n):
    """loop that scans the lines from the end: no title among the lines already seen"""
    def pos(I, it, t):
        e = it.elem(I, t)
        return (e[-1] if isinstance(e, tuple) else e).p

    def inv(I, L, k):
        t = z3.Int('t?')
        return [('no title line among the lines already passed',
                 z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < k), z3.Not(HDR(pos(I, L.it, t))))))]
    return Spec('scan', lambda I, it: base_tag(it.tag) == 'lines' and not I.loop_stack, inv)


__all__ = [n for n in globals() if not n.startswith('__')]
