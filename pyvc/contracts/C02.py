from .common import *

MOD = 'klayout_pex.common.capacitance_matrix'
BOUNDED = []
ASSUMPTIONS = ['str.join/str.split/str.strip and float()/"%.12g" are inverse on separator-free text (assumed contract of '
               'the Python string library; rounding to 12 significant digits is the uninterpreted function r12)',
               'file reads return what was written']
CELL = z3.DeclareSort('Cell')
STRIP = z3.Function('strip', CELL, CELL)
NL = z3.Function('with_newline', CELL, CELL)
FMT = z3.Function('fmt', R, CELL)
FLT = z3.Function('float_of', CELL, R)
R12 = z3.Function('r12', R, R)
NAME = z3.Function('cname', Z, CELL)


def setup(I):
    n = I.fresh('n', Z)
    m = I.fresh('m', Z)
    I.assume(n >= 1, m >= 1)
    return n, m, I.fresh('M', Mat.SORT)


def write(I):
    """requires: names and cells.  ensures: line 0 is the names joined by the separator, line k+1 the cells of row k
    joined by the separator, each cell text carrying at least 12 significant digits of the value; nothing else"""
    n, m, M = setup(I)
    cls = I.repo(MOD, 'CapacitanceMatrix')
    names = SymSeq('names', m, lambda I, i: NAME(i))
    self_ = Obj(cls, {'conductor_names': names, 'rows': Mat(M, n, m)})
    tr = I.ghost['tr'] = Trace()
    install_out_file(I, tr)
    install_join(I)
    SEP = ';'

    def joined(I, parts, what):
        ok = len(parts) == 2 and isinstance(parts[0], Joined) and parts[0].sep == SEP and parts[1] == '\n'
        I.prove(f'{what}: exactly one line, cells joined by the separator', z3.BoolVal(bool(ok)))
        return parts[0].it if ok else None

    def row_done(I, L, k, ev):
        it = joined(I, text_of(ev), 'row')
        if it is None:
            return
        I.prove('row: one text per cell', zint(it.n) == m)
        I.prove('row: no cell filtered', z3.BoolVal(it.guard is None))
        j = I.fresh('j', Z)
        I.assume(j >= 0, j < m)
        t = it.elem(I, j)
        if isinstance(t, StrCat) and len(t.parts) == 1:
            t = t.parts[0]
        if not isinstance(t, Fmt):
            raise Undecided(f'cell text {t!r}')
        d = digits_of(t.spec)
        I.prove('cell text carries at least 12 significant digits', z3.BoolVal(d is not None and d >= 12))
        I.prove('cell text is that of the cell of its row and column', zreal(t.v) == M[k][j])

    def begin_cells(I, L, k, new):
        if len(new) != 1:
            raise Undecided('cells')
    I.loop_specs = [TraceSpec('rows', lambda I, it: base_tag(it.tag) == 'matrix.rows', tr, row_done)]
    I.call(BoundMethod(I.repo(MOD, 'CapacitanceMatrix.write_csv')[1], self_), ['out.csv'], {'separator': SEP})
    ev = [e for e in tr.events if e[0] != 'open']
    cut = [i for i, e in enumerate(ev) if e[0] == 'loop']
    I.prove('one header, then the rows, nothing after', z3.BoolVal(cut == [len(ev) - 1]))
    I.prove('writes the file it was given', z3.BoolVal([e[1] for e in tr.events if e[0] == 'open'] == ['out.csv']))
    it = joined(I, text_of(ev[:-1]), 'header')
    if it is not None:
        j = I.fresh('j', Z)
        I.assume(j >= 0, j < m)
        I.prove('header: one name per conductor', zint(it.n) == m)
        I.prove('header: the names in order', it.elem(I, j) == NAME(j))
    I.prove('every row is written', z3.BoolVal(ev[cut[0]][2].it.tag == 'matrix.rows') if cut else z3.BoolVal(False))


class Line(Model):
    kind = 'Line'

    def __init__(self, cells, sep):
        super().__init__()
        self.cells, self.sep = cells, sep

    def m_split(self, I, sep=None, maxsplit=-1):
        if sep != self.sep or maxsplit != -1:
            raise Undecided('split at something else')
        return self.cells

    def m_strip(self, I, *a):
        if a and (not isinstance(a[0], (str, type(None))) or (a[0] or '').strip()):
            raise Undecided('strip of other characters')
        return Line(SymSeq(self.cells.tag, self.cells.n, lambda I, j: STRIP(self.cells.get(I, j))), self.sep)
    m_rstrip = m_strip


def parse(I):
    """requires: a file as written (contract of write).  ensures: names and values come back, values rounded to the
    12 digits written -- hence write then parse is the identity up to 12 digits"""
    n, m, M = setup(I)
    SEP = ';'

    def instances(c, i, j):
        # the contract of str.strip / float on texts, instantiated for the cells that are looked at
        nm, v = NAME(j), M[i - 1][j]
        for t in (nm, FMT(v)):
            I.assume(STRIP(t) == t, STRIP(NL(t)) == t, FLT(NL(t)) == FLT(t))
        I.assume(FLT(FMT(v)) == R12(v))
        return c

    def last(j, c): return z3.If(j == m - 1, NL(c), c)

    def line(I, i):
        return Line(SymSeq('line.cells', m, lambda I, j: instances(z3.If(i == 0, last(j, NAME(j)), last(j, FMT(M[i - 1][j]))), i, j)), SEP)

    class Lines(SymSeq):
        def getitem(self, I, k):
            if isinstance(k, slice) and k.stop is None and k.step is None and isinstance(k.start, int) and k.start >= 0:
                s = k.start
                return SymSeq(('from', s, self.tag), self.n - s, lambda I, i: self.get(I, i + s))
            return super().getitem(I, k)
    lines = Lines('lines', n + 1, line)

    class FileIn(Model):
        kind = 'FileIn'
        def m_readlines(self, I): return lines
        def m_close(self, I): return None
    opened = []

    def op(I, path, mode='r', **kw):
        opened.append((path, mode))
        same_encoding(I, 'the CSV', kw)
        return FileIn()
    I.ghost['open'] = op
    I.ghost[('attr', 'Cell')] = lambda I, o, nm: Builtin(nm, lambda I, a, k: STRIP(o)) if nm == 'strip' else _no(nm)
    I.ghost['float_of'] = lambda I, v: FLT(v)

    auto(I)
    res = I.call(BoundMethod(I.repo(MOD, 'CapacitanceMatrix.parse_csv')[1], I.repo(MOD, 'CapacitanceMatrix')), ['in.csv'], {'separator': SEP})
    I.prove('reads the file it was given', z3.BoolVal([o[0] for o in opened] == ['in.csv']))
    nm = I.iterate(res.fields['conductor_names'])
    rows = I.iterate(res.fields['rows'])
    j, i = I.fresh('j', Z), I.fresh('i', Z)
    I.assume(j >= 0, j < m, i >= 0, i < n)
    I.prove('as many names as written', zint(nm.n) == m)
    I.prove('names come back in order', nm.elem(I, j) == NAME(j))
    I.prove('as many rows as written', zint(rows.n) == n)
    row = I.iterate(rows.elem(I, i))
    I.prove('row length', zint(row.n) == m)
    I.prove('no row, cell or name filtered', z3.BoolVal(row.guard is None and rows.guard is None and nm.guard is None))
    cell = row.elem(I, j)
    I.prove('cells come back in place', zreal(cell) == R12(M[i][j]))


def _no(nm): raise Undecided(f'text method {nm}')


def too_short(I):
    """a file of fewer than two lines is rejected"""
    lines = SymSeq('lines', I.fresh('n', Z), lambda I, i: _no('line'))
    I.assume(lines.n >= 0, lines.n < 2)

    class FileIn(Model):
        kind = 'FileIn'
        def m_readlines(self, I): return lines
    I.ghost['open'] = lambda I, *a, **k: FileIn()
    try:
        I.call(BoundMethod(I.repo(MOD, 'CapacitanceMatrix.parse_csv')[1], I.repo(MOD, 'CapacitanceMatrix')), ['in.csv'])
        I.prove('file without rows is rejected', z3.BoolVal(False))
    except PyRaise:
        I.prove('file without rows is rejected', z3.BoolVal(True))


HARNESSES = [('write_csv', write), ('parse_csv', parse), ('parse_csv_short', too_short)]
