from .logs import *

MOD = 'klayout_pex.fastcap.fastcap_runner'
ASSUMPTIONS = ['text files, str.strip/split and float() as documented; the unit regular expression is tried on sample title '
               'lines with every SI unit FastCap2 prints (its match on other texts is assumed)',
               'log format of FastCap2: a title line with a unit, a line of column numbers, then that many rows of name, '
               'row number and values']
SI = {'attofarads': Fraction(1, 10**18), 'femtofarads': Fraction(1, 10**15), 'picofarads': Fraction(1, 10**12),
      'nanofarads': Fraction(1, 10**9), 'microfarads': Fraction(1, 10**6), 'millifarads': Fraction(1, 10**3),
      'farads': Fraction(1), 'kilofarads': Fraction(10**3)}
SAMPLES = {'unit': [(f'CAPACITANCE MATRIX, {u}\n', u) for u in SI]}
UNIT = z3.DeclareSort('Unit')
UOF = z3.Function('unit_of', Z, UNIT)


def setup(I):
    log = Log(I, None, 'CAPACITANCE MATRIX, ', SAMPLES)
    log.group = lambda I, kind, p: UOF(p)
    I.ghost['int_of'] = lambda I, x: _no('int')
    log.wf = lambda I, p: I.assume(z3.Implies(z3.And(p >= 0, p < log.n, HDR(p)),
                                              z3.And(NW(p + 1) >= 1, p + 1 + NW(p + 1) < log.n)))
    I.loop_specs = [last_title_spec(log.n)]
    auto(I)
    return log


def parse(I):
    """requires: a well-formed FastCap2 log with at least one matrix whose unit is one of the SI units.  ensures: the
    matrix of the LAST title, names in order, every value times the unit times 1e-6 in its place"""
    log = setup(I)
    last = I.fresh('last', Z)
    q = z3.Int('q')
    I.assume(last >= 0, last < log.n, HDR(last), z3.ForAll([q], z3.Implies(z3.And(q > last, q < log.n), z3.Not(HDR(q)))))
    lits = {u: I.literal(u, UNIT) for u in SI}
    I.assume(z3.Or(*[UOF(last) == c for c in lits.values()]))
    d = NW(last + 1)
    log.wf(I, last)
    log.rowfact = lambda I, p: I.assume(z3.Implies(z3.And(p >= last + 2, p < last + 2 + d), NW(p) == d + 2))
    res = I.call(I.repo(MOD, 'fastcap_parse_capacitance_matrix'), ['x.log'])
    I.prove('reads the log it was given', z3.BoolVal(log.opened == ['x.log']))
    nm, rows = I.iterate(res.fields['conductor_names']), I.iterate(res.fields['rows'])
    I.prove('one name per row of the last matrix', z3.And(zint(nm.n) == d, z3.BoolVal(nm.guard is None)))
    I.prove('one row per conductor', z3.And(zint(rows.n) == d, z3.BoolVal(rows.guard is None)))
    i, j = I.fresh('i', Z), I.fresh('j', Z)
    I.assume(i >= 0, i < d, j >= 0, j < d)
    I.prove('names in order', nm.elem(I, i) == W(last + 2 + i, 0))
    row = I.iterate(rows.elem(I, i))
    I.prove('row length', z3.And(zint(row.n) == d, z3.BoolVal(row.guard is None)))
    v = NUM(W(last + 2 + i, j + 2))
    got = zreal(row.elem(I, j))
    for u, c in lits.items():
        f = SI[u] / 1000000
        I.prove('value in its place, in the printed unit, scaled by 1e-6',
                z3.Implies(UOF(last) == c, got == v * zreal(f)))


def none(I):
    """a log without a matrix is rejected"""
    log = setup(I)
    q = z3.Int('q')
    I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < log.n), z3.Not(HDR(q)))))
    try:
        I.call(I.repo(MOD, 'fastcap_parse_capacitance_matrix'), ['x.log'])
    except PyRaise:
        I.prove('log without matrix is rejected', z3.BoolVal(True))
        return
    I.prove('log without matrix is rejected', z3.BoolVal(False))


HARNESSES = [('parse', parse), ('no_matrix', none)]
