from .logs import *

MOD = 'klayout_pex.fastercap.fastercap_runner'
ASSUMPTIONS = ['text files, str.strip/split and float() as documented; the dimension regular expression is tried on sample '
               'texts for 1..5 digit dimensions (its match on every other number is assumed)',
               'log format of FasterCap: a title line is followed by a dimension line and that many complete rows']
SAMPLES = {'dimension': [(f'Dimension {d} x {d}\n', str(d)) for d in (1, 2, 9, 10, 37, 128, 4096, 12345)]}


class DimText(Model):
    kind = 'DimText'
    def __init__(self, p):
        super().__init__()
        self.p = p


def setup(I):
    log = Log(I, 'Capacitance matrix is:', None, SAMPLES)
    log.group = lambda I, kind, p: DimText(p)
    I.ghost['int_of'] = lambda I, x: DIM(x.p) if isinstance(x, DimText) else _no('int')
    # well-formed log: behind every title a dimension line and complete rows
    log.wf = lambda I, p: I.assume(z3.Implies(z3.And(p >= 0, p < log.n, HDR(p)),
                                              z3.And(DIM(p + 1) >= 1, p + 1 + DIM(p + 1) < log.n)))
    I.loop_specs = [last_title_spec(log.n)]
    auto(I)
    return log


def parse(I):
    """requires: a well-formed FasterCap log with at least one matrix.  ensures: the matrix of the LAST title, names in
    order, every value divided by 1e6 in its place"""
    log = setup(I)
    last = I.fresh('last', Z)
    q = z3.Int('q')
    I.assume(last >= 0, last < log.n, HDR(last), z3.ForAll([q], z3.Implies(z3.And(q > last, q < log.n), z3.Not(HDR(q)))))
    d = DIM(last + 1)
    log.wf(I, last)
    log.rowfact = lambda I, p: I.assume(z3.Implies(z3.And(p >= last + 2, p < last + 2 + d), NW(p) == d + 1))
    res = I.call(I.repo(MOD, 'fastercap_parse_capacitance_matrix'), ['x.log'])
    I.prove('reads the log it was given', z3.BoolVal(log.opened == ['x.log']))
    nm, rows = I.iterate(res.fields['conductor_names']), I.iterate(res.fields['rows'])
    I.prove('one name per row of the last matrix', z3.And(zint(nm.n) == d, z3.BoolVal(nm.guard is None)))
    I.prove('one row per conductor', z3.And(zint(rows.n) == d, z3.BoolVal(rows.guard is None)))
    i, j = I.fresh('i', Z), I.fresh('j', Z)
    I.assume(i >= 0, i < d, j >= 0, j < d)
    I.prove('names in order', nm.elem(I, i) == W(last + 2 + i, 0))
    row = I.iterate(rows.elem(I, i))
    I.prove('row length', z3.And(zint(row.n) == d, z3.BoolVal(row.guard is None)))
    I.prove('value in its place, scaled by 1e-6', zreal(row.elem(I, j)) == NUM(W(last + 2 + i, j + 1)) / 1000000)


def none(I):
    """a log without a matrix is rejected"""
    log = setup(I)
    q = z3.Int('q')
    I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < log.n), z3.Not(HDR(q)))))
    try:
        I.call(I.repo(MOD, 'fastercap_parse_capacitance_matrix'), ['x.log'])
    except PyRaise:
        I.prove('log without matrix is rejected', z3.BoolVal(True))
        return
    I.prove('log without matrix is rejected', z3.BoolVal(False))


HARNESSES = [('parse', parse), ('no_matrix', none)]
