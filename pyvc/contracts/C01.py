from .common import *

MOD = 'klayout_pex.common.capacitance_matrix'


def averaged(I):
    """requires: n names, n x n matrix.  ensures: result is the mean of M and its transpose; argument unchanged"""
    n = I.fresh('n', Z)
    I.assume(n >= 0)
    M = I.fresh('M', Mat.SORT)
    cls = I.repo(MOD, 'CapacitanceMatrix')
    NAME = z3.DeclareSort('Name')
    nm = z3.Function('name', Z, NAME)
    names = SymSeq('names', n, lambda I, i: nm(i))
    src = Mat(M, n, n)
    self_ = Obj(cls, {'conductor_names': names, 'rows': src})
    p, q = z3.Ints('p q')
    inr = z3.And(p >= 0, p < n, q >= 0, q < n)

    def avg(a, b): return (M[a][b] + M[b][a]) / 2

    def mn(a, b): return z3.If(a < b, a, b)
    def mx(a, b): return z3.If(a < b, b, a)

    def lo(it): return zint(it.tag[1])

    def is_range(it): return isinstance(it.tag, tuple) and it.tag[0] == 'range'

    def inv_cell(c, done):
        return z3.ForAll([p, q], z3.Implies(inr, z3.And(z3.Or(c.a[p][q] == avg(p, q), c.a[p][q] == M[p][q]), z3.Implies(done, c.a[p][q] == avg(p, q)))))

    def havoc(I, L, k):
        m = L.one_written('Matrix')
        if m is src:
            raise Undecided('loop writes the source matrix')
        m.a = I.fresh('c', Mat.SORT)
        mark_havoc(L, m)

    # each row does its part right of the diagonal (or all of it), or each its part left of it
    first = mn if getattr(I, 'variant', 0) == 0 else mx
    second = mx if first is mn else mn

    def outer_inv(I, L, k):
        i, c = lo(L.it) + k, L.one_written('Matrix')
        return [('cells of finished rows are averaged, others untouched or averaged', inv_cell(c, first(p, q) < i))]

    def inner_inv(I, L, k):
        i, j, c = L.ghost['i'], lo(L.it) + k, L.one_written('Matrix')
        return [('cells of the finished part of the row are averaged', inv_cell(c, z3.Or(first(p, q) < i, z3.And(first(p, q) == i, second(p, q) < j))))]

    def inner_pre(I, L):
        sp, it, k, _ = I.loop_stack[-1]
        L.ghost['i'] = lo(it) + k
    I.loop_specs = [
        Spec('rows', lambda I, it: is_range(it) and not I.loop_stack, outer_inv, havoc),
        Spec('columns', lambda I, it: is_range(it) and len(I.loop_stack) == 1, inner_inv, havoc, pre=inner_pre)]
    r = I.call(BoundMethod(I.repo(MOD, 'CapacitanceMatrix.averaged_off_diagonals')[1], self_), [])
    if not isinstance(r, Obj) or not isinstance(r.fields.get('rows'), Mat):
        raise Undecided('result is not a matrix object')
    c = r.fields['rows']
    I.prove('result is the mean of the matrix and its transpose (off-diagonal and diagonal)',
            z3.ForAll([p, q], z3.Implies(inr, c.a[p][q] == avg(p, q))))
    I.prove('result is symmetric', z3.ForAll([p, q], z3.Implies(inr, c.a[p][q] == c.a[q][p])))
    I.prove('diagonal is kept', z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), c.a[p][p] == M[p][p])))
    I.prove('same size', z3.And(c.n == n, c.m == n))
    I.prove('source matrix unmodified', src.a == M)
    I.prove('result does not alias the source', z3.BoolVal(c is not src))
    rn = r.fields['conductor_names']
    I.prove('conductor names kept', z3.BoolVal(rn is names))


averaged.variants = 2
HARNESSES = [('averaged_off_diagonals', averaged)]
