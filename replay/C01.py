"""averaging of a Maxwell matrix"""
from fractions import Fraction
RULE = ('random n x n matrices (n = 0..7) of dyadic numbers with asymmetric entries, all signs; non-trivial: n >= 2 and '
        'the matrix is not symmetric')
N = 600


def cases(rng, n):
    yield dict(m=[])
    yield dict(m=[[3.0]])
    yield dict(m=[[1.0, -2.0], [-4.0, 5.0]])
    for i in range(n):
        d = rng.randrange(2, 8)
        yield dict(m=[[rng.randrange(-4096, 4096) / 64 for _ in range(d)] for _ in range(d)])


def trivial(c):
    m = c['m']
    return len(m) < 2 or all(m[i][j] == m[j][i] for i in range(len(m)) for j in range(len(m)))


def check(c):
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    m = c['m']
    d = len(m)
    names = [f'g{i}' for i in range(d)]
    src = CapacitanceMatrix(conductor_names=list(names), rows=[list(r) for r in m])
    r = src.averaged_off_diagonals()
    if r is src or any(a is b for a in r.rows for b in src.rows):
        return 'result shares storage with the source'
    if src.rows != m or src.conductor_names != names:
        return f'source was modified: {src.rows}'
    if r.conductor_names != names or len(r.rows) != d or any(len(x) != d for x in r.rows):
        return 'shape or names changed'
    for i in range(d):
        for j in range(d):
            want = (m[i][j] + m[j][i]) / 2
            if r.rows[i][j] != want:
                return f'cell ({i},{j}) is {r.rows[i][j]}, mean of ({i},{j}) and ({j},{i}) is {want}'
