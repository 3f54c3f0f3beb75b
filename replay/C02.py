"""CSV round trip of the capacitance matrix"""
import os, tempfile
RULE = ('random matrices k x n (n = 1..6, sometimes 33 or 60; mostly square) of floats spread over 1e-30..1e30 and zeros, names of printable characters '
        'without separator, separators ; , tab and |; written and parsed back; non-trivial: at least one non-zero cell')
N = 400


def cases(rng, n):
    yield dict(names=['g1'], rows=[[1.0]], sep=';')
    yield dict(names=['g1', 'g2'], rows=[[1.23456789012345e-15, -2e-16], [-2.000000000001e-16, 1e22]], sep=';')
    for i in range(n):
        d = rng.randrange(1, 7) if i % 40 else rng.choice([33, 60])
        k = d if rng.random() < .7 else rng.randrange(1, 9)
        yield dict(names=[''.join(rng.choice('abcXYZ_019.$:[]<>/µé漢' if i % 5 == 0 else 'abcXYZ_019.$:[]<>/') for _ in range(rng.randrange(1, 9))) for _ in range(d)],
                   rows=[[rng.choice([0.0, rng.uniform(-1, 1) * 10.0 ** rng.randrange(-30, 30), float(rng.randrange(-10 ** 6, 10 ** 6)), rng.choice([-1, 1]) * (1 - 10.0 ** -rng.randrange(1, 12))]) for _ in range(d)] for _ in range(k)],
                   sep=rng.choice([';', ',', '\t', '|']), locale=rng.choice([None, None, 'latin-1', 'ascii']))


def trivial(c): return not any(x for r in c['rows'] for x in r)


def check(c):
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    src = CapacitanceMatrix(conductor_names=list(c['names']), rows=[list(r) for r in c['rows']])
    fd, p = tempfile.mkstemp(suffix='.csv')
    os.close(fd)
    import builtins
    real = builtins.open
    try:
        if c.get('locale'):         # a locale of another encoding
            builtins.open = lambda f, mode='r', buffering=-1, encoding=None, *a, **k: real(f, mode, buffering, encoding if encoding or 'b' in mode else c['locale'], *a, **k)
        src.write_csv(p, separator=c['sep'])
        r = CapacitanceMatrix.parse_csv(p, separator=c['sep'])
        txt = real(p, encoding='utf-8').read()
    finally:
        builtins.open = real
        os.remove(p)
    if src.rows != c['rows'] or src.conductor_names != c['names']:
        return 'writing modified the matrix'
    if r.conductor_names != c['names']:
        return f'names {c["names"]} came back as {r.conductor_names}'
    want = [[float('%.12g' % x) for x in row] for row in c['rows']]
    got = r.rows
    if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
        return f'shape changed: {got}'
    for i, (a, b) in enumerate(zip(got, want)):
        for j, (x, y) in enumerate(zip(a, b)):
            if abs(x - c['rows'][i][j]) > 5.0001e-12 * abs(c['rows'][i][j]):
                return f'cell ({i},{j}) = {c["rows"][i][j]!r} came back as {x!r}'
    if len(txt.splitlines()) != len(want) + 1:
        return 'not one line per row plus header'
