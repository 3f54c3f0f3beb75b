"""FasterCap log parsing"""
import os, tempfile
RULE = ('synthetic FasterCap logs: 0..4 refinement iterations, each with a matrix of 1..12 (sometimes about 100) conductors, up to 20000 lines between them, random blanks, noise '
        'lines and a truncated tail after the last matrix; non-trivial: at least two matrices or at least two conductors')
N = 300
UNITS = None


def cases(rng, n):
    for i in range(n):
        mats = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            d = rng.choice([1, 2, 3, 5, 9, 10, 11, 12]) if i % 50 != 7 else rng.choice([99, 100, 101, 128])
            mats.append(dict(names=['g%d_%s' % (k, ''.join(rng.choice('ABn$1.é漢' if i % 6 == 4 else 'ABn$1.') for _ in range(rng.randrange(1, 7)))) for k in range(d)],
                             rows=[[rng.choice([0.0, rng.uniform(-1, 1) * 10.0 ** rng.randrange(-18, 3)]) for _ in range(d)] for _ in range(d)]))
        yield dict(mats=mats, pad=rng.randrange(3), tail=rng.randrange(4), noise=rng.randrange(1 << 20), long=rng.choice([0, 0, 0, 0, 0, 50, 1000]) if i % 60 != 5 else 20000, locale=rng.choice([None, 'ascii', 'latin-1']))


def trivial(c): return len(c['mats']) < 2 and (not c['mats'] or len(c['mats'][0]['names']) < 2)


NOISE = ['Iteration number #3\n', '***************************************\n', 'Weighted Frobenius norm of the difference: 0.01\n',
         'Total allocated memory: 12 kilobytes\n', '\n', 'Number of panels: 123 x 4\n', 'Capacitance matrix is\n']


def text(c):
    import random
    r = random.Random(c['noise'])
    out = [r.choice(NOISE) for _ in range(r.randrange(3))]
    for m in c['mats']:
        out.append('Capacitance matrix is:\n')
        out.append(f'Dimension {len(m["names"])} x {len(m["names"])}\n')
        for n, row in zip(m['names'], m['rows']):
            sep = ' ' * r.randrange(1, 2 + c['pad'])
            out.append(n + sep + ''.join('%.6g' % v + ' ' * r.randrange(1, 2 + c['pad']) for v in row) + '\n')
        out += [r.choice(NOISE) for _ in range(r.randrange(4))] + [NOISE[0]] * c.get('long', 0)
    out += NOISE[:c['tail']]
    return ''.join(out)


def parse(p):
    from klayout_pex.fastercap.fastercap_runner import fastercap_parse_capacitance_matrix
    return fastercap_parse_capacitance_matrix(p)


def want(c): return [[float('%.6g' % v) / 1e6 for v in row] for row in c['mats'][-1]['rows']]


def check(c):
    fd, p = tempfile.mkstemp(suffix='.txt')
    os.write(fd, text(c).encode())
    os.close(fd)
    import builtins
    real = builtins.open
    try:
        if c.get('locale'):         # a locale of another encoding
            builtins.open = lambda f, mode='r', buffering=-1, encoding=None, *a, **k: real(f, mode, buffering, encoding if encoding or 'b' in mode else c['locale'], *a, **k)
        try:
            m = parse(p)
        except Exception as e:
            if not c['mats']:
                return None
            raise
    finally:
        builtins.open = real
        os.remove(p)
    if not c['mats']:
        return f'log without a matrix gave {m}'
    last = c['mats'][-1]
    if m.conductor_names != last['names']:
        return f'names {m.conductor_names}, last matrix has {last["names"]}'
    w = want(c)
    if len(m.rows) != len(w) or any(len(a) != len(b) for a, b in zip(m.rows, w)):
        return f'shape {[len(r) for r in m.rows]} for a {len(w)} x {len(w)} matrix'
    for i, (a, b) in enumerate(zip(m.rows, w)):
        for j, (x, y) in enumerate(zip(a, b)):
            if abs(x - y) > 1e-9 * abs(y):
                return f'cell ({i},{j}) is {x!r}, the log says {y!r} (after scaling)'
