"""FastCap2 log parsing"""
from replay import C03
RULE = ('synthetic FastCap2 logs: 0..4 matrices of 1..12 conductors, every SI unit, names padded to a column or not, noise; '
        'non-trivial: at least two matrices or two conductors')
N = 300
SI = {'attofarads': 1e-18, 'femtofarads': 1e-15, 'picofarads': 1e-12, 'nanofarads': 1e-9, 'microfarads': 1e-6, 'millifarads': 1e-3, 'farads': 1.0}
trivial = C03.trivial


def cases(rng, n):
    for c in C03.cases(rng, n):
        for m in c['mats']:
            m['unit'] = rng.choice(sorted(SI))
            m['names'] = ['$%d%%GROUP%d' % (rng.randrange(1, 1200), rng.randrange(1, 40)) if rng.random() < .6 else rng.choice(['VDD%GROUP2', 'A%GROUP10', 'out.x%GROUP1', 'µ1%GROUP3'])
                          for _ in m['names']]
        yield c


NOISE = ['Running fastcap 2.0wr\n', '  Input: x.lst\n', '\n', 'Iterations: 3\n', 'CAPACITANCE MATRIX\n', 'POTENTIAL COEFFICIENTS, x\n']


def text(c):
    import random
    r = random.Random(c['noise'])
    out = [r.choice(NOISE) for _ in range(r.randrange(3))]
    for m in c['mats']:
        d = len(m['names'])
        out.append(f'CAPACITANCE MATRIX, {m["unit"]}\n')
        w = max(map(len, m['names'])) if c['pad'] else 0
        out.append(' ' * (w + 3) + ' '.join('%10d' % (i + 1) for i in range(d)) + '\n')
        for i, (n, row) in enumerate(zip(m['names'], m['rows'])):
            out.append(n.ljust(w) + f' {i + 1} ' + ' '.join('%10.4g' % v for v in row) + '\n')
        out += [r.choice(NOISE) for _ in range(r.randrange(4))] + [NOISE[0]] * c.get('long', 0)
    out += NOISE[:c['tail']]
    return ''.join(out)


def check(c):
    save = C03.text, C03.parse, C03.want
    from klayout_pex.fastcap.fastcap_runner import fastcap_parse_capacitance_matrix
    C03.text, C03.parse = text, fastcap_parse_capacitance_matrix
    C03.want = lambda c: [[float('%.4g' % v) * SI[c['mats'][-1]['unit']] / 1e6 for v in row] for row in c['mats'][-1]['rows']]
    try:
        return C03.check(c)
    finally:
        C03.text, C03.parse, C03.want = save
