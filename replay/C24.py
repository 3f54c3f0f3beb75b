"""The files for FasterCap say exactly what the model is"""
RULE = ('random models (interfaces with 0..4 triangles, several interfaces per net, nets and materials with odd names, very long net names, names with a slash) '
        'are written to a scratch directory; list and geometry files are parsed again and compared with the model: files, k values, conductor numbers, '
        'collation, triangles to 12 digits, reference points; non-trivial: at least two files')
N = 600
BUDGET_S = 60
import math, os, shutil, tempfile
MATS = ['fox', 'psg', 'nild2', 'air layer', 'm_1']
NETS = ['A', 'VSUBS', '$3', 'x.y[2]', 'n<1>', 'ä', 'A_1', 'X1/net7', 'a|b', 'L' * 180 + 'a', 'L' * 180 + 'b', 'M' * 251, 'N' * 400, 'ö' * 120]


def cases(rng, n):
    for _ in range(n):
        mats = rng.sample(MATS, rng.randrange(0, 4))
        k = {m: rng.choice([3.9, 4.05, 1., 7.5, rng.uniform(1, 20)]) for m in mats}
        sides = [None] + mats
        diel = [(a, b) for a in sides for b in sides if a != b and (a or b)]
        diel = rng.sample(diel, min(len(diel), rng.randrange(0, 5)))
        nets = rng.sample(NETS, rng.randrange(0, 5))
        cond = [(x, s) for x in nets for s in sides if rng.random() < .6]
        rng.shuffle(cond)
        tri = lambda: [rng.choice([rng.uniform(-50, 50), rng.randrange(-100000, 100000) * .001, 0.]) for _ in range(9)]

        def ok():
            while True:
                t = tri()
                u, v = [[t[3 * i + j] - t[j] for j in range(3)] for i in (1, 2)]
                c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
                if sum(q * q for q in c) > 1:
                    return t
        yield dict(k=k, void=rng.choice([1., 3.5]), prefix=rng.choice(['FasterCap_Input_', 'x', 'cell 1_']), diel=[[a, b, [ok() for _ in range(rng.choice([0, 1, 1, 2, 4]))]] for a, b in diel],
                   cond=[[a, b, [ok() for _ in range(rng.choice([0, 1, 1, 2, 4]))]] for a, b in cond])


def files(c): return sum(1 for x in c['diel'] + c['cond'] if x[2])
def trivial(c): return files(c) < 2


def parse_geo(path):
    """(name by rename rule, [(number, 12 floats)])"""
    ls = open(path, encoding='utf-8').read().split('\n')
    if ls[0] != '0 GEO File' or ls[-1] != '':
        raise Exception(f'no geometry file: {ls[0]!r} .. {ls[-1]!r}')
    rules, tris = [], []
    for l in ls[1:-1]:
        w = l.split(' ')
        if w[0] == 'T' and not rules:
            if len(w) != 14:
                raise Exception(f'triangle line {l!r}')
            tris.append((int(w[1]), [float(x) for x in w[2:]]))
        elif w[0] == 'N':
            rules.append((int(w[1]), l.split(' ', 2)[2]))
        else:
            raise Exception(f'line {l!r}')
    return rules, tris


def check(c):
    from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelGenerator, HDielKey, HCondKey, Triangle, Point
    g = FasterCapModelGenerator(dbu=.001, k_void=c['void'], delaunay_amax=0., delaunay_b=.5, materials=dict(c['k']),
                                net_names=list(dict.fromkeys(x[0] for x in c['cond'])))
    mk = lambda t: Triangle(*[Point(*t[i:i + 3]) for i in (0, 3, 6)])
    g.diel_data = {HDielKey(a, b): [mk(t) for t in ts] for a, b, ts in c['diel']}
    g.cond_data = {HCondKey(a, b): [mk(t) for t in ts] for a, b, ts in c['cond']}
    d = tempfile.mkdtemp(prefix='c24_')
    try:
        try:
            lst = g.write_fastcap(output_dir_path=d, prefix=c['prefix'])
        except OSError as e:
            return f'{type(e).__name__}: {str(e)[:80]}'
        return compare(c, d, lst)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def eq(a, b): return abs(a - b) <= 2e-11 * max(abs(a), abs(b)) + 1e-300


def compare(c, d, lst):
    if os.path.dirname(lst) != d or not os.path.basename(lst).startswith(c['prefix']):
        return f'list file is {lst}'
    ls = open(lst, encoding='utf-8').read().split('\n')
    if ls[-1] != '':
        return 'the list does not end with a line end'
    seen, diel, cond, group, last_plus = set(), [], [], [], False
    for l in ls[:-1]:
        if l.startswith('*'):
            continue
        if l[:2] not in ('D ', 'C '):
            return f'line {l!r}'
        e = l.index('.geo ') + 4
        fn, w = l[2:e], l[e:].split()
        if fn in seen:
            return f'{fn} is listed twice'
        seen.add(fn)
        if not os.path.isfile(os.path.join(d, fn)):
            return f'{fn} does not exist'
        rules, tris = parse_geo(os.path.join(d, fn))
        if not tris:
            return f'{fn} is empty'
        if l[0] == 'D':
            if last_plus:
                return 'a dielectric within a conductor'
            if len(w) != 8 or rules or [float(x) for x in w[2:]] != [0.] * 6:
                return f'dielectric line {l!r} {rules}'
            diel.append((float(w[0]), float(w[1]), tris, fn))
        else:
            plus = w[-1] == '+'
            if len(w) != 4 + plus or [float(x) for x in w[1:4]] != [0.] * 3:
                return f'conductor line {l!r}'
            group.append((float(w[0]), tris, fn, rules))
            last_plus = plus
            if not plus:
                cond.append(group)
                group = []
    if group:
        return 'the last conductor goes on'
    if set(os.listdir(d)) - {os.path.basename(lst)} != seen:
        return f'files that are not listed: {sorted(set(os.listdir(d)) - seen)}'
    k = lambda m: c['k'][m] if m else c['void']

    def same(want, tris):
        if len(want) != len(tris):
            return f'{len(tris)} triangles, not {len(want)}'
        for t, (_, v) in zip(want, tris):
            if not all(eq(x, y) for x, y in zip(t, v)):
                return f'triangle {v[:9]} is {t}'
            # the reference point is on the side the normal points to
            u, w = [[t[3 * i + j] - t[j] for j in range(3)] for i in (1, 2)]
            n = (u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0])
            r = [v[9 + j] - t[j] for j in range(3)]
            if sum(a * b for a, b in zip(n, r)) < .5 * math.sqrt(sum(a * a for a in n)):
                return f'reference point {v[9:]} of {t} is not outside'
    want = [x for x in c['diel'] if x[2]]
    if len(want) != len(diel):
        return f'{len(diel)} dielectric interfaces, not {len(want)}'
    for a, b, ts in want:
        hit = [x for x in diel if eq(x[0], k(a)) and eq(x[1], k(b)) and not same(ts, x[2])]
        if not hit:
            m = [same(ts, x[2]) or f'k {x[:2]}' for x in diel if f"_outside={a or '(void)'}_inside={b or '(void)'}.geo" in x[3]]
            return f'interface {a} <-> {b} (k {k(a)}, {k(b)}): {m}'
    nets = {}
    for a, b, ts in c['cond']:
        if ts:
            nets.setdefault(a, []).append((b, ts))
    if len(cond) != len(nets):
        return f'{len(cond)} conductors, not {len(nets)}'
    nums = set()
    for gr in cond:
        num = {n for _, tris, _, _ in gr for n, _ in tris}
        if len(num) != 1:
            return f'a conductor with the numbers {sorted(num)}'
        num, = num
        if num in nums:
            return f'two conductors with the number {num}'
        nums.add(num)
        rules = [r for x in gr for r in x[3]]
        if len(gr[-1][3]) != 1 or len(rules) != 1:
            return f'name rules {[x[3] for x in gr]}'
        if rules[0][0] != num or rules[0][1] not in nets:
            return f'name rule {rules[0]} of conductor {num}'
        w = nets[rules[0][1]]
        if len(w) != len(gr):
            return f'net {rules[0][1]!r}: {len(gr)} files, not {len(w)}'
        for b, ts in w:
            if not [x for x in gr if eq(x[0], k(b)) and not same(ts, x[1])]:
                return f'net {rules[0][1]!r} in {b} (k {k(b)}): {[same(ts, x[1]) or x[0] for x in gr]}'
    if nums & {n for x in diel for n, _ in x[2]}:
        return f'conductors and dielectrics share the numbers {nums}'


def run(c): return check(c)
