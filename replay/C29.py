"""MAGIC run directories"""
RULE = ('random run directories of MAGIC with several cells, all kinds of lines, generated names and %g numbers: what the parser returns and what the report (saved and loaded again) shows is '
        'compared with what was written; non-trivial: a file with a port, node, device or resistor')
N = 150
BUDGET_S = 40
import collections, os, sys, tempfile
from pathlib import Path
import klayout.rdb as rdb
from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
from klayout_pex.magic import magic_log_analyzer as mla

NAMES = ['VDD', 'VSS', 'a_15_n19#', 'in[3]', 'x1/out', 'A.n0', 'w_n38_261#', 'Y', 'out!', 'm1_100_200#', 'clk<0>', 'VSS.t1', 'a$b', 'n+', '0']
LAYERS = ['m1', 'm2', 'ndiff', 'space', 'poly', 'pwell']
TYPES = ['fet', 'mosfet', 'asymmetric', 'bjt', 'devres', 'devcap', 'devcaprev', 'vsource', 'diode', 'pdiode', 'ndiode', 'subckt', 'rsubckt', 'msubckt', 'csubckt']
MODELS = ['sky130_fd_pr__nfet_01v8', 'None', 'sg13_lv_pmos', 'npn13G2']


def num(rng): return rng.choice([0.0, 1.0, 104.16, 1e-05, 1.5e+06, 2.5e-07, 7.77, -0.5, float(f'{rng.uniform(0, 1000):g}'), float(f'{rng.uniform(0, 1e9):g}')])


def cases(rng, n):
    for i in range(n):
        cells = []
        for c in rng.sample(['inv', 'TOP', 'sky130_fd_sc_hd__inv_1', 'a$1', 'x-y', 'cell_2', 'X', 'res'], rng.choice([1, 1, 2, 3])):
            co = lambda: rng.choice([0, -600, 800, 7, -13, rng.randrange(-99999, 99999)])
            main, res = [], []
            for _ in range(rng.choice([0, 3, 9, 25])):
                k = rng.choice(['port', 'node', 'substrate', 'device', 'other', 'other'])
                main.append([k, rng.choice(NAMES), rng.randrange(0, 40), num(rng), [co() for _ in range(4)], rng.choice(LAYERS), rng.choice(TYPES), rng.choice(MODELS),
                             rng.choice(['tech sky130A', 'timestamp 1700000', 'version 8.3', 'style ngspice(si)', 'scale 1000 1 0.5', 'resistclasses 4400000 2200000 950000',
                                         'parameters sky130_fd_pr__nfet_01v8 l=l w=w', 'use inv inv_0 1 0 0 0 1 0', 'equiv "A" "B"', 'cap "A" "VDD" 12.5', 'merge "A" "B" -3 0 0',
                                         'attr A 0 0 1 1 device "x"', 'property string "port \\"x\\""', '', 'killnode "x"', 'ports 3', 'nodeset "A" 1'])])
            for _ in range(rng.choice([0, 2, 8])):
                res.append([rng.choice(['rnode', 'resist', 'other']), rng.choice(NAMES), rng.choice(NAMES), num(rng), rng.randrange(0, 4000), [co() for _ in range(2)]])
            cells.append([c, main, res if rng.random() < .6 else None])
        yield dict(cells=cells, dbu=rng.choice([None, None, 5e-3, 5e-4, 1e-3]), extra=rng.random() < .3, orphan=rng.random() < .2, order=rng.random())


def trivial(case): return not any(l[0] not in ('other',) for _, m, r in case['cells'] for l in m + (r or []))


def g(x): return f'{x:g}'


def main_line(l):
    k, net, n, c, xy, lay, t, mod, other = l
    if k == 'port':
        return f'port "{net}" {n} {xy[0]} {xy[1]} {xy[2]} {xy[3]} {lay}'
    if k in ('node', 'substrate'):
        return f'{k} "{net}" {n} {g(c)} {xy[0]} {xy[1]} {lay} 0 0 100 40 0 0'
    if k == 'device':
        return f'device {t} {mod} {xy[0]} {xy[1]} {xy[2]} {xy[3]} l=30 w=200 "VSUBS" "A" 60 0 "VSS" 200 0 "Y" 200 0'
    return other


def res_line(l):
    k, a, b, v, c, xy = l
    if k == 'rnode':
        return f'rnode "{a}" 0 {c} {xy[0]} {xy[1]} 0'
    if k == 'resist':
        return f'resist "{a}" "{b}" {g(v)}'
    return f'killnode "{a}"'


def f(x): return float(g(x))


def box(t):
    """corners of a shape in µm"""
    v = t.polygon().bbox() if t.is_polygon() else t.box()
    return v


def near(a, b, tol=.0011): return abs(a - b) <= tol


def check(case):
    with tempfile.TemporaryDirectory() as top:
        d = Path(top) / 'run'
        d.mkdir()
        files = []
        for c, m, r in case['cells']:
            files.append((f'{c}.ext', '\n'.join(map(main_line, m)) + '\n'))
            if r is not None:
                files.append((f'{c}.res.ext', '\n'.join(map(res_line, r)) + '\n'))
        if case['order'] < .5:
            files.reverse()
        if case['extra']:
            files.append(('x.spice', 'port "A" 1 0 0 1 1 m1\n'))
        if case['orphan']:
            files.append(('orphan.res.ext', 'rnode "A" 0 1 2 3 0\n'))
        for n, t in files:
            (d / n).write_text(t)
        run = parse_magic_pex_run(d)
        if sorted(run.cells) != sorted(c for c, _, _ in case['cells']):
            return f'cells {sorted(run.cells)} for files {sorted(os.listdir(d))}'
        for c, m, r in case['cells']:
            e = run.cells[c].ext_data
            want = [(l[1], *l[4], l[5]) for l in m if l[0] == 'port']
            got = [(p.net, p.x_bot, p.y_bot, p.x_top, p.y_top, p.layer) for p in e.ports]
            if want != got:
                return f'{c}: ports {want}, read {got}'
            want = [(l[1], l[2], f(l[3]), *l[4][:2], l[5]) for l in m if l[0] in ('node', 'substrate')]
            got = [(p.net, p.int_r, p.fin_c, p.x_bot, p.y_bot, p.layer) for p in e.nodes]
            if want != got:
                return f'{c}: nodes {want}, read {got}'
            want = [(l[6], l[7], *l[4]) for l in m if l[0] == 'device']
            got = [(str(p.device_type), p.model, p.x_bot, p.y_bot, p.x_top, p.y_top) for p in e.devices]
            if want != got:
                return f'{c}: devices {want}, read {got}'
            x = run.cells[c].res_ext_data
            if (x is None) != (r is None):
                return f'{c}: resistance data {x} for {r}'
            if x is not None:
                want = [(l[1], l[4], *l[5]) for l in r if l[0] == 'rnode'], [(l[1], l[2], f(l[3])) for l in r if l[0] == 'resist']
                got = [(p.name, p.fin_c, p.x_bot, p.y_bot) for p in x.rnodes], [(p.node1, p.node2, p.value_ohm) for p in x.resistors]
                if want != got:
                    return f'{c}: resistor nodes and resistors {want}, read {got}'
        # the analyzer as a program, with the default path of the report
        if case['dbu'] is None:
            dbu = 1e-3
            old, sys.argv = sys.argv, ['magic_log_analyzer', '-m', str(d)]
            try:
                mla.main()
            finally:
                sys.argv = old
        else:
            dbu = case['dbu']
            report = rdb.ReportDatabase('')
            mla.MagicLogAnalyzer(magic_pex_run=run, report=report, dbu=dbu).analyze()
            report.save(str(d / 'report.rdb.gz'))
        side = 20 * dbu
        out = d / 'report.rdb.gz'
        if not out.exists():
            return 'no report'
        db = rdb.ReportDatabase('')
        db.load(str(out))
        got = collections.defaultdict(list)

        def walk(cat, p):
            for it in db.each_item_per_category(cat.rdb_id()):
                for v in it.each_value():
                    b = box(v)
                    got[db.cell_by_id(it.cell_id()).name(), p[1] if len(p) > 1 else '', p[-1]].append((b.left, b.bottom, b.right, b.top))
            for s in cat.each_sub_category():
                walk(s, p + [s.name()])
        for cat in db.each_category():
            walk(cat, [cat.name()])
        want = collections.defaultdict(list)
        u = lambda v: v / 200.0
        for c, m, r in case['cells']:
            for l in m:
                a = [u(v) for v in l[4]]
                full = (min(a[0], a[2]), min(a[1], a[3]), max(a[0], a[2]), max(a[1], a[3]))
                if l[0] == 'port':
                    want[c, 'Ports', f'{l[1]} ({l[5]})'].append(full)
                if l[0] in ('node', 'substrate'):
                    want[c, 'Nodes', f'{l[1]} ({l[5]})'].append((a[0], a[1], a[0] + side, a[1] + side))
                if l[0] == 'device':
                    want[c, 'Devices', f'Type={l[6]} Model={l[7]}'].append(full)
            at = collections.defaultdict(list)
            for l in r or []:
                if l[0] == 'rnode':
                    a = [u(v) for v in l[5]]
                    at[l[1]].append((a[0], a[1], a[0] + side, a[1] + side))
                    want[c, 'Resistor Nodes', l[1]].append(at[l[1]][-1])
            for i, l in enumerate([l for l in r or [] if l[0] == 'resist']):
                w = at[l[1]] + at[l[2]]
                if w:
                    want[c, 'Resistors', f'#{i} {l[1]}↔︎{l[2]} = {f(l[3])} Ω'] += w
        if set(want) != set(got):
            return f'the report shows {sorted(set(got) - set(want))[:4]}, misses {sorted(set(want) - set(got))[:4]}'
        for k in want:
            a, b = sorted(want[k]), sorted(got[k])
            if len(a) != len(b):
                return f'{k}: {len(a)} shapes expected, {len(b)} shown'
            for x in a:
                if not any(all(near(p, q, 1.1 * dbu) for p, q in zip(x, y)) for y in b):
                    return f'{k}: at {x} expected, shown at {b}'
