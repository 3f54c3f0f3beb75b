"""whole runs of the command line with stand-ins for KLayout, FasterCap, FastCap2 and MAGIC; and the options of the command line"""
import glob, gzip, io, contextlib, json, os, re, shutil, sys, tempfile
RULE = ('random technologies and layouts, any set of engines and options, layout or database input, run through KpexCLI.main with programs that print prepared results and record what they '
        'are given; every result file is compared with the same steps done one by one; also random option lists and environments against the table of documented options; non-trivial: an '
        'engine that writes results, at least two options')
N = 90
BUDGET_S = 100


class Skip(Exception):
    pass


FLOAT = ['k_void', 'delaunay_amax', 'delaunay_b', 'tolerance', 'd_coeff', 'mesh', 'ooc', 'magic_cthresh', 'magic_tolerance', 'magic_halo', 'halo']
# option -> field, kind, default
OPT = {'--log_level': ('log_level', 'text', 'subprocess'), '--threads': ('num_threads', 'int', 'cpus'), '--pdk': ('pdk', ['ihp_sg13g2', 'sky130A'], None),
       '--out_dir': ('output_dir_base_path', 'text', 'output'), '-o': ('output_dir_base_path', 'text', 'output'), '--gds': ('gds_path', 'text', None), '-g': ('gds_path', 'text', None),
       '--schematic': ('schematic_path', 'text', None), '-s': ('schematic_path', 'text', None), '--lvsdb': ('lvsdb_path', 'text', None), '-l': ('lvsdb_path', 'text', None),
       '--cell': ('cell_name', 'text', None), '-c': ('cell_name', 'text', None), '--cache-lvs': ('cache_lvs', 'bool', True), '--cache-dir': ('cache_dir_path', 'text', None),
       '--lvs-verbose': ('klayout_lvs_verbose', 'bool', False), '--blackbox': ('blackbox_devices', 'bool', False), '--fastercap': ('run_fastercap', 'flag', False),
       '--fastcap': ('run_fastcap', 'flag', False), '--magic': ('run_magic', 'flag', False), '--2.5D': ('run_2_5D', 'flag', False), '--k_void': ('k_void', 'float', 3.9),
       '-k': ('k_void', 'float', 3.9), '--delaunay_amax': ('delaunay_amax', 'float', 50.0), '-a': ('delaunay_amax', 'float', 50.0), '--delaunay_b': ('delaunay_b', 'float', .5),
       '-b': ('delaunay_b', 'float', .5), '--geo_check': ('geometry_check', 'bool', False), '--diel': ('dielectric_filter', 'text', 'all'), '--tolerance': ('fastercap_tolerance', 'float', .05),
       '--d_coeff': ('fastercap_d_coeff', 'float', .5), '--mesh': ('fastercap_mesh_refinement_value', 'float', .5), '--ooc': ('fastercap_ooc_condition', 'float', 2.0),
       '--auto_precond': ('fastercap_auto_preconditioner', 'bool', True), '--galerkin': ('fastercap_galerkin_scheme', 'flag', False), '--jacobi': ('fastercap_jacobi_preconditioner', 'flag', False),
       '--magicrc': ('magicrc_path', 'text', 'magicrc'), '--magic_mode': ('magic_pex_mode', ['CC', 'RC', 'R'], 'CC'), '--magic_cthresh': ('magic_cthresh', 'float', .01),
       '--magic_rthresh': ('magic_rthresh', 'int', 100), '--magic_tolerance': ('magic_tolerance', 'float', 1.0), '--magic_halo': ('magic_halo', 'float', None),
       '--magic_short': ('magic_short_mode', ['none', 'resistor', 'voltage'], 'none'), '--magic_merge': ('magic_merge_mode', ['none', 'conservative', 'aggressive'], 'none'),
       '--mode': ('pex_mode', ['CC', 'RC', 'R'], 'CC'), '--halo': ('halo', 'float', None), '--scale': ('scale_ratio_to_fit_halo', 'bool', True)}
EXE = {'KPEX_FASTCAP_EXE': ('fastcap_exe_path', 'fastcap'), 'KPEX_FASTERCAP_EXE': ('fastercap_exe_path', 'FasterCap'), 'KPEX_KLAYOUT_EXE': ('klayout_exe_path', 'klayout'),
       'KPEX_MAGIC_EXE': ('magic_exe_path', 'magic')}
WORD = {True: ['yes', 'true', 'True', 't', 'Y', '1', 'TRUE'], False: ['no', 'false', 'False', 'f', 'N', '0']}


def value(rng, kind):
    """(text, what it means; '!' if it has to be rejected)"""
    bad = rng.random() < .03
    if kind == 'bool':
        v = rng.random() < .5
        return ('maybe', '!') if bad else (rng.choice(WORD[v]), v)
    if kind == 'int':
        v = rng.choice([0, rng.randrange(1, 5000)])
        return (f'{v}.5', '!') if bad else (str(v), v)
    if kind == 'float':
        v = rng.choice([0.0, rng.randrange(1, 400) / 8, rng.randrange(1, 9) * 1e-3, float(rng.randrange(1, 100))])
        return ('x', '!') if bad else (str(v), v)
    if isinstance(kind, list):
        v = rng.choice(kind)
        return ('other', '!') if bad else (v, v)
    v = rng.choice(['a', 'b/c.gds', 'x y', 'none', '/t/u.v', 'N1'])
    return v, v


def shrink(t):
    """couplings around the last digit of the CSV"""
    for k in ('ov', 'so'):
        for x in t[k]:
            x[2] *= 1e-3
    for x in [*t['sub'].values(), *t['sw'].values()]:
        x[0] *= 1e-3


def cases(rng, n):
    from replay.lvs import rand_case
    from replay.layouts import rand_tech
    for i in range(n):
        if i % 3 == 0:
            opts = []
            names = [o for o in OPT if o != '--pdk']
            rng.shuffle(names)
            for o in ['--pdk'] + names[:rng.choice([0, 1, 2, 5, 12, 40])]:
                if not any(OPT[o][0] == OPT[p][0] for p, *_ in opts):
                    opts.append([o, *(value(rng, OPT[o][1]) if OPT[o][1] != 'flag' else (None, True)), rng.random() < .3])
            if rng.random() < .05:
                opts = opts[1:]
            rng.shuffle(opts)
            yield dict(kind='opts', opts=opts, env={e: rng.choice(['/x/' + e.lower(), 'prog']) for e in EXE if rng.random() < .5},
                       pdkpath=rng.choice([None, '/p', '/q/r']), pdk=rng.choice([None, 'sky130A', 'other']))
            continue
        c = rand_case(rng, n=rng.choice([3, 4, 4, 6]), nmetals=rng.choice([1, 2, 2, 3, 3]))
        c['tables'] = rand_tech(rng, ['VSUBS'] + c['metals'], 1.0)
        for x in c['tables']['ov']:
            x[2] = x[2] or 1.0
        for k, v in c['tables']['sub'].items():
            v[0] = v[0] or 1.0
        if rng.random() < .3:
            shrink(c['tables'])
        eng = [e for e in ('fastercap', 'fastcap', 'magic', '2.5D') if rng.random() < .5] or [rng.choice(['fastercap', 'fastcap', 'magic', '2.5D'])]
        o = {}
        for k in FLOAT:
            if rng.random() < .35:
                o[k] = rng.choice([.25, .5, .75, 1.5, 2.0, 3.0, 8.0] + [0.0] * (k in ('tolerance', 'ooc', 'magic_cthresh', 'magic_halo', 'halo')))
        if '2.5D' in eng and rng.random() < .12:
            o['halo'] = 0.0
        if o.get('delaunay_b', 0) > 1:
            o['delaunay_b'] = .75
        if 'delaunay_amax' in o:
            o['delaunay_amax'] = 50.0 * o['delaunay_amax'] + 10
        for k, vs in (('blackbox', None), ('scale', None), ('auto_precond', None), ('magic_mode', ['CC', 'RC', 'R']), ('magic_short', ['none', 'resistor', 'voltage']),
                      ('magic_merge', ['none', 'conservative', 'aggressive']), ('mode', ['CC', 'CC', 'RC', 'R'])):
            if rng.random() < .5:
                o[k] = rng.choice(vs or ['true', 'false'])
        if rng.random() < .3:
            o['threads'] = rng.randrange(1, 99)
        if rng.random() < .2:
            o['magic_rthresh'] = rng.choice([0, rng.randrange(1, 99)])
        for k in ('galerkin', 'jacobi'):
            if rng.random() < .3:
                o[k] = None
        diel = rng.choice([None, None, 'none', 'all,-d0', 'none,+d0'])
        if diel:
            o['diel'] = diel
        c.update(kind='run', eng=eng, o=o, db='magic' not in eng and rng.random() < .4, mats=[rng.randrange(1 << 30) for _ in range(2)], same=rng.random() < .2, top_pins=rng.random() < .7, empty=rng.random() < .04)
        if c['empty']:
            c['rects'] = {k: [] for k in c['rects']}
            c['pins'] = []
        yield c


def trivial(c):
    if c['kind'] == 'opts':
        return len(c['opts']) < 3
    return c['empty'] or c['eng'] == ['magic']


def check(c):
    top = os.path.realpath(tempfile.mkdtemp(prefix='c34_'))
    cwd, env = os.getcwd(), dict(os.environ)
    import logging
    lg = logging.getLogger('__kpex__')
    before = list(lg.handlers)
    try:
        os.makedirs(f'{top}/w')
        os.makedirs(f'{top}/bin')
        os.chdir(f'{top}/w')
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return (run if c['kind'] == 'run' else options)(c, top)
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        for h in list(lg.handlers):
            if h not in before:
                lg.removeHandler(h)
                h.close()
        shutil.rmtree(top)


def options(c, top):
    from klayout_pex.kpex_cli import KpexCLI
    from klayout_pex.env import Env
    for e in EXE:
        os.environ.pop(e, None)
    os.environ.update(c['env'])
    for e, v in (('PDKPATH', c['pdkpath']), ('PDK', c['pdk'])):
        os.environ.pop(e, None)
        if v is not None:
            os.environ[e] = v
    argv, want, bad = [], {f: d for f, k, d in OPT.values()}, not any(o[0] == '--pdk' for o in c['opts'])
    want['num_threads'] = os.cpu_count() * 4
    want['magicrc_path'] = f'{c["pdkpath"]}/libs.tech/magic/{c["pdk"]}.magicrc' if c['pdkpath'] and c['pdk'] else None
    for o, text, v, eq in c['opts']:
        argv += [o] if text is None else [f'{o}={text}'] if eq and o.startswith('--') else [o, text]
        want[OPT[o][0]] = v
        bad = bad or v == '!'
    try:
        a = KpexCLI.parse_args(argv, Env.from_os_environ())
    except SystemExit:
        return None if bad else f'{argv} is rejected'
    except Exception as e:
        return f'{argv} with {c}: {e!r}'
    if bad:
        return f'{argv} is accepted'
    for e, (f, d) in EXE.items():
        want[f] = c['env'].get(e, d)
    for f, v in want.items():
        g = getattr(a, f)
        if g != v or isinstance(v, bool) and g is not v:
            return f'{argv}: {f} is {g!r} instead of {v!r}'
    return None


REC = '''#!/bin/sh
printf "%s\\0" "$@" > {top}/{n}.args
echo "$OMP_NUM_THREADS" > {top}/{n}.omp
for last in "$@"; do :; done
'''


def prog(top, n, text):
    open(f'{top}/bin/{n}', 'w').write(REC.format(top=top, n=n) + text)
    os.chmod(f'{top}/bin/{n}', 0o755)


def matrix(seed, nets, scale):
    import random
    r = random.Random(seed)
    n = len(nets)
    off = [[-(r.randrange(1, 4000) / 16) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        off[i][i] = sum(-off[i][j] for j in range(n) if j != i) + r.randrange(1, 400) / 4
    return [[x * scale for x in row] for row in off]


def text(path):
    s = open(path, 'rb').read()
    s = gzip.decompress(s) if s[:2] == b'\x1f\x8b' else s
    return '\n'.join(l for l in s.decode('utf-8', 'replace').split('\n') if not l.startswith('*'))


def files(d):
    return {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}


def spice(nl, path):
    import klayout.db as kdb
    w = kdb.NetlistSpiceWriter()
    w.use_net_names = True
    w.with_comments = False
    nl.write(path, w)


def run(c, top):
    import klayout.db as kdb
    from google.protobuf.json_format import MessageToJson
    from replay import lvs
    from klayout_pex.kpex_cli import KpexCLI, PDK
    from klayout_pex.pdk_config import PDKConfig
    from klayout_pex.tech_info import TechInfo
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    from klayout_pex.klayout.netlist_expander import NetlistExpander
    from klayout_pex.klayout.netlist_csv import NetlistCSVWriter
    from klayout_pex.klayout.netlist_reducer import NetlistReducer
    o, eng = c['o'], c['eng']
    tech_pb = lvs.tech_pb(c, c['tables'])
    open(f'{top}/tech.json', 'w').write(MessageToJson(tech_pb))
    open(f'{top}/p.lvs', 'w').write('')
    ly, _ = lvs.layout(c)
    ly.write(f'{top}/w/chip.gds')
    db, keep = lvs.database(c, kdb.LayoutVsSchematic)
    if c['top_pins']:
        db.netlist().make_top_level_pins()
    db.write(f'{top}/db.lvsdb.gz')
    PDK.SKY130A.__dict__['config'] = PDKConfig(name='p', pex_lvs_script_path=f'{top}/p.lvs', tech_pb_json_path=f'{top}/tech.json')

    def context():
        t = TechInfo.from_json(f'{top}/tech.json', MultipleChoicePattern(o.get('diel', 'all')))
        if 'halo' in o:
            t.tech.process_parasitics.side_halo = o['halo']
        d = kdb.LayoutVsSchematic()
        d.read(f'{top}/db.lvsdb.gz')
        return KLayoutExtractionContext.prepare_extraction(lvsdb=d, top_cell='TOP', tech=t, blackbox_devices=yes('blackbox', False)), t

    def yes(k, d): return {'true': True, 'false': False}[o[k]] if k in o else d
    ctx, tech = context()
    tc = ctx.lvsdb.netlist().circuit_by_name('TOP')
    nets = ['VSUBS'] + [n.expanded_name() for n in (tc.each_net() if tc else ()) if ' ' not in n.expanded_name() and n.expanded_name() not in ('VSUBS', 'GND', 'FC_GND')]
    nets = list(dict.fromkeys(nets))
    m1, m2 = (matrix(c['mats'][k], nets, 1.0) for k in (0, 0 if c['same'] else 1))
    n = len(nets)
    old = [[1.0 if i == j else -.125 for j in range(n)] for i in range(n)]
    t = ['Starting', '']
    for m in (old, m1):      # one matrix per iteration, the last one counts
        t += ['Capacitance matrix is:', f'Dimension {n} x {n}'] + [f'g{i + 1}_{nets[i]}  ' + ' '.join(repr(x) for x in m[i]) for i in range(n)] + ['', 'Solve']
    open(f'{top}/fastercap.out', 'w').write('\n'.join(t) + '\n')
    t = ['Running fastcap', '', 'CAPACITANCE MATRIX, femtofarads', ' ' * 20 + ' '.join(str(i + 1) for i in range(n))]
    t += [f'g{i + 1}_{nets[i]} {i + 1} ' + ' '.join(repr(x) for x in m2[i]) for i in range(n)] + ['', 'done']
    open(f'{top}/fastcap.out', 'w').write('\n'.join(t) + '\n')
    prog(top, 'kl', f'for a in "$@"; do case "$a" in report=*) cp {top}/db.lvsdb.gz "${{a#report=}}";; esac; done\n')
    prog(top, 'fasterc', f'cat {top}/fastercap.out\n')
    prog(top, 'fastc', f'cat {top}/fastcap.out\n')
    open(f'{top}/m.ext', 'w').write('timestamp 1\nport "A" 1 0 0 10 10 m1\nnode "A" 12 345 0 0 m1 0 0 0\ncap "A" "B" 1.5\n')
    open(f'{top}/m.spice', 'w').write('.subckt TOP A B\nC0 A B 1.5f\n.ends\n')
    prog(top, 'mag', f'cp "$last" {top}/script\ncp {top}/m.ext "$(sed -n "s/^extract path //p" "$last")/TOP.ext"\ncp {top}/m.spice "$(sed -n "s/^ext2spice -p .* -o //p" "$last")"\n')
    os.environ.update(KPEX_KLAYOUT_EXE=f'{top}/bin/kl', KPEX_FASTERCAP_EXE=f'{top}/bin/fasterc', KPEX_FASTCAP_EXE=f'{top}/bin/fastc', KPEX_MAGIC_EXE=f'{top}/bin/mag')
    os.environ.pop('OMP_NUM_THREADS', None)
    argv = ['kpex', '--pdk', 'sky130A', '--out_dir', 'out', '--magicrc', f'{top}/my.rc'] + [f'--{e}' for e in eng]
    argv += ['--lvsdb', f'{top}/db.lvsdb.gz'] if c['db'] else ['--gds', 'chip.gds']
    for k, v in o.items():
        argv += [f'--{k}'] if v is None else [f'--{k}={v}']
    cli = KpexCLI()
    layers = sum(len(l.source_layers) for l in ctx.extracted_layers.values())
    full = {'fastercap', 'fastcap', '2.5D'} & set(eng)
    err = None
    try:
        cli.main(argv)
    except SystemExit as e:
        err = e
    except KeyError as e:
        if o.get('mode', 'CC') != 'CC':
            raise Skip      # a via without one of its metals
        raise
    if (err is not None) != bool(full and not layers):
        return f'{argv}: {"ends with " + repr(err) if err else "no error"}; {layers} layers'
    ran = {p for p in ('kl', 'fasterc', 'fastc', 'mag') if os.path.exists(f'{top}/{p}.args')}
    want = ({'kl'} if full and not c['db'] else set()) | ({'mag'} if 'magic' in eng else set())
    if err is None:
        want |= {{'fastercap': 'fasterc', 'fastcap': 'fastc'}[e] for e in eng if e.startswith('fast')}
    if ran != want:
        return f'{argv}: {sorted(ran)} are run instead of {sorted(want)}'
    outs = glob.glob(f'{top}/w/out/*__TOP')
    if len(outs) != 1:
        return f'{argv}: output directories {outs}'
    out = outs[0]
    if 'magic' in eng:
        r = magic(c, top, out, argv)
        if r:
            return f'{argv}: {r}'
    if err is not None or not full:
        return None
    os.makedirs(f'{top}/ref')
    expect = []       # (engine, what has to be in the name, extension, content)

    def chain(engine, m, has_csv):
        cm = CapacitanceMatrix(conductor_names=[f'g{i + 1}_{x}' for i, x in enumerate(nets)], rows=m)
        p = f'{top}/ref/{engine}'
        cm.write_csv(p + '.raw')
        avg = cm.averaged_off_diagonals()
        avg.write_csv(p + '.avg')
        ex = NetlistExpander.expand(extracted_netlist=ctx.lvsdb.netlist(), top_cell_name='TOP', cap_matrix=avg, blackbox_devices=yes('blackbox', False))
        if has_csv:
            NetlistCSVWriter.write_csv(netlist=ex, top_cell_name='TOP', output_path=p + '.csv')
            expect.append((engine, 'expanded', '.csv', text(p + '.csv')))
        spice(ex, p + '.exp')
        red = NetlistReducer.reduce(netlist=ex, top_cell_name='TOP')
        spice(red, p + '.red')
        expect.extend([(engine, 'raw', '.csv', text(p + '.raw')), (engine, 'avg', '.csv', text(p + '.avg')), (engine, 'expanded', '.cir', text(p + '.exp')), (engine, 'reduced', '.cir', text(p + '.red'))])
    div = lambda m, f: [[float(repr(x)) * f / 1e6 for x in row] for row in m]
    if 'fastercap' in eng:
        chain('FasterCap', div(m1, 1), True)
        r = solver(c, top, out, f'{top}/fasterc', context)
        if r:
            return f'{argv}: FasterCap: {r}'
        a = open(f'{top}/fasterc.args').read().split('\0')[:-2]
        g = lambda f, d: float(o.get(f, d))
        for fl, v in (('-a', g('tolerance', .05)), ('-d', g('d_coeff', .5)), ('-m', g('mesh', .5)), ('-f', g('ooc', 2))):
            if [float(x[2:]) for x in a if re.fullmatch(fl + r'[\d.e+-]+', x)] != [v]:
                return f'{argv}: FasterCap gets {a}, {fl} is {v}'
        for fl, v in (('-ap', yes('auto_precond', True)), ('-g', 'galerkin' in o), ('-pj', 'jacobi' in o)):
            if (fl in a) != v:
                return f'{argv}: FasterCap gets {a}, {fl} {"missing" if v else "too much"}'
        if open(f'{top}/fasterc.omp').read().strip() != str(o.get('threads', os.cpu_count() * 4)):
            return f'{argv}: FasterCap runs with {open(top + "/fasterc.omp").read()} threads'
        if os.path.basename(cli.fastercap_extracted_csv_path) and text(cli.fastercap_extracted_csv_path) != expect[0][3]:
            return f'{argv}: fastercap_extracted_csv_path is {cli.fastercap_extracted_csv_path}'
    if 'fastcap' in eng:
        chain('FastCap2', [[float(repr(x)) * 1e-15 / 1e6 for x in row] for row in m2], False)
        r = solver(c, top, out, f'{top}/fastc', context)
        if r:
            return f'{argv}: FastCap2: {r}'
    if '2.5D' in eng:
        r = e25(c, top, out, cli, context, expect, yes, o)
        if r:
            return f'{argv}: 2.5D: {r}'
    here = [f for f in files(out) if os.sep not in f and f.endswith(('.csv', '.cir', '.spice')) and 'schematic' not in f]
    got = {f: text(f'{out}/{f}') for f in here}
    for engine, what, extn, t in expect:
        fs = [f for f in here if engine.lower() in f.lower() and f.endswith(extn) and what in f.lower()]
        if len(fs) != 1:
            return f'{argv}: {engine}: {fs} instead of one file with the {what} result among {sorted(here)}'
        a, b = got[fs[0]].split('\n'), t.split('\n')
        if what == 'reduced':
            if n < (4 if c['top_pins'] and all(x[0] != '$' for x in nets) else 5):
                continue      # KLayout 0.30.3 merges the few devices that are left in an order (and sometimes across classes) that depends on the process
            a, b = sorted(a), sorted(b)
        if a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return f'{argv}: {fs[0]} line {i + 1} is {a[i:i + 1]} instead of {b[i:i + 1]}'
    # the layouts with the extracted shapes
    for f in glob.glob(f'{out}/*nonempty*'):
        x = kdb.Layout()
        x.read(f)
        g = {}
        for li in x.layer_infos():
            g.setdefault((li.layer, li.datatype), kdb.Region()).insert(kdb.Region(x.top_cell().begin_shapes_rec(x.find_layer(li))))
        w = {}
        for p, l in ctx.extracted_layers.items():
            for s in l.source_layers:
                q = kdb.Region()
                q.insert(s.region)
                w.setdefault(s.gds_pair, kdb.Region()).insert(q)
        if set(g) != set(w) or any((g[k].merged() ^ w[k].merged()).count() for k in w) or x.dbu != c['dbu']:
            return f'{argv}: {os.path.basename(f)} has not the extracted layers'
    return None


def solver(c, top, out, rec, context):
    """the model the solver is given is that of the options"""
    from klayout_pex.fastercap.fastercap_input_builder import FasterCapInputBuilder
    lst = open(rec + '.args').read().split('\0')[:-1]
    lst = [x[2:] if x.startswith('-l') else x for x in lst if x.endswith('.lst')]
    if len(lst) != 1:
        return f'list files {lst}'
    p = next((q for q in (lst[0], os.path.join(out, 'FasterCap_Input_Files', lst[0])) if os.path.isfile(q)), None)
    if p is None:
        return f'the list file {lst[0]} does not exist'
    ctx, tech = context()
    o = c['o']
    d = f'{top}/ref_model'
    if not os.path.exists(d):
        os.makedirs(d)
        FasterCapInputBuilder(pex_context=ctx, tech_info=tech, k_void=o.get('k_void', 3.9), delaunay_amax=o.get('delaunay_amax', 50.0), delaunay_b=o.get('delaunay_b', .5)).build() \
            .write_fastcap(output_dir_path=d, prefix='FasterCap_Input_')

    def canon(lst, d):
        """lines of the list file, each file name replaced by the content of the file"""
        res = []
        for l in open(lst):
            w = l.split()
            for i, x in enumerate(w):
                q = os.path.join(d, x)
                if os.path.isfile(q):
                    w[i] = '\n'.join(y for y in open(q).read().split('\n') if y.startswith(('Q', 'T')))
            if not l.startswith('*'):
                res.append(w)
        return sorted(res)
    a, b = canon(p, os.path.dirname(p)), canon(glob.glob(f'{d}/*.lst')[0], d)
    if a != b:
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return f'the model is not that of the options: {str(a[i:i + 1])[:300]} instead of {str(b[i:i + 1])[:300]}'
    return None


def e25(c, top, out, cli, context, expect, yes, o):
    from klayout_pex.rcx25.extractor import RCX25Extractor
    from klayout_pex.rcx25.pex_mode import PEXMode
    from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
    import klayout.rdb as rdb
    ctx, tech = context()
    rx = RCX25Extractor(pex_context=ctx, pex_mode=PEXMode(o.get('mode', 'CC')), delaunay_amax=0, delaunay_b=.5, scale_ratio_to_fit_halo=yes('scale', True), tech_info=tech,
                        report_path=f'{top}/ref/r.rdb.gz')
    try:
        res = rx.extract()
    except KeyError:
        raise Skip
    s = res.summarize()
    rows = ['Device;Net1;Net2;Capacitance [fF];Resistance [Ω]']
    rows += [f'C{i + 1};{k.net1};{k.net2};{round(v, 3)};' for i, (k, v) in enumerate(sorted(s.capacitances.items()))]
    rows += [f'R{i + 1};{k.net1};{k.net2};;{round(v, 3)}' for i, (k, v) in enumerate(sorted(s.resistances.items()))]
    expect.append(('k25d', 'netlist', '.csv', '\n'.join(rows + [''])))
    ex = RCX25NetlistExpander.expand(extracted_netlist=ctx.lvsdb.netlist(), top_cell_name='TOP', extraction_results=res, blackbox_devices=yes('blackbox', False))
    spice(ex, f'{top}/ref/k25')
    expect.append(('k25d', 'netlist', '.spice', text(f'{top}/ref/k25')))
    g = cli.rcx25_extraction_results.summarize()
    if g.capacitances != s.capacitances or g.resistances != s.resistances:
        return f'the remembered results {g} are not {s}'
    if text(cli.rcx25_extracted_csv_path) != expect[-2][3]:
        return f'the remembered CSV is {cli.rcx25_extracted_csv_path}'
    rep = glob.glob(f'{out}/*report.rdb*')
    rep = [r for r in rep if 'magic' not in r.lower()]
    if len(rep) != 1:
        return f'reports {rep}'
    a, b = rdb.ReportDatabase(''), rdb.ReportDatabase('')
    a.load(rep[0])
    b.load(f'{top}/ref/r.rdb.gz')
    if a.num_items() != b.num_items():
        return f'the report has {a.num_items()} items instead of {b.num_items()}'
    return None


def magic(c, top, out, argv):
    from klayout_pex.magic.magic_runner import prepare_magic_script, MagicPEXMode, MagicShortMode, MagicMergeMode
    o = c['o']
    a = open(f'{top}/mag.args').read().split('\0')[:-1]
    if f'{top}/my.rc' not in a:
        return f'MAGIC gets {a}'
    s = open(f'{top}/script').read()
    d, n = re.findall(r'^ext2spice -p (.*) -o (.*)$', s, re.M)[0]
    if os.path.commonpath([out, d, n]) != out:
        return f'MAGIC works in {d} and {n}, not in {out}'
    prepare_magic_script(gds_path='chip.gds', cell_name='TOP', run_dir_path=d, script_path=f'{top}/want', output_netlist_path=n, pex_mode=MagicPEXMode(o.get('magic_mode', 'CC')),
                         c_threshold=o.get('magic_cthresh', .01), r_threshold=o.get('magic_rthresh', 100), tolerance=o.get('magic_tolerance', 1.0), halo=o.get('magic_halo'),
                         short_mode=MagicShortMode(o.get('magic_short', 'none')), merge_mode=MagicMergeMode(o.get('magic_merge', 'none')))
    w = open(f'{top}/want').read()
    num = lambda l: [float(x) if re.fullmatch(r'-?\d+(\.\d+)?(e-?\d+)?', x) else x for x in l.split()]
    x = [p for p in zip(s.split('\n') + [''], w.split('\n') + ['']) if num(p[0]) != num(p[1])]
    if x or s.count('\n') != w.count('\n'):
        return f'MAGIC is told {x[:1]}'
    if text(n) != text(f'{top}/m.spice'):
        return 'the netlist of MAGIC is not what MAGIC wrote'
    from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
    from klayout_pex.magic.magic_log_analyzer import MagicLogAnalyzer
    from pathlib import Path
    import klayout.rdb as rdb
    r = rdb.ReportDatabase('')
    MagicLogAnalyzer(magic_pex_run=parse_magic_pex_run(Path(d)), report=r, dbu=c['dbu']).analyze()
    r.save(f'{top}/want.rdb')
    got = glob.glob(f'{d}/*.rdb*')
    if len(got) != 1 or text(got[0]) != text(f'{top}/want.rdb'):
        return f'the MAGIC report {got} is not that of the results'
    return None
