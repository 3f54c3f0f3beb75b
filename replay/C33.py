"""inputs and the LVS database cache of the command line, with a stand-in for KLayout"""
import argparse, os, shutil, sys, tempfile, types
RULE = ('even cases: histories of 1..7 runs in one directory, layouts of the same name in different directories, several cells, relative and absolute paths, caching on and off, one or two '
        'output and cache directories, LVS that succeeds, fails or writes nothing, layouts touched in between; odd cases: single command lines with random input files, cells, engines, '
        'log levels, filters and missing files; non-trivial: at least two runs, or valid arguments')
N = 260
SRC = ['x.gds', 'a/x.gds', 'b/x.gds', 'b/y.v2.gds.gz']
CELLS = ['TOP', 'INV', 'inv', 'TOP_1', 'BUS[0]']


def cases(rng, n):
    for i in range(n):
        if i % 2 == 0:
            steps = []
            vary = rng.choice([None, 'gds', 'cell', 'pdk', 'touch'])      # None: everything
            base = dict(gds=rng.choice(SRC), cell='TOP', pdk='sky130A', out='out', cdir='cc', cache=True, lvs='ok', touch=None, given=False)
            for _ in range(rng.choice([1, 2, 3, 4, 7])):
                steps.append(dict(gds=rng.choice(SRC[:rng.choice([1, 2, 4])]), abs=rng.random() < .4, cell=rng.choice(['TOP', 'TOP', 'INV', 'TOP_1']), cache=rng.random() < .75,
                                  lvs=rng.choice(['ok', 'ok', 'ok', 'nonzero', 'fail', 'nowrite']), touch=rng.choice([None, None, None, 'newer', 'same', 'older', 'just', 'bit']),
                                  out=rng.choice(['out', 'out', 'out2']), cdir=rng.choice([None, None, 'cc']), pdk=rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2']),
                                  given=rng.random() < .12, sub=rng.random() < .2))
                if vary:
                    steps[-1].update({k: v for k, v in base.items() if k != vary})
            yield dict(kind='history', steps=steps)
        else:
            c = one(rng)
            if 'BUS[0]' in c['tops'] and rng.random() < .5:
                c['cell'] = 'BUS[0]'
            while i % 4 == 1 and expected(c) is not None:
                c = one(rng)
            yield c


def one(rng):
    r = rng.random
    return dict(kind='args', gds=rng.choice([None, 'ok', 'ok', 'ok', 'ok', 'missing']), db=rng.choice([None, None, 'ok', 'missing']), cell=rng.choice([None, None, 'TOP', 'INV', 'inv', 'nope', 'TO*', 'BUS[0]']),
                       tops=rng.choice([['TOP'], ['TOP'], ['TOP', 'TOP_1'], ['INV'], ['BUS[0]'], ['TOP', 'BUS[0]'], []]), name=rng.choice(SRC), sch=rng.choice([None, None, 'ok', 'missing']),
                       exe=rng.choice(['file', 'path', 'file', 'path', 'missing'] if r() < .4 else ['file', 'path']), tech=r() < .93, script=r() < .93,
                       eng=[e for e in ('magic', 'fastcap', 'fastercap', '2.5D') if r() < .4], level=rng.choice([None, 'INFO', 'debug', 'subprocess'] + ['bogus'] * (r() < .2)),
                       diel=rng.choice([None, 'all', 'none,+a', 'all,-b'] + ['all,+a', 'none,-a', 'all,none'] * (r() < .2)), cdir=rng.choice([None, 'cc']), rel=r() < .5)


def trivial(c): return len(c['steps']) < 2 if c['kind'] == 'history' else expected(c) is not None


def db_file(path, name):
    import klayout.db as kdb
    ly = kdb.Layout()
    t = ly.create_cell(name)
    l = ly.layer(1, 0)
    t.shapes(l).insert(kdb.Box(0, 0, 10, 10))
    x = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, t, []))
    x.connect(x.make_layer(l, 'a'))
    x.extract_netlist()
    x.write(path)


def layout(path, tops, cells=CELLS):
    """every cell has its own rectangle; the tops have the cells of a fixed hierarchy below them"""
    import klayout.db as kdb
    ly = kdb.Layout()
    ids = {}
    l = ly.layer(1, 0)
    below = {'TOP': ['INV'], 'TOP_1': ['INV', 'inv'], 'INV': ['inv'], 'inv': [], 'BUS[0]': ['inv']}

    def mk(n):
        if n not in ids:
            c = ids[n] = ly.create_cell(n)
            k = CELLS.index(n)
            c.shapes(l).insert(kdb.Box(0, 0, 100 + k, 200 + k))
            for m in below[n]:
                c.insert(kdb.CellInstArray(mk(m).cell_index(), kdb.Trans(1000 * (k + 1), 0)))
        return ids[n]
    for t in tops:
        mk(t)
    ly.write(path)
    return ids


def shape(path_or_ly, name=None):
    import klayout.db as kdb
    ly = path_or_ly
    if isinstance(ly, str):
        ly = kdb.Layout()
        ly.read(path_or_ly)
    c = ly.cell(name) if name else ly.top_cell()
    l = ly.find_layer(1, 0)
    return None if c is None or l is None else sorted(str(p) for p in kdb.Region(c.begin_shapes_rec(l)).each())


def check(c):
    top = os.path.realpath(tempfile.mkdtemp(prefix='c33_'))
    cwd, env = os.getcwd(), dict(os.environ)
    import io, contextlib
    try:
        os.makedirs(f'{top}/w/a')
        os.makedirs(f'{top}/w/b')
        os.makedirs(f'{top}/bin')
        os.chdir(f'{top}/w')
        os.environ['PATH'] = f'{top}/bin:{os.environ["PATH"]}'
        with contextlib.redirect_stdout(io.StringIO()):
            return (history if c['kind'] == 'history' else args_case)(c, top)
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(top)


FAKE = '''#!/bin/sh
printf "%s\\0" "$@" > {top}/args
for a in "$@"; do case "$a" in report=*) out="${{a#report=}}";; esac; done
. {top}/plan
[ -n "$DB" ] && cp "$DB" "$out"
exit $RC
'''


def history(c, top):
    from klayout_pex.kpex_cli import KpexCLI
    from klayout_pex.env import Env
    open(f'{top}/bin/fakeklayout', 'w').write(FAKE.format(top=top))
    os.chmod(f'{top}/bin/fakeklayout', 0o755)
    os.environ['KPEX_KLAYOUT_EXE'] = 'fakeklayout'
    now, cache, seen = 1000000000, {}, {}
    for s in SRC:
        layout(s, ['TOP', 'TOP_1'])
        os.utime(s, (now, now))
    db_file(f'{top}/given.lvsdb.gz', 'GIVEN')

    def files(d):
        return {os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}
    for i, s in enumerate(c['steps']):
        now += 100
        g = s['gds']
        k = (os.path.abspath(s['cdir'] or f'{s["out"]}/.kpex_cache'), s['pdk'], os.path.abspath(g), s['cell'])
        if s['touch']:
            t = dict(newer=now - 10, same=cache[k][1] if k in cache else now - 10, older=cache[k][1] - 1 if k in cache else now - 500,
                     bit=cache[k][1] - .05 if k in cache else now - 10, just=cache[k][1] + .5 if k in cache else now - 10)[s['touch']]
            os.utime(g, (t, t))
        if s['sub']:
            os.chdir('a')
        gp = os.path.abspath(f'{top}/w/{g}') if s['abs'] else os.path.relpath(f'{top}/w/{g}')
        out, cd = os.path.relpath(f'{top}/w/{s["out"]}'), s['cdir'] and os.path.relpath(f'{top}/w/{s["cdir"]}')
        argv = ['--pdk', s['pdk'], '--2.5D', '--out_dir', out, '--cell', s['cell'], '--cache-lvs', 'true' if s['cache'] else 'no']
        argv += ['--lvsdb', f'{top}/given.lvsdb.gz'] if s['given'] else ['--gds', gp]
        argv += ['--cache-dir', cd] if cd else []
        mark = f'RUN{i}'
        db_file(f'{top}/db{i}.lvsdb.gz', mark)
        ok = s['lvs'] in ('ok', 'nonzero')
        open(f'{top}/plan', 'w').write(f'DB={top}/db{i}.lvsdb.gz\nRC={0 if s["lvs"] == "ok" else 1}\n' if ok else f'DB=\nRC={1 if s["lvs"] == "fail" else 0}\n')
        if os.path.exists(f'{top}/args'):
            os.remove(f'{top}/args')
        hit = k in cache and s['cache'] and cache[k][1] > os.path.getmtime(f'{top}/w/{g}')
        want = 'GIVEN' if s['given'] else cache[k][0] if hit else mark if ok else None
        got = None
        before = {}
        try:
            a = KpexCLI.parse_args(argv, Env.from_os_environ())
            os.makedirs(a.output_dir_base_path, exist_ok=True)
            KpexCLI.validate_args(a)
            x = KpexCLI().create_lvsdb(a)
            got = x.internal_top_cell().name
        except (Exception, SystemExit) as e:
            err = e
        ran = os.path.exists(f'{top}/args')
        who = f'run {i} of {c["steps"][:i + 1]}'
        if got != want:
            return f'{who}: the database is {got or "none: " + repr(err)} instead of {want}'
        if ran != (not s['given'] and not hit):
            return f'{who}: LVS is {"" if ran else "not "}run'
        if ran:
            r = lvs_args(f'{top}/args', a, s)
            if r:
                return f'{who}: {r}'
            if ok and s['cache']:
                cache[k] = (mark, now + .25)
        os.chdir(f'{top}/w')
        for d in ('out/.kpex_cache', 'out2/.kpex_cache', 'cc'):
            for f in files(d):
                st = os.stat(f)
                if st.st_mtime > 1500000000:
                    os.utime(f, (now + .25, now + .25))
    return None


def lvs_args(path, a, s):
    args = open(path).read().split('\0')[:-1]
    rd = dict(x.split('=', 1) for x in args if '=' in x)
    if not os.path.exists(rd['input']) or not os.path.exists(rd['schematic']):
        return 'the layout or the schematic of LVS is missing'
    if shape(rd['input']) != shape(a.gds_path, s['cell']):
        return f'LVS gets another layout than that of cell {s["cell"]}'
    import re
    if not re.search(rf'^\.subckt {re.escape(s["cell"])} ', open(rd['schematic']).read(), re.M):
        return 'the dummy schematic is not that of the cell'
    if s['pdk'].split('_')[-1].lower()[:6] not in os.path.basename([x for x in args if x.endswith('.lvs')][0]).lower():
        return f'LVS script {[x for x in args if x.endswith(".lvs")]} for {s["pdk"]}'
    return None


def has(tops):
    below = {'TOP': ['INV'], 'TOP_1': ['INV', 'inv'], 'INV': ['inv'], 'inv': [], 'BUS[0]': ['inv']}
    out, todo = set(), list(tops)
    while todo:
        x = todo.pop()
        out.add(x)
        todo += below[x]
    return out


def expected(c):
    """None or why the arguments are unusable"""
    for bad, why in ((c['exe'] == 'missing', 'KLayout'), (not c['tech'], 'technology'), (not c['script'], 'script'), (not c['eng'], 'no engine'),
                     ('magic' in c['eng'] and c['gds'] is None, 'MAGIC without layout'), (c['gds'] is None and c['db'] is None, 'no input'),
                     (c['gds'] == 'missing', 'no layout'), (c['gds'] is None and c['db'] == 'missing', 'no database'),
                     (c['gds'] == 'ok' and c['cell'] is not None and c['cell'] not in has(c['tops']), 'no such cell'),
                     (c['gds'] == 'ok' and c['cell'] is None and len(c['tops']) != 1, 'not one top cell'), (c['gds'] is not None and c['sch'] == 'missing', 'no schematic'),
                     (c['level'] == 'bogus', 'level'), (c['diel'] in ('all,+a', 'none,-a', 'all,none'), 'filter')):
        if bad:
            return why
    return None


def args_case(c, top):
    from klayout_pex.kpex_cli import KpexCLI, ArgumentValidationError, InputMode
    from klayout_pex.env import Env
    from klayout_pex.pdk_config import PDKConfig
    from klayout_pex.log import LogLevel
    exe = dict(file=f'{top}/klexe', path='klexe', missing='noklexe')[c['exe']]
    for p in (f'{top}/klexe', f'{top}/bin/klexe'):
        open(p, 'w').write('#!/bin/sh\n')
        os.chmod(p, 0o755)
    os.environ['KPEX_KLAYOUT_EXE'] = exe
    for n, k in (('tech.json', 'tech'), ('x.lvs', 'script')):
        if c[k]:
            open(f'{top}/{n}', 'w').write('')
    cfg = PDKConfig(name='p', pex_lvs_script_path=f'{top}/x.lvs', tech_pb_json_path=f'{top}/tech.json')
    argv = ['--pdk', 'sky130A', '--out_dir', 'out' if c['rel'] else f'{top}/w/out'] + [f'--{e}' for e in c['eng']]
    g = c['name'] if c['rel'] else f'{top}/w/{c["name"]}'
    if c['gds']:
        argv += ['--gds', g]
        if c['gds'] == 'ok':
            layout(c['name'], c['tops'])
    if c['db']:
        argv += ['--lvsdb', 'given.v1.lvsdb.gz']
        if c['db'] == 'ok':
            db_file('given.v1.lvsdb.gz', 'GIVEN')
    for o, k in (('--cell', 'cell'), ('--cache-dir', 'cdir'), ('--log_level', 'level')):
        argv += [o, c[k]] if c[k] else []
    argv += [f'--diel={c["diel"]}'] if c['diel'] else []
    if c['sch']:
        argv += ['--schematic', 's.spice']
        if c['sch'] == 'ok':
            open('s.spice', 'w').write('* mine\n')
    a = KpexCLI.parse_args(argv, Env.from_os_environ())
    real = a.pdk.config
    if 'sky130A' not in os.path.basename(real.tech_pb_json_path) or 'sky130' not in os.path.basename(real.pex_lvs_script_path) or not os.path.isfile(real.pex_lvs_script_path):
        return f'PDK sky130A: {real}'
    a.pdk = types.SimpleNamespace(config=cfg)
    os.makedirs(a.output_dir_base_path, exist_ok=True)
    want = expected(c)
    # an MAGIC run without layout but all else in order is refused as well
    try:
        KpexCLI.validate_args(a)
        err = None
    except ArgumentValidationError as e:
        err = e
    except Exception as e:
        return f'{argv}: {e!r} ({"rejected: " + want if want else "usable arguments"})'
    if (err is None) != (want is None):
        return f'{argv}: {"accepted although " + want if want else "rejected"}; {c}'
    if err is not None:
        return None
    if a.tech_pbjson_path != cfg.tech_pb_json_path or a.lvs_script_path != cfg.pex_lvs_script_path:
        return f'technology {a.tech_pbjson_path}, script {a.lvs_script_path}'
    cell = (c['cell'] or c['tops'][0]) if c['gds'] else 'GIVEN'
    if a.effective_cell_name != cell:
        return f'{argv}: cell {a.effective_cell_name} instead of {cell}'
    if a.input_mode != (InputMode.GDS if c['gds'] else InputMode.LVSDB):
        return f'{argv}: input mode {a.input_mode}'
    stem = os.path.basename(c['name'] if c['gds'] else 'given').split('.')[0]
    o = os.path.abspath(a.output_dir_path)
    if os.path.dirname(o) != f'{top}/w/out' or not os.path.isdir(o) or stem not in os.path.basename(o) or cell not in os.path.basename(o):
        return f'{argv}: output directory {a.output_dir_path}'
    if c['gds']:
        import klayout.db as kdb
        ly = kdb.Layout()
        ly.read(a.effective_gds_path)
        if [t.name for t in ly.top_cells()] != [cell]:
            return f'{argv}: the layout for LVS has the top cells {[t.name for t in ly.top_cells()]}'
        if shape(ly) != shape(c['name'], cell):
            return f'{argv}: the layout for LVS is not that of {cell}'
        if os.path.abspath(a.effective_gds_path) != f'{top}/w/{c["name"]}' and os.path.dirname(os.path.abspath(a.effective_gds_path)) != o:
            return f'{argv}: layout for LVS at {a.effective_gds_path}'
        if shape(a.layout, cell) != shape(c['name'], cell):
            return f'{argv}: the layout is another one'
        if c['sch'] and a.effective_schematic_path != 's.spice':
            return f'{argv}: schematic {a.effective_schematic_path}'
        if not c['sch']:
            l = [x.split() for x in open(a.effective_schematic_path).read().lower().split('\n') if x.strip()]
            if [x[0] for x in l] != ['.subckt', '.ends', '.end'] or l[0][1] != cell.lower():
                return f'{argv}: dummy schematic {l}'
    if a.log_level != LogLevel[(c['level'] or 'subprocess').upper()]:
        return f'{argv}: log level {a.log_level}'
    f = a.dielectric_filter.filter(['a', 'b', 'c'])
    if sorted(f) != sorted({None: 'abc', 'all': 'abc', 'none,+a': 'a', 'all,-b': 'ac'}[c['diel']]):
        return f'{argv}: dielectrics {f}'
    if os.path.abspath(a.cache_dir_path) != (f'{top}/w/cc' if c['cdir'] else f'{top}/w/out/.kpex_cache') and c['cdir'] or not os.path.abspath(a.cache_dir_path).startswith(f'{top}/w/'):
        return f'{argv}: cache directory {a.cache_dir_path}'
    return None
