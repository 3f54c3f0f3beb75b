"""the runners of other programs, with stand-ins that record how they are called"""
import os, re, shutil, subprocess, sys, tempfile
RULE = ('every runner with random options, program in PATH / relative / absolute, relative and absolute paths, output of 0..200 lines on both streams (empty lines, last line without '
        'newline, non-ASCII, some not UTF-8, some in a locale of another encoding), exit status 0, 1, 3, 255 or killed, some at work for a while after their last output; the program is a stand-in that records arguments, directory and standard input; MAGIC scripts are interpreted command by '
        'command; non-trivial: output and options')
N = 240
KIND = ['fastercap', 'fastcap', 'lvs', 'magic', 'netlistsvg', 'script']


def cases(rng, n):
    for i in range(n):
        k = KIND[i % 6]
        f = lambda: rng.choice([0.05, 1, 2, 0.123456789, 1e-7, 3.9, 1.0, 12345678.125])
        b = lambda: rng.random() < .5
        p = lambda x: [rng.choice(['rel', 'abs', 'sub', 'up']), x + rng.choice(['', '.1', '_b-2'])]
        o = dict(fastercap=lambda: dict(tolerance=f(), d_coeff=f(), mesh_refinement_value=f(), ooc_condition=rng.choice([None, 0, 2.0, 0.0, 5]), auto_preconditioner=b(),
                                        galerkin_scheme=b(), jacobi_preconditioner=b()),
                 fastcap=lambda: rng.choice([dict(), dict(expansion_order=rng.choice([2, 3]), partitioning_depth=rng.choice(['auto', 4, 0]), permittivity_factor=f(), iterative_tolerance=f())]),
                 lvs=lambda: dict(verbose=b()), magic=dict, netlistsvg=lambda: dict(elk=b()),
                 script=lambda: dict(mode=rng.choice(['CC', 'RC', 'R']), short=rng.choice(['NONE', 'RESISTOR', 'VOLTAGE']), merge=rng.choice(['NONE', 'CONSERVATIVE', 'AGGRESSIVE']),
                                     c=rng.choice([0.01, 0, 1e-5, 2.5]), r=rng.choice([100, 0, 12.5]), tol=rng.choice([1.0, 10, .1]), halo=rng.choice([None, 0, 8.0, 0.0025, round(rng.uniform(0, 10), 2), .29, round(rng.uniform(0, 10), 3)]),
                                     cell=rng.choice(['TOP', 'inv_1', 'a__b$1'])))[k]()
        lines = []
        for _ in range(rng.choice([0, 1, 3, 10, 40, 200])):
            lines.append([rng.randrange(2), rng.choice(['', 'x', 'Capacitance matrix is:', 'µΩ 1.5e-3  ', '  [red]a[/red] %s %d {0}', 'y' * rng.randrange(200), '\\n', 'a\ue000b' if i % 4 == 2 else 'z'])])
        yield dict(kind=k, opts=o, exe=rng.choice(['path', 'rel', 'abs']), paths={x: p(x) for x in ('log', 'lst', 'gds', 'schematic', 'lvsdb', 'script', 'rc', 'json', 'svg', 'skin', 'elk', 'run')},
                   lines=lines, nl=rng.random() < .7, status=rng.choice([0, 0, 0, 1, 3, 255, -9]), old=b(), slow=rng.random() < .25,
                   locale=rng.choice([None, None, 'latin-1', 'ascii']))


def trivial(c): return not c['lines'] and c['kind'] != 'script' or not c['opts']


def check(c):
    top = os.path.realpath(tempfile.mkdtemp(prefix='c28_'))
    cwd = os.getcwd()
    path = os.environ['PATH']
    te = getattr(subprocess, '_text_encoding', None)
    try:
        if te and c.get('locale'):
            subprocess._text_encoding = lambda: c['locale']
        work = f'{top}/work'
        os.makedirs(f'{work}/sub')
        os.makedirs(f'{top}/bin')
        os.chdir(work)
        os.environ['PATH'] = f'{top}/bin:{path}'
        return check_in(c, top, work)
    finally:
        if te:
            subprocess._text_encoding = te
        os.environ['PATH'] = path
        os.chdir(cwd)
        shutil.rmtree(top)


def check_in(c, top, work):
    P = {}
    for k, (how, n) in c['paths'].items():
        P[k] = dict(rel=n, abs=f'{work}/{n}', sub=f'sub/{n}', up=f'../{n}')[how]
    A = {k: os.path.abspath(v) for k, v in P.items()}
    if c.get('old'):
        for k in ('log', 'script'):
            open(A[k], 'w').write('gds read old\nold\n')
    if c['kind'] == 'script':
        return script(c, P, A)
    sh = ['#!/bin/sh', f'printf "%s\\0" "$@" > {top}/args', f'pwd > {top}/cwd', f'if read x; then echo yes > {top}/stdin; fi']
    text = ''
    for i, (stream, l) in enumerate(c['lines']):
        t = l + ('\n' if i < len(c['lines']) - 1 or c['nl'] else '')
        text += t
        open(f'{top}/o{i}', 'wb').write(t.encode('utf-8').replace('\ue000'.encode('utf-8'), b'\xff\xc3('))     # not UTF-8
        if i and c['lines'][i - 1][0] == stream:
            sh[-1] = (sh[-1][:-4] if stream else sh[-1]) + f' {top}/o{i}' + (' >&2' if stream else '')
        else:
            sh.append(f'cat {top}/o{i}' + (' >&2' if stream else ''))
    if c.get('slow'):
        sh.append(f'exec >&- 2>&-; sleep 0.2; echo done > {top}/done')
    sh.append('kill -9 $$' if c['status'] < 0 else f'exit {c["status"]}')
    open(f'{top}/bin/fake', 'w').write('\n'.join(sh) + '\n')
    os.chmod(f'{top}/bin/fake', 0o755)
    exe = dict(path='fake', rel='../bin/fake', abs=f'{top}/bin/fake')[c['exe']]
    o = c['opts']
    k = c['kind']
    if k == 'fastercap':
        from klayout_pex.fastercap.fastercap_runner import run_fastercap
        run = lambda: run_fastercap(exe_path=exe, lst_file_path=P['lst'], log_path=P['log'], **o)
    elif k == 'fastcap':
        from klayout_pex.fastcap.fastcap_runner import run_fastcap
        run = lambda: run_fastcap(exe_path=exe, lst_file_path=P['lst'], log_path=P['log'], **o)
    elif k == 'lvs':
        from klayout_pex.klayout.lvs_runner import LVSRunner
        run = lambda: LVSRunner().run_klayout_lvs(exe_path=exe, lvs_script=P['script'], gds_path=P['gds'], schematic_path=P['schematic'], log_path=P['log'], lvsdb_path=P['lvsdb'], **o)
    elif k == 'magic':
        from klayout_pex.magic.magic_runner import run_magic
        run = lambda: run_magic(exe_path=exe, magicrc_path=P['rc'], script_path=P['script'], log_path=P['log'])
    else:
        from klayout_pex.netlistsvg.netlistsvg_runner import run_netlistsvg
        run = lambda: run_netlistsvg(exe_path=exe, skin_path=P['skin'], yosys_json_netlist_path=P['json'], output_svg_path=P['svg'], layout_elk_path=P['elk'] if o['elk'] else None, log_path=P['log'])
    err = None
    import logging
    warned = []

    class H(logging.Handler):
        def emit(self, r): warned.append(r.levelno >= logging.WARNING)
    h, lg = H(), logging.getLogger('__kpex__')
    lg.addHandler(h)
    level = lg.level
    lg.setLevel(logging.WARNING)
    try:
        run()
    except Exception as e:
        err = e
    finally:
        lg.removeHandler(h)
        lg.setLevel(level)
    if os.getcwd() != work:
        return f'{k}: the working directory is now {os.getcwd()}'
    if not os.path.exists(f'{top}/args'):
        return f'{k}: the program {exe} was not run ({err!r})'
    if (err is not None) != (c['status'] != 0 and k != 'lvs'):
        return f'{k}: exit status {c["status"]}, but {"raises " + repr(err) if err else "no error"}'
    if c.get('slow') and not os.path.exists(f'{top}/done'):
        return f'{k}: the program is still at work when the runner returns'
    if k == 'lvs' and any(warned) != (c['status'] != 0):
        return f'{k}: exit status {c["status"]}, {"a" if any(warned) else "no"} warning'
    if os.path.exists(f'{top}/stdin'):
        return f'{k}: the program is given standard input'
    if not os.path.exists(A['log']):
        return f'{k}: no log file at {P["log"]}'
    got = open(A['log'], encoding='utf-8', newline='').read()
    if not re.fullmatch(re.escape(text).replace('\ue000', '[^\n]*'), got):
        return f'{k}: the log has {len(got)} of {len(text)} characters: {got[-60:]!r} instead of {text[-60:]!r}'
    args = open(f'{top}/args').read().split('\0')[:-1]
    d = open(f'{top}/cwd').read().strip()
    at = lambda x: os.path.normpath(os.path.join(d, x))
    return dict(fastercap=a_fastercap, fastcap=a_fastcap, lvs=a_lvs, magic=a_magic, netlistsvg=a_svg)[k](args, o, A, at, d)


def number(x):
    try:
        return float(x)
    except ValueError:
        return x


def a_fastercap(args, o, A, at, d):
    want = ['-b', '-i', '-v', ('-a', o['tolerance']), ('-d', o['d_coeff']), ('-m', o['mesh_refinement_value'])]
    if o['ooc_condition'] is not None:
        want.append(('-f', o['ooc_condition']))
    want += [f for f, x in (('-ap', 'auto_preconditioner'), ('-g', 'galerkin_scheme'), ('-pj', 'jacobi_preconditioner')) if o[x]]
    return numbered('FasterCap', args, want, lambda r: [at(x) for x in r] == [A['lst']])


def numbered(what, args, want, files):
    got = []
    rest = []
    for a in args:
        if a in want:
            got.append(a)
        elif [w for w in want if isinstance(w, tuple) and a.startswith(w[0]) and number(a[2:]) == w[1]]:
            got.append([w for w in want if isinstance(w, tuple) and a.startswith(w[0]) and number(a[2:]) == w[1]][0])
        elif a.startswith('-'):
            return f'{what}: option {a} instead of {want}'
        else:
            rest.append(a)
    if sorted(map(str, got)) != sorted(map(str, want)):
        return f'{what}: options {got} instead of {want}'
    if not files(rest):
        return f'{what}: input {rest}'


def a_fastcap(args, o, A, at, d):
    o = dict(dict(expansion_order=2, partitioning_depth='auto', permittivity_factor=1.0, iterative_tolerance=.01), **o)
    l = [a for a in args if a.startswith('-l')]
    if len(l) != 1 or at(l[0][2:]) != A['lst']:
        return f'FastCap2: list file {l} in {d} instead of {A["lst"]}'
    if d != os.path.dirname(A['lst']):
        return f'FastCap2 runs in {d}, the files of the list are in {os.path.dirname(A["lst"])}'
    want = [('-o', o['expansion_order']), ('-p', o['permittivity_factor']), ('-t', o['iterative_tolerance'])]
    if o['partitioning_depth'] != 'auto':
        want.append(('-d', o['partitioning_depth']))
    return numbered('FastCap2', [a for a in args if a not in l], want, lambda r: not r)


RD = dict(run_mode='deep', spice_net_names='true', schematic_simplify='false', net_only='false', top_lvl_pins='true', combine='false', combine_devices='false',
          purge='false', purge_nets='false', no_simplify='true', scale='false')


def a_lvs(args, o, A, at, d):
    i, rd, script, batch = 0, {}, [], 0
    while i < len(args):
        if args[i] == '-b':
            batch += 1
            i += 1
            continue
        if args[i] not in ('-r', '-rd'):
            return f'LVS: argument {args[i]}'
        if args[i] == '-r':
            script.append(at(args[i + 1]))
        else:
            k, _, v = args[i + 1].partition('=')
            if k in rd:
                return f'LVS: {k} twice'
            rd[k] = v
        i += 2
    if batch != 1 or script != [A['script']]:
        return f'LVS: batch {batch}, script {script}'
    for k, f in (('input', 'gds'), ('report', 'lvsdb'), ('schematic', 'schematic')):
        if rd.get(k) != A[f]:
            return f'LVS: {k} is {rd.get(k)} instead of {A[f]}'
    for k, v in dict(RD, verbose='true' if o['verbose'] else 'false').items():
        if rd.get(k) != v:
            return f'LVS: {k} is {rd.get(k)} instead of {v}'


def a_magic(args, o, A, at, d):
    if '-dnull' not in args or '-noconsole' not in args or '-rcfile' not in args or len(args) != 5:
        return f'MAGIC: {args}'
    i = args.index('-rcfile')
    rest = [a for j, a in enumerate(args) if j not in (i, i + 1) and a not in ('-dnull', '-noconsole')]
    if at(args[i + 1]) != A['rc'] or [at(x) for x in rest] != [A['script']]:
        return f'MAGIC: {args}'


def a_svg(args, o, A, at, d):
    got, rest, i = {}, [], 0
    while i < len(args):
        if args[i] in ('-o', '--skin', '--layout'):
            got[args[i]] = at(args[i + 1])
            i += 2
        else:
            rest.append(at(args[i]))
            i += 1
    want = {'-o': A['svg'], '--skin': A['skin']}
    if o['elk']:
        want['--layout'] = A['elk']
    if got != want or rest != [A['json']]:
        return f'netlistsvg: {args}'


def script(c, P, A):
    from klayout_pex.magic.magic_runner import prepare_magic_script, MagicPEXMode, MagicShortMode, MagicMergeMode
    o = c['opts']
    prepare_magic_script(gds_path=P['gds'], cell_name=o['cell'], run_dir_path=P['run'], script_path=P['script'], output_netlist_path=P['svg'], pex_mode=MagicPEXMode[o['mode']],
                         c_threshold=o['c'], r_threshold=o['r'], tolerance=o['tol'], halo=o['halo'], short_mode=MagicShortMode[o['short']], merge_mode=MagicMergeMode[o['merge']])
    cell, flat = o['cell'], o['cell'] + '_flat'
    st = dict(cells={}, top=None, ex={}, do=set(), no=set(), spice={}, er={}, done=[], sim=False)
    quit = False
    for l in open(P['script'], encoding='utf-8').read().split('\n'):
        w = l.split()
        if not w or w[0].startswith('#'):
            continue
        if quit:
            return f'script: {l} after quit'
        if w[:2] == ['gds', 'read']:
            if w[2:] != [A['gds']]:
                return f'script: {l}'
            st['cells'][cell] = 'layout'
        elif w[0] == 'load':
            if w[1] not in st['cells']:
                return f'script: {l}: no such cell'
            st['top'] = w[1]
        elif w[0] == 'flatten':
            st['cells'][w[1]] = 'flat ' + st['cells'][st['top']]
        elif w[:2] == ['cellname', 'delete']:
            st['cells'].pop(w[2])
        elif w[:2] == ['cellname', 'rename']:
            st['cells'][w[3]] = st['cells'].pop(w[2])
            st['top'] = w[3] if st['top'] == w[2] else st['top']
        elif w[:2] == ['extract', 'all']:
            st['done'].append(('extract', st['top'], st['cells'][st['top']], dict(st['ex']), set(st['do']), set(st['no'])))
        elif w[:2] in (['extract', 'do'], ['extract', 'no']):
            st[w[1]].add(w[2])
            st[dict(do='no', no='do')[w[1]]].discard(w[2])
        elif w[0] == 'extract':
            st['ex'][w[1]] = w[2]
        elif w[0] == 'ext2sim':
            st['sim'] |= len(w) == 1 and bool(st['done'])
        elif w[:2] == ['extresist', 'all']:
            st['done'].append(('extresist', st['sim'], dict(st['er'])))
        elif w[0] == 'extresist':
            st['er'][w[1]] = w[2]
        elif w[:2] == ['ext2spice', '-p']:
            st['done'].append(('netlist', w[2], w[3:], dict(st['spice'])))
        elif w[0] == 'ext2spice':
            st['spice'][w[1]] = ' '.join(w[2:])
        elif w[0] == 'quit':
            quit = True
    m = o['mode']
    res, cap = m != 'CC', m != 'R'
    if not quit:
        return 'script: does not quit'
    kinds = [x[0] for x in st['done']]
    if kinds != ['extract'] + ['extresist'] * res + ['netlist']:
        return f'{m} script: {kinds}'
    _, top, what, ex, do, no = st['done'][0]
    if (top, what) != (cell, 'flat layout'):
        return f'{m} script: extracts {top}, {what}'
    if ex.get('path') != A['run']:
        return f'{m} script: extract path {ex.get("path")}'
    if ('halo' in ex) != (o['halo'] is not None) or o['halo'] is not None and int(ex['halo']) != round(o['halo'] * 200):
        return f'{m} script: halo {ex.get("halo")} for {o["halo"]}'
    if do != ({'resistance'} if res else set()) or no != (set() if cap else {'capacitance', 'coupling'}):
        return f'{m} script: extracts {do} and not {no}'
    if res and (not st['done'][1][1] or float(st['done'][1][2].get('tolerance', 'nan')) != o['tol']):
        return f'{m} script: extresist {st["done"][1]}'
    _, run, out, sp = st['done'][-1]
    if run != A['run'] or out != ['-o', A['svg']]:
        return f'{m} script: netlist {out} from {run}'
    want = dict(short=o['short'].lower(), merge=o['merge'].lower(), subcircuits='top on', format='ngspice')
    if res:
        want['extresist'] = 'on'
    for k, v in want.items():
        if sp.get(k) != v:
            return f'{m} script: ext2spice {k} {sp.get(k)} instead of {v}'
    if not res and 'extresist' in sp:
        return f'{m} script: ext2spice extresist'
    for k, v, c in (('cthresh', o['c'], cap), ('rthresh', o['r'], res)):
        if c and float(sp.get(k, 'nan')) != v:
            return f'{m} script: ext2spice {k} {sp.get(k)} instead of {v}'
