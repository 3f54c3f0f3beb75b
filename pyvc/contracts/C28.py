from .proc import *

ASSUMPTIONS = ['subprocess.Popen, os.path and open as documented; readline returns every line of the output once and then an empty string',
               'the command line options of the programs are as their manuals say', 'str() of a float names exactly this float',
               'paths without characters special to Tcl (MAGIC script)', 'a resolved path means the same in every working directory']
FC = 'klayout_pex.fastercap.fastercap_runner'
F2 = 'klayout_pex.fastcap.fastcap_runner'
LVS = 'klayout_pex.klayout.lvs_runner'
MAG = 'klayout_pex.magic.magic_runner'
SVG = 'klayout_pex.netlistsvg.netlistsvg_runner'
P = lambda n: z3.Const(n, NAME)


def opts(I, args, flags, what):
    """[(flag, text)] and the other arguments"""
    got, rest = [], []
    for a in args:
        f, v = split_arg(a, flags)
        if f is None:
            rest.append(v)
        else:
            got.append((f, v))
    for f in sorted({f for f, _ in got}):
        I.prove(f'{what}: {f} is given once', z3.BoolVal(len([1 for g, _ in got if g == f]) == 1))
    return dict(got), rest


def exe_is(I, st, p, exe):
    x = one(p.args[0]) if p.args else None
    I.prove('the given program is run', z3.Implies(NONEMPTY(DIRN(exe)), st.res(p.dir, x) == st.res(CWD0, exe)) if is_sym(x) and x.sort() == NAME else z3.BoolVal(False))
    if is_sym(x) and x.sort() == NAME:
        I.prove('a program without directory is looked up in PATH', z3.Implies(z3.Not(NONEMPTY(DIRN(exe))), x == exe))


def fastercap(I):
    """ensures: FasterCap is run in console mode with every option of the caller at its flag, on the list file"""
    st = State(I)
    tol, d, m = (I.fresh(n, R) for n in ('tolerance', 'd_coeff', 'mesh'))
    ap, g, pj = (I.fresh(n, B) for n in ('auto_preconditioner', 'galerkin', 'jacobi'))
    ooc = I.fresh('ooc', R) if I.branch(I.fresh('has_ooc', B)) else None
    p = st.run(I, FC, 'run_fastercap', [], dict(exe_path=P('exe'), lst_file_path=P('lst'), log_path=P('log'), tolerance=tol, d_coeff=d, mesh_refinement_value=m,
                                                  ooc_condition=ooc, auto_preconditioner=ap, galerkin_scheme=g, jacobi_preconditioner=pj), P('log'))
    if p is None:
        return
    exe_is(I, st, p, P('exe'))
    args = p.args[1:]
    plain = [a for a in args if isinstance(a, str)]
    got, rest = opts(I, [a for a in args if not isinstance(a, str)], ['-a', '-d', '-m', '-f'], 'FasterCap')
    for s in ('-b', '-i', '-v'):
        I.prove(f'FasterCap: {s}', z3.BoolVal(plain.count(s) == 1))
    for s, c in (('-ap', ap), ('-g', g), ('-pj', pj)):
        I.prove(f'FasterCap: {s} exactly if asked for', (c if s in plain else z3.Not(c)))
    I.prove('FasterCap: no other options', z3.BoolVal(set(plain) <= {'-b', '-i', '-v', '-ap', '-g', '-pj'} and len(set(plain)) == len(plain)))
    for f, v in (('-a', tol), ('-d', d), ('-m', m), ('-f', ooc)):
        if v is None:
            I.prove(f'FasterCap: no {f} if not asked for', z3.BoolVal(f not in got))
        elif f not in got:
            I.prove(f'FasterCap: {f} is given', z3.BoolVal(False))
        else:
            value_is(I, f'FasterCap: {f}', got[f], v)
    I.prove('FasterCap: one input file', z3.BoolVal(len(rest) == 1))
    for r in rest:
        st.names(p, r, P('lst'), 'FasterCap: the list file is the input')


def fastcap(I):
    """ensures: FastCap2 is run in the directory of the list file, with every option of the caller at its flag"""
    st = State(I)
    o, pf, t = (I.fresh(n, R) for n in ('expansion_order', 'permittivity', 'tolerance'))
    auto = I.branch(I.fresh('depth_auto', B))
    dep = I.literal('auto', NAME) if auto else P('depth')
    if not auto:
        I.assume(dep != I.literal('auto', NAME))
    p = st.run(I, F2, 'run_fastcap', [], dict(exe_path=P('exe'), lst_file_path=P('lst'), log_path=P('log'), expansion_order=o, partitioning_depth=dep,
                                               permittivity_factor=pf, iterative_tolerance=t), P('log'))
    if p is None:
        return
    exe_is(I, st, p, P('exe'))
    got, rest = opts(I, p.args[1:], ['-o', '-d', '-p', '-t', '-l'], 'FastCap2')
    I.prove('FastCap2: no other arguments', z3.BoolVal(not rest))
    for f, v in (('-o', o), ('-d', None if auto else dep), ('-p', pf), ('-t', t)):
        if v is None:
            I.prove(f'FastCap2: no {f} if not asked for', z3.BoolVal(f not in got))
        elif f not in got:
            I.prove(f'FastCap2: {f} is given', z3.BoolVal(False))
        else:
            value_is(I, f'FastCap2: {f}', got[f], v)
    if '-l' not in got:
        I.prove('FastCap2: -l is given', z3.BoolVal(False))
        return
    st.names(p, got['-l'], P('lst'), 'FastCap2: the list file is the input')
    I.prove('FastCap2 runs where the files the list names are', p.dir == DIRN(st.res(CWD0, P('lst'))))


RD = dict(run_mode='deep', spice_net_names='true', schematic_simplify='false', net_only='false', top_lvl_pins='true', combine='false', combine_devices='false',
          purge='false', purge_nets='false', no_simplify='true', scale='false')


def lvs(I):
    """ensures: KLayout is run in batch mode with the LVS script on layout and schematic, writing the database, hierarchically, keeping all nets and devices"""
    st = State(I)
    vb = I.fresh('verbose', B)
    p = st.run(I, LVS, 'LVSRunner.run_klayout_lvs', [], dict(exe_path=P('exe'), lvs_script=P('script'), gds_path=P('gds'), schematic_path=P('schematic'), log_path=P('log'),
                                                             lvsdb_path=P('lvsdb'), verbose=vb), P('log'), raises=False)
    if p is None:
        return
    exe_is(I, st, p, P('exe'))
    args, rd, i, script, batch = p.args[1:], {}, 0, [], 0
    while i < len(args):
        a = args[i]
        if a == '-b':
            batch += 1
            i += 1
        elif a in ('-r', '-rd') and i + 1 < len(args):
            if a == '-r':
                script.append(args[i + 1])
            else:
                x = args[i + 1]
                k, v = (x.partition('=')[0], x.partition('=')[2]) if isinstance(x, str) else (x.parts[0].rstrip('='), x.parts[1]) if isinstance(x, StrCat) and len(x.parts) == 2 and \
                    isinstance(x.parts[0], str) and x.parts[0].endswith('=') else _no('-rd')
                I.prove(f'LVS: {k} is set once', z3.BoolVal(k not in rd))
                rd[k] = v
            i += 2
        else:
            I.prove('LVS: no other arguments', z3.BoolVal(False))
            return
    I.prove('LVS: batch mode', z3.BoolVal(batch == 1))
    I.prove('LVS: one script', z3.BoolVal(len(script) == 1))
    for s in script:
        st.names(p, s, P('script'), 'LVS: the script is the given one')
    for k, f in (('input', 'gds'), ('report', 'lvsdb'), ('schematic', 'schematic')):
        x = one(rd.get(k))
        I.prove(f'LVS: {k} is the given file, whatever the script makes its directory', x == st.res(CWD0, P(f)) if is_sym(x) and x.sort() == NAME else z3.BoolVal(False))
    for k, v in RD.items():
        I.prove(f'LVS: {k}={v}', z3.BoolVal(rd.get(k) == v))
    v = rd.get('verbose')
    I.prove('LVS: verbose as asked for', vb if v == 'true' else z3.Not(vb) if v == 'false' else z3.BoolVal(False))


def magic(I):
    """ensures: MAGIC is run without display on the script with the given configuration"""
    st = State(I)
    p = st.run(I, MAG, 'run_magic', [], dict(exe_path=P('exe'), magicrc_path=P('magicrc'), script_path=P('script'), log_path=P('log')), P('log'))
    if p is None:
        return
    exe_is(I, st, p, P('exe'))
    a = p.args[1:]
    plain = [x for x in a if isinstance(x, str)]
    I.prove('MAGIC: no display, no console', z3.BoolVal('-dnull' in plain and '-noconsole' in plain and set(plain) == {'-dnull', '-noconsole', '-rcfile'} and len(a) == 5))
    i = a.index('-rcfile') if '-rcfile' in plain else None
    if i is None or i + 1 >= len(a) or len(a) != 5:
        return
    st.names(p, a[i + 1], P('magicrc'), 'MAGIC: the configuration is the given one')
    rest = [x for j, x in enumerate(a) if j != i + 1 and not isinstance(x, str)]
    I.prove('MAGIC: one script', z3.BoolVal(len(rest) == 1))
    for r in rest:
        st.names(p, r, P('script'), 'MAGIC: the script is the given one')


def svg(I):
    """ensures: netlistsvg is run on the netlist with skin, output file and, if given, layout options"""
    st = State(I)
    has = I.branch(I.fresh('has_layout', B))
    p = st.run(I, SVG, 'run_netlistsvg', [], dict(exe_path=P('exe'), skin_path=P('skin'), yosys_json_netlist_path=P('json'), output_svg_path=P('svg'),
                                                  layout_elk_path=P('elk') if has else None, log_path=P('log')), P('log'))
    if p is None:
        return
    exe_is(I, st, p, P('exe'))
    a, got, rest, i = p.args[1:], {}, [], 0
    while i < len(a):
        if isinstance(a[i], str) and a[i] in ('-o', '--skin', '--layout') and i + 1 < len(a):
            I.prove(f'netlistsvg: {a[i]} is given once', z3.BoolVal(a[i] not in got))
            got[a[i]] = a[i + 1]
            i += 2
        else:
            rest.append(a[i])
            i += 1
    I.prove('netlistsvg: no other options', z3.BoolVal(set(got) == {'-o', '--skin'} | ({'--layout'} if has else set()) and len(rest) == 1))
    for f, n in (('-o', 'svg'), ('--skin', 'skin'), ('--layout', 'elk')):
        if f in got:
            st.names(p, got[f], P(n), f'netlistsvg: {f}')
    for r in rest:
        st.names(p, r, P('json'), 'netlistsvg: the netlist')


ROUND = z3.Function('round', R, Z)


def commands(I, parts):
    """the script as a list of commands (lists of words)"""
    out, cur, gap = [], [], True
    for p in parts:
        if isinstance(p, str):
            for i, l in enumerate(p.split('\n')):
                if i:
                    out.append(cur)
                    cur, gap = [], True
                toks = l.split(' ')
                for j, t in enumerate(toks):
                    if j:
                        gap = True
                    if t:
                        if gap:
                            cur.append(t)
                        else:
                            cur[-1] = (cur[-1], t)
                        gap = False
        else:
            v = one(p)
            if gap:
                cur.append(v)
            else:
                cur[-1] = (cur[-1], v)
            gap = False
    out.append(cur)
    return [c for c in out if c and not (isinstance(c[0], str) and c[0].startswith('#'))]


def script(I):
    """ensures: the MAGIC script flattens and extracts the given cell of the given layout with exactly the asked-for mode, halo, thresholds and modes for
    shorts and merging, every setting before the command it is for, and writes the netlist to the given file"""
    st = State(I)
    I.ghost['round'] = lambda I, x, n=None: ROUND(zreal(x)) if n is None else _no('round')
    ct, rt, tol = (I.fresh(n, R) for n in ('c_threshold', 'r_threshold', 'tolerance'))
    halo = I.fresh('halo', R) if I.branch(I.fresh('has_halo', B)) else None
    kw = dict(gds_path=P('gds'), cell_name=P('cell'), run_dir_path=P('run_dir'), script_path=P('script'), output_netlist_path=P('netlist'), c_threshold=ct, r_threshold=rt,
              tolerance=tol, halo=halo)
    n = 0
    for mode in ('CC', 'RC', 'R'):
        for short, sv in (('NONE', 'none'), ('RESISTOR', 'resistor'), ('VOLTAGE', 'voltage')):
            for merge, mv in (('NONE', 'none'), ('CONSERVATIVE', 'conservative'), ('AGGRESSIVE', 'aggressive')):
                if (('NONE', 'RESISTOR', 'VOLTAGE').index(short) + ('NONE', 'CONSERVATIVE', 'AGGRESSIVE').index(merge)) % 3 and mode != 'RC':
                    continue
                one_script(I, st, kw, halo, ct, rt, tol, mode, short, sv, merge, mv)
                n += 1


def one_script(I, st, kw, halo, ct, rt, tol, mode, short, sv, merge, mv):
    st.tr.events = []
    E = lambda c, n: I.getattr(I.repo(MAG, c), n)
    I.call(I.repo(MAG, 'prepare_magic_script'), [], dict(kw, pex_mode=E('MagicPEXMode', mode), short_mode=E('MagicShortMode', short), merge_mode=E('MagicMergeMode', merge)))
    ev = st.tr.events
    I.prove('script: one file, where it was asked for', z3.And(z3.BoolVal([e[0] for e in ev if e[0] == 'open'] == ['open']), *[e[1] == st.res(CWD0, P('script')) for e in ev if e[0] == 'open']))
    cs = commands(I, text_of(ev))

    def eq(a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return z3.And(*[eq(x, y) for x, y in zip(a, b)]) if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) else z3.BoolVal(False)
        if is_sym(a) and is_sym(b):
            return a == b if a.sort() == b.sort() else zreal(a) == zreal(b) if {a.sort(), b.sort()} <= {R, Z} else z3.BoolVal(False)
        return z3.BoolVal(not is_sym(a) and not is_sym(b) and a == b)

    def pos(words, last=True):
        """index of the command, or None"""
        hit = [i for i, c in enumerate(cs) if len(c) == len(words) and all(x == w if isinstance(w, str) and isinstance(x, str) else type(x) is tuple if type(w) is tuple else not isinstance(x, (str, tuple)) and not isinstance(w, str) for w, x in zip(words, c))]
        return hit

    def cmd(words, before=None, after=None, absent=False, what=None):
        """the command is there with these words, its last occurrence counts"""
        what = what or ' '.join(w if isinstance(w, str) else '..' for w in words)
        shape = pos(words)
        if absent:
            I.prove(f'{mode} script: no {what}', z3.BoolVal(not shape))
            return None
        good = shape
        I.prove(f'{mode} script: {what}', z3.BoolVal(bool(shape)))
        if not shape:
            return None
        for i in shape:
            I.prove(f'{mode} script: {what} as asked for', z3.And(*[eq(w, x) for w, x in zip(words, cs[i])]))
        if before is not None:
            I.prove(f'{mode} script: {what} in time', z3.BoolVal(all(i < before for i in good)))
        if after is not None:
            I.prove(f'{mode} script: {what} not too early', z3.BoolVal(all(i > after for i in good)))
        return good[0]
    cell = P('cell')
    flat = (cell, '_flat')
    ABS = lambda n: st.res(CWD0, P(n))
    ext = pos(['extract', 'all'])
    I.prove(f'{mode} script: extracts once', z3.BoolVal(len(ext) == 1))
    outs = [i for i, c in enumerate(cs) if c[:2] == ['ext2spice', '-p']]
    I.prove(f'{mode} script: writes one netlist', z3.BoolVal(len(outs) == 1))
    if len(ext) != 1 or len(outs) != 1:
        return
    ext, out = ext[0], outs[0]
    a = cmd(['gds', 'read', ABS('gds')], before=ext)
    for words in (['load', cell], ['flatten', flat], ['load', flat], ['cellname', 'delete', cell, '-noprompt'], ['cellname', 'rename', flat, cell]):
        if a is None:
            return
        a = cmd(words, before=ext, after=a)
    cmd(['extract', 'path', ABS('run_dir')], before=ext)
    h = [i for i, c in enumerate(cs) if c[:2] == ['extract', 'halo']]
    if halo is None:
        I.prove(f'{mode} script: no halo if not asked for', z3.BoolVal(not h))
    else:
        I.prove(f'{mode} script: the halo, 200 units per um', z3.And(z3.BoolVal(len(h) == 1 and h[0] < ext and len(cs[h[0]]) == 3), *[eq(cs[i][2], ROUND(zreal(halo) * 200)) for i in h]))
    res, cap = mode in ('RC', 'R'), mode in ('CC', 'RC')
    cmd(['extract', 'do', 'resistance'], before=ext, absent=not res)
    cmd(['extract', 'no', 'capacitance'], before=ext, absent=cap)
    cmd(['extract', 'no', 'coupling'], before=ext, absent=cap)
    if res:
        ra = pos(['extresist', 'all'])
        I.prove(f'{mode} script: extracts resistances', z3.BoolVal(len(ra) == 1 and ext < ra[0] < out))
        sim = pos(['ext2sim'])
        I.prove(f'{mode} script: resistances from the ext2sim output', z3.BoolVal(len(sim) == 1 and len(ra) == 1 and ext < sim[0] < ra[0]))
        if len(ra) == 1:
            cmd(['extresist', 'tolerance', tol], before=ra[0])
    else:
        I.prove(f'{mode} script: no resistances', z3.BoolVal(not [c for c in cs if c[0] == 'extresist']))
    cmd(['ext2spice', 'extresist', 'on'], before=out, absent=not res)
    if res:
        cmd(['ext2spice', 'rthresh', rt], before=out)
    if cap:
        cmd(['ext2spice', 'cthresh', ct], before=out)
    for w, v in (('short', sv), ('merge', mv)):
        hit = [c for c in cs[:out] if c[:2] == ['ext2spice', w]]
        I.prove(f'{mode} script: {w} as asked for', z3.BoolVal(bool(hit) and hit[-1][2:] == [v]))
    for w, v in (('subcircuits', ['top', 'on']), ('format', ['ngspice'])):
        I.prove(f'{mode} script: {w}', z3.BoolVal([c[2:] for c in cs[:out] if c[:2] == ['ext2spice', w]][-1:] == [v]))
    o = cs[out]
    I.prove(f'{mode} script: netlist to the given file', z3.And(z3.BoolVal(len(o) == 5 and o[3] == '-o'), *([eq(o[2], ABS('run_dir')), eq(o[4], ABS('netlist'))] if len(o) == 5 else [])))
    I.prove(f'{mode} script: quits at the end', z3.BoolVal(cs[-1][0] == 'quit' and len([c for c in cs if c[0] == 'quit']) == 1))


HARNESSES = [('fastercap', fastercap), ('fastcap', fastcap), ('lvs', lvs), ('magic', magic), ('netlistsvg', svg), ('magic_script', script)]
