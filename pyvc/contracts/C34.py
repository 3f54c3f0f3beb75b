from .cli import *

ASSUMPTIONS = ['os, argparse and open as documented; different path texts are different files', 'klayout.db / klayout.rdb: Netlist.write writes the netlist as SPICE, Layout.read, ReportDatabase.save',
               'parsers, averaging, expander, reducer, CSV writer, runners, model builder and the 2.5D extractor by their contracts (C01-C08, C10, C14, C22, C24, C25, C28): here they are '
               'functions of what they are given', 'os.path.abspath names the same file']
fun = z3.Function
PARSE = {k: fun(f'matrix in the {k} log', NAME, NAME) for k in ('FasterCap', 'FastCap')}
RUN = {k: fun(f'output of {k}', NAME, NAME) for k in ('FasterCap', 'FastCap', 'MAGIC')}
AVG = fun('averaged', NAME, NAME)
CSV = fun('matrix as CSV', NAME, NAME)
EXPAND = fun('expanded netlist', NAME, NAME, NAME, B, NAME)
REDUCE = fun('reduced netlist', NAME, NAME, NAME)
NETCSV = fun('netlist as CSV', NAME, NAME, NAME)
SPICE = fun('netlist as SPICE', NAME, NAME)
LVSNET = N('LVS netlist')
TOPNAME = N('top cell of the context')
BLACK = z3.Const('blackbox', B)
MODEL = fun('field solver model', NAME, NAME)


def contract(I, qual, fn):
    """fn(I, dict of the bound arguments)"""
    mod, q = qual.split(':')
    f = I.repo(mod, q)
    while isinstance(f, tuple):
        f = f[1]
    if isinstance(f, BoundMethod):
        f = f.fn
    I.contracts[f.qual] = lambda I, a, k: fn(I, I.bind(f, a[1:] if len(a) == len(f.node.args.args) + 1 else a, k).vars)


class NetlistM(Model):
    kind = 'Netlist'
    def __init__(self, fs, t):
        super().__init__()
        self.fs, self.t = fs, t

    def m_write(self, I, p, w=None):
        self.fs.put(p, SPICE(self.t))
        I.prove('the netlist has the names of the nets', z3.BoolVal(w is not None and w.attrs_.get('use_net_names') is True))

    def m_dup(self, I): return NetlistM(self.fs, self.t)


class Writer(Model):
    kind = 'NetlistSpiceWriter'
    def __init__(self):
        super().__init__()
        self.attrs_ = {'use_net_names': False, 'with_comments': True}
    def setattr(self, I, n, v):
        if n not in self.attrs_:
            raise Undecided(f'writer {n}')
        self.attrs_[n] = v


class MatM(Model):
    kind = 'CapacitanceMatrix'
    def __init__(self, fs, t):
        super().__init__()
        self.fs, self.t = fs, t
    def m_write_csv(self, I, p, sep=';'):
        I.prove('the separator of the matrix is the usual one', z3.BoolVal(sep == ';'))
        self.fs.put(p, CSV(self.t))
    def m_averaged_off_diagonals(self, I): return MatM(self.fs, AVG(self.t))


class Line(Model):
    kind = 'Line'
    def getitem(self, I, k): return self
    def getattr(self, I, n):
        if n in ('strip', 'rstrip'):
            return Builtin(n, lambda I, a, k: self)
        raise Undecided(f'line {n}')


class FileIn(Model):
    kind = 'FileIn'
    def __init__(self, I):
        super().__init__()
        self.n = I.fresh('lines', Z)
        I.assume(self.n >= 0)
    def m_readlines(self, I): return SymSeq('lines', self.n, lambda I, i: Line())
    def iterate(self, I): return self.m_readlines(I).iterate(I)
    def m_read(self, I): return Line()
    def m_close(self, I): return None


class World(Files):
    """files with what steps write to them"""
    def __init__(self, I):
        super().__init__(I)
        self.install(I)
        names(I)
        install_join(I)
        I.externals['os.path.abspath'] = Builtin('abspath', lambda I, a, k: a[0])
        I.externals['klayout.db.NetlistSpiceWriter'] = Builtin('NetlistSpiceWriter', lambda I, a, k: Writer())
        self.tr = Trace()
        I.roots = getattr(I, 'roots', []) + [self.tr]
        I.auto_loop = lambda it: AutoTrace('loop', self.tr, lambda I, L, k, ev: I.prove('loops only print', z3.BoolVal(not ev)))
        self.environ = DictVal([])
        I.externals['os.environ'] = self.environ

    def open(self, I, p, mode='r', **kw):
        if mode == 'r':
            self.need(p)
            return FileIn(I)
        return super().open(I, p, mode, **kw)

    def is_(self, what, p, t):
        f = self.f(p)
        self.I.prove(what, f['content'] == t if is_sym(f['content']) else z3.BoolVal(False))

    def results(self, outs, base):
        """(what, term): exactly one file in the run's directory holds it"""
        I = self.I
        files = {k: f for k, f in self.st.items() if is_sym(f['content']) and f['content'] is not f['first']['content'] or isinstance(f['content'], Trace)}
        for what, t in outs:
            c = [k for k, f in files.items() if is_sym(f['content']) and z3.eq(f['content'], t)]
            if not c:
                like = [k for k, f in files.items() if is_sym(f['content']) and f['content'].decl().eq(t.decl())]
                if len(like) == 1:
                    I.prove(f'{what}: of this run', files[like[0]]['content'] == t)
                    continue
                I.prove(f'{what} is written', z3.BoolVal(False))
                continue
            I.prove(f'{what} is in the output directory', z3.BoolVal(all(k.startswith(base + '/') for k in c)))
        for k in files:
            I.prove('files are written in the output directory only', z3.BoolVal(k.startswith(base)))


def context(I, fs):
    db = Record('lvsdb', dict(netlist=Builtin('netlist', lambda I, a, k: NetlistM(fs, LVSNET))))
    return Record('context', dict(lvsdb=db, annotated_top_cell=Record('cell', dict(name=TOPNAME)), tech=Record('tech', {})))


FCR = 'klayout_pex.fastercap.fastercap_runner'
F2R = 'klayout_pex.fastcap.fastcap_runner'
OPTS = dict(tolerance='fastercap_tolerance', d_coeff='fastercap_d_coeff', mesh_refinement_value='fastercap_mesh_refinement_value', ooc_condition='fastercap_ooc_condition',
            auto_preconditioner='fastercap_auto_preconditioner', galerkin_scheme='fastercap_galerkin_scheme', jacobi_preconditioner='fastercap_jacobi_preconditioner')
KIND = dict(auto_preconditioner=B, galerkin_scheme=B, jacobi_preconditioner=B)


def steps(I, fs):
    def expand(I, v):
        n, m = v['extracted_netlist'], v['cap_matrix']
        if not (isinstance(n, NetlistM) and isinstance(m, MatM)):
            raise Undecided('expand')
        return NetlistM(fs, EXPAND(n.t, v['top_cell_name'], m.t, v['blackbox_devices'] if is_sym(v['blackbox_devices']) else z3.BoolVal(bool(v['blackbox_devices']))))
    contract(I, 'klayout_pex.klayout.netlist_expander:NetlistExpander.expand', expand)
    contract(I, 'klayout_pex.klayout.netlist_reducer:NetlistReducer.reduce', lambda I, v: NetlistM(fs, REDUCE(v['netlist'].t, v['top_cell_name'])))
    contract(I, 'klayout_pex.klayout.netlist_csv:NetlistCSVWriter.write_csv', lambda I, v: fs.put(v['output_path'], NETCSV(v['netlist'].t, v['top_cell_name'])))


def _no(w): raise Undecided(w)


def solver(I, kind):
    """ensures: the solver runs on the given list file with the options given; the raw matrix is the one in the log of this run, then averaged, expanded into the LVS netlist at
    the context's top cell, then reduced; each of them is in its own file of the output directory"""
    fs = World(I)
    steps(I, fs)
    vals = {o: I.fresh(o, KIND.get(k, R)) for k, o in OPTS.items()}
    threads = I.fresh('threads', Z)
    a = Args(output_dir_path=N('output_dir'), effective_cell_name=N('cell'), fastercap_exe_path=N('fastercap_exe'), fastcap_exe_path=N('fastcap_exe'), num_threads=threads, blackbox_devices=BLACK, **vals)
    runs = []

    def run(I, v):
        runs.append(v)
        I.prove('the solver runs on the given list file', v['lst_file_path'] == N('lst'))
        I.prove('the solver is the given one', v['exe_path'] == (N('fastercap_exe') if kind == 'FasterCap' else N('fastcap_exe')))
        if kind == 'FasterCap':
            for k, o in OPTS.items():
                I.prove(f'FasterCap gets {k}', v[k] == vals[o] if is_sym(v[k]) else z3.BoolVal(False))
            t = [x for k, x in fs.environ.pairs if k == 'OMP_NUM_THREADS']
            t = flat(t[-1]) if t else [None]
            t = t[0].v if len(t) == 1 and isinstance(t[0], Fmt) else t[0] if len(t) == 1 else None
            I.prove('FasterCap gets the number of threads', t == threads if is_intlike(t) else z3.BoolVal(False))
        else:
            for k, x in dict(expansion_order=2, partitioning_depth='auto', permittivity_factor=1.0, iterative_tolerance=0.01).items():
                if k in v and is_sym(v[k]):
                    raise Undecided(k)
        fs.put(v['log_path'], RUN[kind](v['lst_file_path']))

    def parse(I, v):
        p = list(v.values())[0]
        f = fs.need(p)
        I.prove('the log that is read is that of this run', f['content'] == RUN[kind](N('lst')) if runs else z3.BoolVal(False))
        return MatM(fs, PARSE[kind](f['content']))
    R_, P_ = (FCR + ':run_fastercap', FCR + ':fastercap_parse_capacitance_matrix') if kind == 'FasterCap' else (F2R + ':run_fastcap', F2R + ':fastcap_parse_capacitance_matrix')
    contract(I, R_, run)
    contract(I, P_, parse)
    cli = I.instantiate(I.repo(MOD, 'KpexCLI'), [], {})
    I.assume(fs.f(N('output_dir'))['exists'])
    I.call(I.getattr(cli, 'run_fastercap_extraction' if kind == 'FasterCap' else 'run_fastcap_extraction'), [], dict(args=a, pex_context=context(I, fs), lst_file=N('lst')))
    I.prove('the solver runs once', z3.BoolVal(len(runs) == 1))
    m = PARSE[kind](RUN[kind](N('lst')))
    x = EXPAND(LVSNET, TOPNAME, AVG(m), BLACK)
    outs = [('log', RUN[kind](N('lst'))), ('raw matrix', CSV(m)), ('averaged matrix', CSV(AVG(m))), ('expanded netlist', SPICE(x)), ('reduced netlist', SPICE(REDUCE(x, TOPNAME)))]
    if kind == 'FasterCap':
        outs.append(('netlist CSV', NETCSV(x, TOPNAME)))
    fs.results(outs, '<output_dir>')
    if kind == 'FasterCap':
        p = I.getattr(cli, 'fastercap_extracted_csv_path')
        fs.is_('the path of the netlist CSV is remembered', p, NETCSV(x, TOPNAME))


def named(kind):
    def h(I): return solver(I, kind)
    h.__doc__ = solver.__doc__
    return h


def magic(I):
    """ensures: for a layout: MAGIC runs on a script for the given layout and cell with mode, thresholds, tolerance, halo and merging as given, its log, netlist and report lie in a
    directory of their own in the output directory; without a layout nothing runs"""
    fs = World(I)
    gds_mode = I.branch(I.fresh('gds_mode', B))
    mode = I.getattr(I.repo(MOD, 'InputMode'), 'GDS' if gds_mode else 'LVSDB')
    S = {n: N(n) for n in ('magic_pex_mode', 'magic_short_mode', 'magic_merge_mode', 'effective_gds_path', 'magic_exe_path', 'magicrc_path')}
    V = {n: I.fresh(n, R) for n in ('magic_cthresh', 'magic_rthresh', 'magic_tolerance')}
    halo = I.fresh('halo', R) if I.branch(I.fresh('has_halo', B)) else None
    a = Args(output_dir_path=N('output_dir'), effective_cell_name=N('cell'), input_mode=mode, magic_halo=halo, **S, **V)
    calls, script, log = [], {}, []

    def prep(I, v):
        calls.append('script')
        script.update(v)
        I.prove('the directory of the script is there', fs.f(v['run_dir_path'])['exists'])
        fs.put(v['script_path'], SCRIPT)

    def run(I, v):
        calls.append('run')
        I.prove('MAGIC runs the script of this run', fs.need(v['script_path'])['content'] == SCRIPT)
        I.prove('MAGIC: program and rc file as given', z3.And(v['exe_path'] == a.d['magic_exe_path'], v['magicrc_path'] == a.d['magicrc_path']))
        fs.put(v['log_path'], RUN['MAGIC'](SCRIPT))
        fs.put(script['output_netlist_path'], N('netlist of MAGIC'))
        script['log'] = v['log_path']

    def parse(I, v):
        calls.append('parse')
        p = list(v.values())[0]
        I.prove('what MAGIC left is read after it ran', z3.BoolVal('run' in calls))
        I.prove('the directory that is read is that of MAGIC', z3.BoolVal(key(p) == key(script['run_dir_path'])))
        return Record('run', dict(dir=p))
    MR = 'klayout_pex.magic.magic_runner'
    contract(I, MR + ':prepare_magic_script', prep)
    contract(I, MR + ':run_magic', run)
    contract(I, 'klayout_pex.magic.magic_ext_file_parser:parse_magic_pex_run', parse)
    I.externals['pathlib.Path'] = Builtin('Path', lambda I, a, k: a[0])
    dbu = I.fresh('dbu', R)

    class Lay(Model):
        kind = 'Layout'
        path = None
        def m_read(self, I, p): self.path = p
        def getattr(self, I, n):
            if n == 'dbu':
                I.prove('the unit is that of the layout MAGIC ran on', self.path == a.d['effective_gds_path'] if is_sym(self.path) else z3.BoolVal(False))
                return dbu
            return super().getattr(I, n)
    I.externals['klayout.db.Layout'] = Builtin('Layout', lambda I, a, k: Lay())

    class Rdb(Model):
        kind = 'ReportDatabase'
        content = None
        def m_save(self, I, p): fs.put(p, self.content if self.content is not None else N('empty report'))
    I.externals['klayout.rdb.ReportDatabase'] = Builtin('ReportDatabase', lambda I, a, k: Rdb())

    def analyzer(I, v):
        v['self'].fields.update(r=v['report'], run=v['magic_pex_run'])
        I.prove('the report is in the unit of the layout', v['dbu'] == dbu if is_sym(v['dbu']) else z3.BoolVal(False))

    def analyze(I, v):
        v['self'].fields['r'].content = REPORT
    MA = 'klayout_pex.magic.magic_log_analyzer:MagicLogAnalyzer'
    contract(I, MA + '.__init__', analyzer)
    contract(I, MA + '.analyze', analyze)
    cli = I.instantiate(I.repo(MOD, 'KpexCLI'), [], {})
    I.assume(fs.f(N('output_dir'))['exists'])
    I.call(I.getattr(cli, 'run_magic_extraction'), [a])
    if not gds_mode:
        I.prove('without a layout MAGIC does not run', z3.BoolVal(not calls))
        return
    I.prove('script, MAGIC, its results', z3.BoolVal(calls == ['script', 'run', 'parse']))
    if not calls:
        return
    for k, o in dict(gds_path='effective_gds_path', pex_mode='magic_pex_mode', c_threshold='magic_cthresh', r_threshold='magic_rthresh', tolerance='magic_tolerance',
                     short_mode='magic_short_mode', merge_mode='magic_merge_mode', cell_name='effective_cell_name').items():
        I.prove(f'MAGIC script: {k} as given', script[k] == a.d[o] if is_sym(script[k]) else z3.BoolVal(False))
    I.prove('MAGIC script: halo as given', z3.BoolVal(script['halo'] is None) if halo is None else script['halo'] == halo if is_sym(script['halo']) else z3.BoolVal(False))
    fs.results([('log', RUN['MAGIC'](SCRIPT)), ('report', REPORT), ('netlist', N('netlist of MAGIC')), ('script', SCRIPT)], '<output_dir>')
    rd = key(script['run_dir_path'])
    for w in ('script_path', 'output_netlist_path', 'log'):
        I.prove(f'{w} in the directory of this MAGIC run', z3.BoolVal(key(script[w]).startswith(rd + '/')))
    I.prove('modes have different directories', z3.BoolVal('<magic_pex_mode>' in rd and rd.startswith('<output_dir>/')))


SCRIPT, REPORT = N('script of this run'), N('report of this run')


def builder(I):
    """ensures: the model is built from context and technology with the void permittivity and triangulation options given, written into the output directory, checked exactly if asked
    for; the result is the list file that was written"""
    fs = World(I)
    V = {n: I.fresh(n, R) for n in ('k_void', 'delaunay_amax', 'delaunay_b')}
    chk = I.fresh('geometry_check', B)
    ctx, tech = context(I, fs), Record('tech', {})
    a = Args(output_dir_path=N('output_dir'), geometry_check=chk, effective_cell_name=N('cell'), **V)
    I.assume(fs.f(N('output_dir'))['exists'])
    ev = []

    class Gen(Model):
        kind = 'FasterCapModelGenerator'
        def m_write_fastcap(self, I, output_dir_path, prefix):
            I.prove('the directory of the model is there', fs.f(output_dir_path)['exists'])
            ev.append(('write', key(output_dir_path)))
            return N('list file')
        def m_dump_stl(self, I, output_dir_path, prefix):
            I.prove('the directory of the geometries is there', fs.f(output_dir_path)['exists'])
            ev.append(('stl', key(output_dir_path)))
        def m_check(self, I): ev.append(('check',))

    def init(I, v):
        I.prove('context and technology as given', z3.BoolVal(v['pex_context'] is ctx and v['tech_info'] is tech))
        for n in V:
            I.prove(f'model: {n} as given', v[n] == V[n] if is_sym(v[n]) else z3.BoolVal(False))
        ev.append(('init',))
    BU = 'klayout_pex.fastercap.fastercap_input_builder:FasterCapInputBuilder'
    contract(I, BU + '.__init__', init)
    contract(I, BU + '.build', lambda I, v: (ev.append(('build',)), Gen())[1])
    cli = I.instantiate(I.repo(MOD, 'KpexCLI'), [], {})
    r = I.call(I.getattr(cli, 'build_fastercap_input'), [], dict(args=a, pex_context=ctx, tech_info=tech))
    I.prove('the result is the list file', r == N('list file') if is_sym(r) else z3.BoolVal(False))
    ks = [e[0] for e in ev]
    I.prove('one model is built and written once', z3.BoolVal([k for k in ks if k in ('init', 'build', 'write')] == ['init', 'build', 'write']))
    I.prove('the model is checked exactly if asked for', chk if 'check' in ks else z3.Not(chk))
    I.prove('files in the output directory', z3.BoolVal(all(e[1].startswith('<output_dir>/') for e in ev if len(e) > 1)))
    d = [e[1] for e in ev if len(e) > 1]
    I.prove('model and geometries in directories of their own', z3.BoolVal(len(set(d)) == len(d)))


# ------------------------------------------------------------------------------------------------ 2.5D engine
ER = 'klayout_pex.rcx25.extraction_results'
RESULTS = N('2.5D results')
EXPAND25 = fun('netlist expanded by 2.5D results', NAME, NAME, NAME, B, NAME)
ROUND3 = z3.Function('round3', R, R)


def engine25(I):
    """ensures: the extraction runs on context, technology, mode and scaling given and reports where it was told to; its summary is the CSV (a line per couple: capacitor in fF or
    resistor in ohm), its results are expanded into the LVS netlist at the context's top cell; a report that can't be loaded is repaired; the results are returned"""
    fs = World(I)
    ctx, tech = context(I, fs), Record('tech', {})
    mode, scale = N('pex_mode'), I.fresh('scale', B)
    a = Args(output_dir_path=N('output_dir'), pex_mode=mode, scale_ratio_to_fit_halo=scale, blackbox_devices=BLACK, effective_cell_name=N('cell'), delaunay_amax=I.fresh('amax', R),
             delaunay_b=I.fresh('delaunay_b', R))
    csv = N('csv') if I.branch(I.fresh('want_csv', B)) else None
    spice = N('spice') if I.branch(I.fresh('want_spice', B)) else None
    W = {}
    for w in ('capacitances', 'resistances'):
        n = I.fresh('n_' + w, Z)
        I.assume(n >= 0)
        W[w] = dict(n=n, n1=z3.Function(w + '_n1', Z, NAME), n2=z3.Function(w + '_n2', Z, NAME), v=z3.Function(w + '_v', Z, R), P=z3.Function('order_' + w, Z, Z))
    ev = []

    def init(I, v):
        ev.append('init')
        I.prove('2.5D: context, technology', z3.BoolVal(v['pex_context'] is ctx and v['tech_info'] is tech))
        I.prove('2.5D: mode', v['pex_mode'] == mode if is_sym(v['pex_mode']) else z3.BoolVal(False))
        I.prove('2.5D: scaling', v['scale_ratio_to_fit_halo'] == scale if is_sym(v['scale_ratio_to_fit_halo']) else z3.BoolVal(False))
        I.prove('2.5D: report', v['report_path'] == N('report') if is_sym(v['report_path']) else z3.BoolVal(False))

    class Res(Model):
        kind = 'ExtractionResults'
        def m_summarize(self, I):
            k = lambda w: lambda I, i: Obj(I.repo(ER, 'NetCoupleKey'), {'net1': W[w]['n1'](zint(i)), 'net2': W[w]['n2'](zint(i))})
            return Obj(I.repo(ER, 'ExtractionSummary'), {w: SymDict(('summary', w), K['n'], k(w), (lambda K: lambda I, i: K['v'](zint(i)))(K), unique=True) for w, K in W.items()})
    res = Res()

    def extract(I, v):
        ev.append('extract')
        fs.put(N('report'), REPORT)
        return res
    contract(I, 'klayout_pex.rcx25.extractor:RCX25Extractor.__init__', init)
    contract(I, 'klayout_pex.rcx25.extractor:RCX25Extractor.extract', extract)

    def expand(I, v):
        I.prove('2.5D netlist: the results of this run', z3.BoolVal(v['extraction_results'] is res))
        b = v['blackbox_devices']
        return NetlistM(fs, EXPAND25(v['extracted_netlist'].t, v['top_cell_name'], RESULTS, b if is_sym(b) else z3.BoolVal(bool(b))))
    contract(I, 'klayout_pex.rcx25.netlist_expander:RCX25NetlistExpander.expand', expand)

    def srt(I, it, key, reverse):
        w = [w for w in W if tag_has(it.tag, ('summary', w))]
        if not w or it.guard is not None or not same(it.n, W[w[0]]['n']):
            raise Undecided('sorted of something else')
        K = W[w[0]]

        def get(I, i):
            i = zint(i)
            I.assume(z3.Implies(z3.And(i >= 0, i < K['n']), z3.And(K['P'](i) >= 0, K['P'](i) < K['n'])))
            return it.elem(I, K['P'](i))
        return SymSeq(('sorted', it.tag), K['n'], get)
    I.ghost['sorted'] = srt
    I.ghost['round'] = lambda I, x, n: ROUND3(zreal(x)) if n == 3 else z3.Function(f'round_{n}', R, R)(zreal(x))
    tr = fs.tr
    broken = I.fresh('report_broken', B)

    class Rdb(Model):
        kind = 'ReportDatabase'
        def m_load(self, I, p):
            fs.need(p)
            if I.branch(broken):
                I.raise_('RuntimeError')
    I.externals['klayout.rdb.ReportDatabase'] = Builtin('ReportDatabase', lambda I, a, k: Rdb())
    repaired = []
    contract(I, 'klayout_pex.klayout.repair_rdb:repair_rdb', lambda I, v: repaired.append(list(v.values())[0]))

    def which(L):
        w = [w for w in W if tag_has(L.it.tag, ('summary', w))]
        return w[0] if w else None

    def check(I, L, k, ev):
        w = which(L)
        if w is None:
            I.prove('loops only print', z3.BoolVal(not ev))
            return
        K = W[w]
        t = text_of([e for e in ev if e[0] == 'w'])
        t = [x.v if isinstance(x, Fmt) and x.spec is None else x for x in t]
        lead, res_ = ('C', False) if w == 'capacitances' else ('R', True)
        shape = [lead, None, ';', None, ';', None, ';;' if res_ else ';', None, '\n' if res_ else ';\n']
        I.prove(f'{w}: five cells per line', z3.BoolVal(len(t) == 9 and all(s is None or s == x for s, x in zip(shape, t))))
        if len(t) != 9:
            return
        p = K['P'](zint(k)) if tag_has(L.it.tag, 'sorted') else zint(k)
        I.prove(f'{w}: nets of the couple', z3.And(t[3] == K['n1'](p), t[5] == K['n2'](p)) if is_sym(t[3]) and is_sym(t[5]) else z3.BoolVal(False))
        I.prove(f'{w}: value, three decimals', zreal(t[7]) == ROUND3(K['v'](p)) if is_num(t[7]) else z3.BoolVal(False))
        I.prove(f'{w}: numbered', zint(t[1]) == zint(k) + 1 if is_intlike(t[1]) else z3.BoolVal(False))
    I.auto_loop = lambda it: AutoTrace('loop', tr, check)

    def opened(I, p, mode='r', **kw):
        if mode == 'r':
            fs.need(p)
            same_encoding(I, 'the CSV', kw)
            return FileIn(I)
        if mode not in ('w', 'wt'):
            raise Undecided('mode')
        I.prove('the CSV is where it was asked for', p == csv if csv is not None and is_sym(p) else z3.BoolVal(False))
        I.prove('the CSV can hold every name', z3.BoolVal(str(kw.get('encoding', '')).lower().replace('-', '') == 'utf8'))
        fs.put(p, N('2.5D CSV'))
        return FileOut(tr, p, mode, kw)
    I.ghost['open'] = opened
    I.ghost['encodings'] = True
    cli = I.instantiate(I.repo(MOD, 'KpexCLI'), [], {})
    r = I.call(I.getattr(cli, 'run_kpex_2_5d_engine'), [], dict(args=a, pex_context=ctx, tech_info=tech, report_path=N('report'), netlist_csv_path=csv, expanded_netlist_path=spice))
    I.prove('one extraction', z3.BoolVal(ev == ['init', 'extract']))
    I.prove('the results are returned', z3.BoolVal(r is res))
    I.prove('a report that can not be loaded is repaired', z3.And(z3.BoolVal(len(repaired) == 1), broken, repaired[0] == N('report')) if repaired else z3.Not(broken))
    e = [x for x in tr.events if not (x[0] == 'loop' and which(x[2]) is None)]
    if csv is None:
        I.prove('no CSV unless asked for', z3.BoolVal(not e))
    else:
        I.prove('CSV: header, all capacitors, all resistors', z3.BoolVal([x[0] for x in e] == ['w', 'loop', 'loop'] and [which(x[2]) for x in e[1:]] == ['capacitances', 'resistances']))
        I.prove('CSV: header line', z3.BoolVal(text_of(e[:1]) == ['Device;Net1;Net2;Capacitance [fF];Resistance [Ω]\n']))
        for x in e:
            if x[0] == 'loop':
                I.prove('CSV: every couple', zint(x[2].it.n) == W[which(x[2])]['n'])
    if spice is not None:
        fs.is_('the 2.5D netlist is where it was asked for', spice, SPICE(EXPAND25(LVSNET, TOPNAME, RESULTS, BLACK)))
    fs.is_('the report is left', N('report'), REPORT)


# ------------------------------------------------------------------------------------------------ main
def main(I):
    """ensures: exactly the engines asked for run, MAGIC without LVS, the others on one context of the chosen cell, the LVS database of create_lvsdb and the technology with the
    given filter and halo; both field solvers get the same model; a layout without extracted layers is an error; the 2.5D results and paths are remembered"""
    fs = World(I)
    run = {n: I.fresh(n, B) for n in ('run_magic', 'run_fastcap', 'run_fastercap', 'run_2_5D')}
    halo = I.fresh('halo', R) if I.branch(I.fresh('has_halo', B)) else None
    filt = Record('filter', {})
    a = Args(output_dir_base_path=N('base'), output_dir_path=N('output_dir'), tech_pbjson_path=N('tech_json'), dielectric_filter=filt, halo=halo, effective_cell_name=N('cell'), blackbox_devices=BLACK, **run)
    given = dict(a.d)
    ev = []
    env = Record('env', {})
    default = I.fresh('technology halo', R)
    para = OutMsg('para', dict(side_halo=default))
    tech = Record('tech', dict(tech=Record('t', dict(process_parasitics=para))))
    db = Record('lvsdb', dict(internal_layout=Builtin('internal_layout', lambda I, x, k: Record('ly', dict(dbu=I.ghost['dbu'], write=Builtin('write', lambda I, x, k: fs.put(x[0], N('internal layout'))))))))
    I.ghost['dbu'] = I.fresh('dbu', R)
    contract(I, 'klayout_pex.env:Env.from_os_environ', lambda I, v: env)
    install_nested(I)

    def parse(I, v):
        I.prove('the arguments are those after the program name', z3.BoolVal(isinstance(v['arg_list'], ListVal) and v['arg_list'].items == ['--pdk', 'x'] and v['env'] is env))
        ev.append('parse')
        return a
    contract(I, MOD + ':KpexCLI.parse_args', parse)

    def logging(I, v):
        I.prove('the output directory is there', fs.f(N('base'))['exists'])
        ev.append('validate')
        fs.f(N('output_dir'))['exists'] = z3.BoolVal(True)
    contract(I, MOD + ':KpexCLI.setup_logging', logging)

    def load(I, v):
        I.prove('technology: the one of the PDK with the filter', z3.And(v['jsonpb_path'] == N('tech_json'), z3.BoolVal(v['dielectric_filter'] is filt)))
        ev.append('tech')
        return tech
    contract(I, 'klayout_pex.tech_info:TechInfo.from_json', load)

    def lvs(I, v):
        ev.append('lvs')
        return db
    contract(I, MOD + ':KpexCLI.create_lvsdb', lvs)
    n, nu = I.fresh('n_layers', Z), I.fresh('n_unnamed', Z)
    I.assume(n >= 0, nu >= 0)
    F = lambda s, *t: z3.Function(s, *t)

    def layer(tag, *ix):
        zs = [Z] * len(ix)
        return Record('layer', dict(gds_pair=(F(tag + '_layer', *zs, Z)(*ix), F(tag + '_datatype', *zs, Z)(*ix)), lvs_layer_name=F(tag + '_name', *zs, NAME)(*ix),
                                    region=Reg(F(tag + '_region', *zs, Reg.SORT)(*ix))), ident=None)

    def merged(I, i):
        i = zint(i)
        c = F('n_source', Z, Z)(i)
        I.assume(c >= 0)
        return Record('merged', dict(source_layers=SymSeq('source', c, lambda I, j: layer('source', i, zint(j))), gds_pair=(F('pair_l', Z, Z)(i), F('pair_d', Z, Z)(i))))
    lays = SymDict('layers', n, lambda I, i: F('pair', Z, NAME)(zint(i)), merged, unique=True)
    unnamed = SymSeq('unnamed', nu, lambda I, i: layer('unnamed', zint(i)))
    ctx = Record('context', dict(extracted_layers=lays, unnamed_layers=unnamed, lvsdb=db, annotated_layout=Record('ann', dict(write=Builtin('write', lambda I, x, k: fs.put(x[0], N('annotated layout')))))))

    def prepare(I, v):
        I.prove('context: cell', v['top_cell'] == N('cell') if is_sym(v['top_cell']) else z3.BoolVal(False))
        I.prove('context: database and technology', z3.BoolVal(v['lvsdb'] is db and v['tech'] is tech))
        I.prove('context: blackbox option', v['blackbox_devices'] == BLACK if is_sym(v['blackbox_devices']) else z3.BoolVal(False))
        ev.append('context')
        return ctx
    contract(I, 'klayout_pex.klayout.lvsdb_extractor:KLayoutExtractionContext.prepare_extraction', prepare)

    def halo_set(what):
        I.prove(f'{what}: the halo is the given one, else that of the technology', para.f['side_halo'] == (default if halo is None else halo))

    def magic_(I, v):
        ev.append('magic')
        I.prove('MAGIC gets the options', z3.BoolVal(v['args'] is a))
    contract(I, MOD + ':KpexCLI.run_magic_extraction', magic_)

    def build(I, v):
        ev.append('model')
        I.prove('model: options, context, technology', z3.BoolVal(v['args'] is a and v['pex_context'] is ctx and v['tech_info'] is tech))
        return N('list file')
    contract(I, MOD + ':KpexCLI.build_fastercap_input', build)
    for q in ('fastercap', 'fastcap'):
        def f(I, v, q=q):
            ev.append(q)
            I.prove(f'{q}: options, context, list file', z3.And(z3.BoolVal(v['args'] is a and v['pex_context'] is ctx), v['lst_file'] == N('list file')) if is_sym(v['lst_file']) else z3.BoolVal(False))
        contract(I, f'{MOD}:KpexCLI.run_{q}_extraction', f)
    res = Record('results', {})
    paths = {}

    def e25(I, v):
        ev.append('2.5D')
        halo_set('2.5D')
        I.prove('2.5D: options, context, technology', z3.BoolVal(v['args'] is a and v['pex_context'] is ctx and v['tech_info'] is tech))
        for p in ('report_path', 'netlist_csv_path', 'expanded_netlist_path'):
            I.prove(f'2.5D: {p} in the output directory', z3.BoolVal(v[p] is not None and key(v[p]).startswith('<output_dir>/')))
        I.prove('2.5D: files of their own', z3.BoolVal(len({key(v[p]) for p in ('report_path', 'netlist_csv_path', 'expanded_netlist_path') if v[p] is not None}) == 3))
        paths.update(v)
        return res
    contract(I, MOD + ':KpexCLI.run_kpex_2_5d_engine', e25)

    class H(Model):
        kind = 'layer handle'
        def __init__(self, li):
            super().__init__()
            self.li = li

    class Li(Model):
        kind = 'LayerInfo'
        def __init__(self, *a):
            super().__init__()
            self.a, self.name = a, (a[2] if len(a) > 2 else None)
        def setattr(self, I, n, v):
            if n != 'name':
                raise Undecided('layer info')
            self.name = v
    I.externals['klayout.db.LayerInfo'] = Builtin('LayerInfo', lambda I, x, k: Li(*x))

    class Dump(Model):
        kind = 'Layout'
        def __init__(self):
            super().__init__()
            self.dbu = None
        def setattr(self, I, n, v):
            if n != 'dbu':
                raise Undecided(n)
            self.dbu = v
        def m_create_cell(self, I, nm):
            fs.tr.emit(I, 'cell', nm)
            return Record('cell', dict(cell_index=Builtin('cell_index', lambda I, a, k: 0), name=nm))
        def m_insert_layer(self, I, li): return H(li)
        def m_insert(self, I, c, h, r):
            fs.tr.emit(I, 'insert', h.li, r)
        def m_write(self, I, p):
            I.prove('dumps are in the unit of the database', self.dbu == I.ghost['dbu'] if is_sym(self.dbu) else z3.BoolVal(False))
            fs.put(p, N('dump'))
    I.externals['klayout.db.Layout'] = Builtin('Layout', lambda I, x, k: Dump())

    def check(I, L, k, ev):
        if not ev:
            if tag_has(L.it.tag, 'unnamed') or tag_has(L.it.tag, 'flat'):
                I.prove('dumps have every layer', z3.BoolVal(False))
            return
        l = L.it.elem(I, k)
        if [e[0] for e in ev] != ['insert'] or not isinstance(l, Record) or not isinstance(ev[0][2], Reg):
            raise Undecided('dump')
        li, r = ev[0][1:]
        I.prove('dumps: each layer by its pair and name with its shapes', z3.And(li.a[0] == l.fields['gds_pair'][0], li.a[1] == l.fields['gds_pair'][1], li.name == l.fields['lvs_layer_name'], r.v == l.fields['region'].v))
    I.auto_loop = lambda it: AutoTrace('loop', fs.tr, check)
    I.externals['sys.exit'] = Builtin('exit', lambda I, x, k: I.raise_('SystemExit'))
    I.externals['sys.argv'] = ListVal(['kpex', '--pdk', 'x'])
    cli = I.instantiate(I.repo(MOD, 'KpexCLI'), [], {})
    try:
        I.call(I.getattr(cli, 'main'), [ListVal(['kpex', '--pdk', 'x'])])
        err = None
    except PyRaise as e:
        err = e.exc
    I.prove('arguments, then validation, then the technology', z3.BoolVal(ev[:3] == ['parse', 'validate', 'tech']))
    solvers = z3.Or(run['run_fastcap'], run['run_fastercap'])
    any_ = z3.Or(solvers, run['run_2_5D'])
    once = {k: len([e for e in ev if e == k]) for k in ('magic', 'lvs', 'context', 'model', 'fastercap', 'fastcap', '2.5D')}
    good = z3.And(any_, n >= 1)
    I.prove('nothing runs twice', z3.BoolVal(max(once.values()) <= 1))
    for k, c in (('magic', run['run_magic']), ('lvs', any_), ('context', any_), ('model', z3.And(good, solvers)), ('fastercap', z3.And(good, run['run_fastercap'])),
                 ('fastcap', z3.And(good, run['run_fastcap'])), ('2.5D', z3.And(good, run['run_2_5D']))):
        I.prove(f'{k} runs exactly if it has to', c if once[k] else z3.Not(c))
    I.prove('a layout without extracted layers is an error, nothing else is', z3.And(any_, n == 0) if err is not None else z3.Or(z3.Not(any_), n >= 1))
    if err is not None:
        return
    for k in given:
        if a.d[k] is not given[k]:
            raise Undecided(f'{k} is changed')
    if once['2.5D']:
        I.prove('the 2.5D results are remembered', z3.BoolVal(I.getattr(cli, 'rcx25_extraction_results') is res))
        I.prove('the path of the 2.5D CSV is remembered', z3.BoolVal(key(I.getattr(cli, 'rcx25_extracted_csv_path')) == key(paths['netlist_csv_path'])))


# ---------------------------------------------------------------- the command line
# option: (flags, name of the value, kind, default); kinds are those of the help text
OPTIONS = [
    ('--log_level', 'log_level', 'text', 'subprocess'), ('--threads', 'num_threads', 'int', 'cpus'), ('--pdk', 'pdk', 'klayout_pex.kpex_cli:PDK', 'required'),
    ('--out_dir -o', 'output_dir_base_path', 'text', 'output'), ('--gds -g', 'gds_path', 'text', None), ('--schematic -s', 'schematic_path', 'text', None),
    ('--lvsdb -l', 'lvsdb_path', 'text', None), ('--cell -c', 'cell_name', 'text', None), ('--cache-lvs', 'cache_lvs', 'bool', True), ('--cache-dir', 'cache_dir_path', 'text', None),
    ('--lvs-verbose', 'klayout_lvs_verbose', 'bool', False), ('--blackbox', 'blackbox_devices', 'bool', False),
    ('--fastercap', 'run_fastercap', 'flag', False), ('--fastcap', 'run_fastcap', 'flag', False), ('--magic', 'run_magic', 'flag', False), ('--2.5D', 'run_2_5D', 'flag', False),
    ('--k_void -k', 'k_void', 'float', 3.9), ('--delaunay_amax -a', 'delaunay_amax', 'float', 50), ('--delaunay_b -b', 'delaunay_b', 'float', 0.5), ('--geo_check', 'geometry_check', 'bool', False),
    ('--diel', 'dielectric_filter', 'text', 'all'), ('--tolerance', 'fastercap_tolerance', 'float', 0.05), ('--d_coeff', 'fastercap_d_coeff', 'float', 0.5),
    ('--mesh', 'fastercap_mesh_refinement_value', 'float', 0.5), ('--ooc', 'fastercap_ooc_condition', 'float', 2), ('--auto_precond', 'fastercap_auto_preconditioner', 'bool', True),
    ('--galerkin', 'fastercap_galerkin_scheme', 'flag', False), ('--jacobi', 'fastercap_jacobi_preconditioner', 'flag', False), ('--magicrc', 'magicrc_path', 'text', 'magicrc'),
    ('--magic_mode', 'magic_pex_mode', 'klayout_pex.magic.magic_runner:MagicPEXMode', 'CC'), ('--magic_cthresh', 'magic_cthresh', 'float', 0.01), ('--magic_rthresh', 'magic_rthresh', 'int', 100),
    ('--magic_tolerance', 'magic_tolerance', 'float', 1), ('--magic_halo', 'magic_halo', 'float', None), ('--magic_short', 'magic_short_mode', 'klayout_pex.magic.magic_runner:MagicShortMode', 'none'),
    ('--magic_merge', 'magic_merge_mode', 'klayout_pex.magic.magic_runner:MagicMergeMode', 'none'), ('--mode', 'pex_mode', 'klayout_pex.rcx25.pex_mode:PEXMode', 'CC'),
    ('--halo', 'halo', 'float', None), ('--scale', 'scale_ratio_to_fit_halo', 'bool', True)]
EXES = dict(fastcap_exe_path=('KPEX_FASTCAP_EXE', 'fastcap'), fastercap_exe_path=('KPEX_FASTERCAP_EXE', 'FasterCap'), klayout_exe_path=('KPEX_KLAYOUT_EXE', 'klayout'), magic_exe_path=('KPEX_MAGIC_EXE', 'magic'))


class Environ(Model):
    """os.environ: each variable set or not, to any text"""
    kind = 'environ'
    def __init__(self, I):
        super().__init__()
        self.I, self.seen = I, {}
    def has(self, n):
        if not isinstance(n, (str, EnumMember)):
            raise Undecided('environment variable')
        n = n if isinstance(n, str) else n.value
        if n not in self.seen:
            self.seen[n] = self.I.branch(z3.Const(f'${n} set', B))
        return self.seen[n]
    def val(self, n): return N(f'${n if isinstance(n, str) else n.value}')
    def m_get(self, I, n, default=None): return self.val(n) if self.has(n) else default
    def getitem(self, I, n):
        if not self.has(n):
            I.raise_('KeyError', n)
        return self.val(n)
    def contains(self, I, n): return self.has(n)


class Parser(Model):
    """argparse.ArgumentParser and its groups"""
    kind = 'ArgumentParser'
    def __init__(self, opts, done):
        super().__init__()
        self.opts, self.done = opts, done
    def m_add_argument_group(self, I, *a, **k): return Parser(self.opts, self.done)
    def m_add_argument(self, I, *flags, **k):
        self.opts.append((flags, k))
        return Record('action', {})
    def m_set_defaults(self, I, **k): raise Undecided('set_defaults')
    def m_parse_args(self, I, lst=None): return self.done(self.opts, lst)


def dest_of(flags, k):
    if 'dest' in k:
        return k['dest']
    long = [f for f in flags if f.startswith('--')]
    return (long or list(flags))[0].lstrip('-').replace('-', '_')


def parse(I):
    """KpexCLI.parse_args: every option of the help text has its value converted as documented and
    its documented default, in the field the engines read; executables are those of the environment; magicrc defaults to the one of the PDK"""
    names(I)
    env = Environ(I)
    I.externals['os.environ'] = env
    I.externals['os.getenv'] = Builtin('getenv', lambda I, a, k: env.m_get(I, *a, **k))
    cpus = z3.Int('cpus')
    I.externals['os.cpu_count'] = Builtin('cpu_count', lambda I, a, k: cpus)
    I.externals['os.path.abspath'] = Builtin('abspath', lambda I, a, k: a[0])
    install_join(I)
    I.ghost['open'] = lambda *a, **k: Undecided('open')
    for n in ('rich.text.Text', 'rich.markdown.Markdown', 'rich.console.Group'):
        I.externals[n] = Builtin(n, lambda I, a, k: Record('rich text', {}))
    contract(I, 'klayout_pex.util.argparse_helpers:render_enum_help', lambda I, v: 'help')
    contract(I, 'klayout_pex.env:EnvVar.help_epilog_table', lambda I, v: 'help')
    tf = I.repo('klayout_pex.util.argparse_helpers', 'true_or_false')
    classes = {kind: I.repo(*kind.split(':')) for _, _, kind, _ in OPTIONS if ':' in kind}
    given = ListVal(['a'])
    out = {}

    def done(opts, lst):
        I.prove('the arguments given are parsed', z3.BoolVal(lst is given))
        by = {}
        for flags, k in opts:
            for f in flags:
                I.prove(f'{f} is one option', z3.BoolVal(f not in by))
                by[f] = (flags, k)
        table = []
        for fl, dest, kind, default in OPTIONS:
            fl = fl.split()
            I.prove(f'{fl[0]} exists', z3.BoolVal(all(f in by for f in fl) and len({id(by[f][1]) for f in fl}) == 1))
            flags, k = by[fl[0]]
            I.prove(f'{fl[0]} is the field {dest}', z3.BoolVal(dest_of(flags, k) == dest))
            if k.get('nargs') is not None or k.get('const') is not None:
                raise Undecided('nargs')
            t, act, d = k.get('type'), k.get('action', 'store'), k.get('default')
            if kind == 'flag':
                I.prove(f'{fl[0]} is off unless given', z3.BoolVal(act == 'store_true' and (d is False or d is None)))
            elif act != 'store':
                I.prove(f'{fl[0]} has a value', z3.BoolVal(act not in ('store_true', 'store_false', 'store_const', 'append', 'count')))
                raise Undecided('action')
            elif kind in ('int', 'float'):
                I.prove(f'{fl[0]} is a number', z3.BoolVal(isinstance(t, Builtin) and t.name == kind))
            elif kind == 'text':
                I.prove(f'{fl[0]} is a text', z3.BoolVal(t is None or isinstance(t, Builtin) and t.name == 'str'))
            elif kind == 'bool':
                if t is not tf and isinstance(t, FunctionVal):
                    raise Undecided('another conversion')
                I.prove(f'{fl[0]} is yes or no', z3.BoolVal(t is tf))
            else:
                I.prove(f'{fl[0]} is one of its words', z3.BoolVal(t is classes[kind]))
                c = k.get('choices')
                if c is not None:
                    I.prove(f'{fl[0]} allows every word', z3.BoolVal({x.value for x in I.iterate(c)} == {x.value for x in I.iterate(classes[kind])}))
            if kind == 'flag':
                pass
            elif default == 'required':
                I.prove(f'{fl[0]} is required', z3.BoolVal(k.get('required') is True))
            else:
                I.prove(f'{fl[0]} is optional', z3.BoolVal(k.get('required', False) is False))
                if default == 'cpus':
                    ok = is_sym(d) and d == 4 * cpus
                elif default == 'magicrc':
                    ok = z3.BoolVal(key(d) == f'<$PDKPATH>/libs.tech/magic/<$PDK>.magicrc'.replace('<$PDKPATH>', key(env.val('PDKPATH'))).replace('<$PDK>', key(env.val('PDK')))) \
                        if env.has('PDKPATH') and env.has('PDK') else z3.BoolVal(d is None)
                elif ':' in kind:
                    ok = z3.BoolVal(d is not None and (d.value if isinstance(d, EnumMember) else d) == default)
                elif kind == 'float' and default is not None:
                    ok = zreal(d) == zreal(Fraction(repr(default))) if not isinstance(d, str) else z3.BoolVal(float(d) == default)
                else:
                    ok = z3.BoolVal(type(d) is type(default) and d == default)
                I.prove(f'{fl[0]} has its documented default', ok if not isinstance(ok, bool) else z3.BoolVal(ok))
        for flags, k in opts:
            if k.get('required') and '--pdk' not in flags:
                I.prove('only --pdk is required', z3.BoolVal(False))
        for dest in {dest_of(*o) for o in opts}:
            out[dest] = N(f'value of {dest}')
        return Args(**out)
    I.externals['argparse.ArgumentParser'] = Builtin('ArgumentParser', lambda I, a, k: Parser([], done))
    E = I.repo('klayout_pex.env', 'Env')
    e = I.call(I.getattr(E, 'from_os_environ'), [])
    args = I.call(I.getattr(I.repo(MOD, 'KpexCLI'), 'parse_args'), [given, e])
    if not isinstance(args, Args):
        raise Undecided('namespace')
    for _, dest, _, _ in OPTIONS:
        I.prove(f'{dest} stays what was given', z3.BoolVal(args.d[dest] is out[dest]))
    for dest, (var, default) in EXES.items():
        I.prove(f'{dest} is that of the environment, else its default', args.d[dest] == env.val(var) if is_sym(args.d[dest]) and env.has(var) else z3.BoolVal(not env.has(var) and args.d[dest] == default))


def yes_no(I):
    """true_or_false: yes/true/t/y/1 and no/false/f/n/0 in any case, anything else is rejected; a bool stays what it is"""
    S = z3.StringSort()
    LOWER = z3.Function('lower', S, S)
    I.ghost[('attr', 'String')] = lambda I, o, n: Builtin(n, lambda I, a, k: LOWER(o)) if n in ('lower', 'casefold') else (_ for _ in ()).throw(Undecided(f'text {n}'))

    def meth(I, o, n, a, k):
        x = flat(o)
        if n in ('lower', 'casefold') and len(x) == 1 and is_sym(x[0]):
            return LOWER(x[0])
        raise Undecided(f'text {n}')
    I.ghost['strmethod'] = meth
    f = I.repo('klayout_pex.util.argparse_helpers', 'true_or_false')
    if I.branch(z3.Const('is bool', B)):
        b = z3.Const('given bool', B)
        r = I.call(f, [b])
        I.prove('a bool stays what it is', r == b if is_sym(r) else b == z3.BoolVal(bool(r)))
        return
    t = z3.Const('text', S)
    l = LOWER(t)
    isin = lambda ws: z3.Or(*[l == z3.StringVal(w) for w in ws])
    yes, no = isin(('yes', 'true', 't', 'y', '1')), isin(('no', 'false', 'f', 'n', '0'))
    try:
        r = I.call(f, [t])
    except PyRaise:
        I.prove('only other words are rejected', z3.Not(z3.Or(yes, no)))
        return
    I.prove('the answer is that of the word', z3.And(z3.Or(yes, no), yes == (r if is_sym(r) else z3.BoolVal(bool(r)))))


HARNESSES = [('FasterCap', named('FasterCap')), ('FastCap2', named('FastCap')), ('MAGIC', magic), ('model', builder), ('2.5D', engine25), ('main', main), ('options', parse), ('yes or no', yes_no)]
