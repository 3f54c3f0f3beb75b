from .cli import *

ASSUMPTIONS = ['os, shutil, argparse.Namespace and datetime as documented; different path texts are different files', 'kdb.LayoutVsSchematic.read reads the file or raises',
               'LVSRunner as C28 proves it: it writes the database or not', 'kdb.Layout: cells, top cells and their names, write writes the cell with what is below it',
               'MultipleChoicePattern as C21 proves it']
NEW = z3.Const('database of this run', NAME)


class Db(Model):
    kind = 'LayoutVsSchematic'
    def __init__(self, fs):
        super().__init__()
        self.fs, self.content = fs, None
    def m_read(self, I, p):
        self.content = self.fs.need(p)['content']


def lvsdb(I):
    """ensures: the database is the given one, or the cached one of exactly this layout file, cell and PDK if that is newer than the layout and caching is on, or the one
    this run of LVS wrote; a failed run is an error and never gets into the cache"""
    fs = Files(I)
    fs.install(I)
    names(I)
    gds_mode = I.branch(I.fresh('gds_mode', B))
    mode = I.getattr(I.repo(MOD, 'InputMode'), 'GDS' if gds_mode else 'LVSDB')
    cache = I.fresh('cache_lvs', B)
    a = Args(input_mode=mode, lvsdb_path=N('lvsdb_path'), output_dir_path=N('output_dir'), cache_dir_path=N('cache_dir'), pdk=N('pdk'), gds_path=N('gds_path'), cache_lvs=cache,
             effective_cell_name=N('cell'), klayout_exe_path=N('klayout_exe'), lvs_script_path=N('lvs_script'), effective_gds_path=N('effective_gds'),
             effective_schematic_path=N('schematic'), klayout_lvs_verbose=I.fresh('verbose', B))
    given = dict(a.d)
    I.assume(fs.f(N('gds_path'))['exists'])
    I.externals['klayout.db.LayoutVsSchematic'] = Builtin('LayoutVsSchematic', lambda I, x, k: Db(fs))
    runs = []
    wrote = I.fresh('lvs_writes', B)

    def lvs(I, args, kw):
        kw = dict(kw)
        for n, v in zip(['exe_path', 'lvs_script', 'gds_path', 'schematic_path', 'log_path', 'lvsdb_path', 'verbose'], args):
            kw[n] = v
        I.prove('the directory of the database is there', fs.f(N('output_dir'))['exists'])
        runs.append(kw)
        if I.branch(wrote):
            fs.put(kw['lvsdb_path'], NEW)
    I.contracts['klayout_pex.klayout.lvs_runner:LVSRunner.run_klayout_lvs'] = lvs
    I.assume(fs.f(N('output_dir'))['exists'])
    cli = I.instantiate(I.repo(MOD, 'KpexCLI'), [], {})
    before = {}
    try:
        r = I.call(I.getattr(cli, 'create_lvsdb'), [a])
        err = None
    except PyRaise as e:
        r, err = None, e.exc
    if r is not None and not isinstance(r, Db):
        raise Undecided('result')
    if not gds_mode:
        f = fs.f(N('lvsdb_path'))
        I.prove('a given database is read', f['first']['exists'] if err is None else z3.Not(f['first']['exists']))
        if err is None:
            I.prove('the database is the given one', z3.BoolVal(r.content is not None) if r.content is None else r.content == f['first']['content'])
        I.prove('no LVS run for a given database', z3.BoolVal(not runs))
        return
    I.prove('LVS is run at most once', z3.BoolVal(len(runs) <= 1))
    # where the cache is: the file other than the layout whose age matters, or that is written although LVS does not write it
    outs = {key(k['lvsdb_path']) for k in runs}
    cands = [k for k, f in fs.st.items() if k not in outs and '<cache_dir>' in k and (f['content'] is not f['first']['content'] or k.endswith('.gz'))]
    for k in runs:
        for n, w in (('exe_path', 'klayout_exe_path'), ('lvs_script', 'lvs_script_path'), ('gds_path', 'effective_gds_path'), ('schematic_path', 'effective_schematic_path'),
                     ('verbose', 'klayout_lvs_verbose')):
            I.prove(f'LVS: {n} as given', k[n] == given[w] if is_sym(k.get(n)) else z3.BoolVal(False))
        for n in ('log_path', 'lvsdb_path'):
            I.prove(f'LVS: {n} in the output directory', z3.BoolVal(key(k[n]).startswith('<output_dir>/')))
    use = z3.And(cache, *[z3.And(fs.st[c]['first']['exists'], fs.st[c]['first']['mtime'] > fs.f(N('gds_path'))['first']['mtime']) for c in cands]) if cands else z3.BoolVal(False)
    if len(cands) > 1:
        raise Undecided(f'cache {cands}')
    if not cands:
        I.prove('caching is off', z3.Not(cache))
    for c in cands:
        p = [q for q in flat(fs.st[c]['path'])]
        I.prove('the cache is in the cache directory', z3.BoolVal(is_sym(p[0]) and z3.eq(p[0], N('cache_dir'))))
        ks = [key(q) for q in p]
        for what, w in (('PDK', '<pdk>'), ('cell', '<cell>')):
            I.prove(f'the cache entry is that of the {what}', z3.BoolVal(w in ks))
        I.prove('the cache entry is that of the layout file, wherever it is seen from', z3.BoolVal('<without root(<os.path.abspath(<gds_path>)>)>' in ks or '<os.path.abspath(<gds_path>)>' in ks))
        i = ks.index('<pdk>') if '<pdk>' in ks else 0
        I.prove('PDK, layout and cell are told apart', z3.BoolVal(0 < i < len(ks) - 1 and ks[i - 1].endswith('/') and ks[i + 1].startswith('/')))
    ran = bool(runs)
    I.prove('LVS is run unless the cache has a database newer than the layout', z3.Not(use) if ran else use)
    if err is None:
        if r.content is None:
            I.prove('a database is read', z3.BoolVal(False))
            return
        I.prove('the database is the one LVS wrote in this run or, if it was not run, the cached one', r.content == (NEW if ran else fs.st[cands[0]]['first']['content']) if ran or cands else z3.BoolVal(False))
        I.prove('a failed LVS run gives no database', wrote if ran else z3.BoolVal(True))
    else:
        I.prove('an error only if LVS wrote no database', z3.Not(wrote) if ran else z3.BoolVal(False))
    for c in cands:
        now, then = fs.st[c], fs.st[c]['first']
        if not is_sym(now['content']):
            I.prove('the cache holds a database', z3.BoolVal(False))
            continue
        good = z3.And(cache, z3.BoolVal(ran), wrote)
        I.prove('what LVS wrote is cached if caching is on', z3.Implies(good, now['content'] == NEW))
        I.prove('nothing else is cached', z3.Implies(z3.Not(good), z3.And(now['content'] == then['content'], now['exists'] == then['exists'])))
    for k, f in fs.st.items():
        if k not in cands and k not in outs and '_dir>' not in k:
            I.prove('no other file is changed', z3.And(f['exists'] == f['first']['exists'], z3.BoolVal(f['content'] is f['first']['content'])))


# ---------------------------------------------------------------------------------------------- validate_args
CI = z3.DeclareSort('CellIndex')
CNAME = z3.Function('cell_name', CI, NAME)
CELL = z3.Function('cell_of', Z, CI)          # cells of the layout
TOP = z3.Function('top_cell', Z, CI)
EXISTS = z3.Function('has_cell', NAME, B)
BYNAME = z3.Function('cell_by_name', NAME, CI)
IDX = z3.Function('cell_position', CI, Z)
FOUND = z3.Function('in_PATH', NAME, B)
WHICH = z3.Function('which', NAME, NAME)
DBTOP = z3.Function('top_cell_name_of_database', NAME, NAME)


class CellM(Model):
    kind = 'Cell'

    def __init__(self, fs, c):
        super().__init__()
        self.fs, self.c = fs, c

    def getattr(self, I, n):
        if n == 'name':
            return CNAME(self.c)
        if n == 'write':
            return Builtin('write', lambda I, a, k: self.write(I, a[0]))
        raise Undecided(f'cell {n}')

    def write(self, I, p):
        self.fs.written = getattr(self.fs, 'written', []) + [(key(p), self.c)]
        self.fs.put(p, z3.Function('cell as a layout', CI, NAME)(self.c))

    def truth(self, I): return True
    def eq(self, I, o): return self.c == o.c if isinstance(o, CellM) else False


class LayoutM(Model):
    kind = 'Layout'

    def __init__(self, I, fs):
        super().__init__()
        self.fs, self.n, self.nt = fs, z3.Const('cells', Z), z3.Const('top_cells', Z)
        self.path = None
        I.assume(self.n >= 0, self.nt >= 0)

    def m_read(self, I, p):
        self.fs.need(p)
        self.path = key(p)

    def cell(self, I, i):
        c = CELL(i)
        I.assume(IDX(c) == i, EXISTS(CNAME(c)), BYNAME(CNAME(c)) == c)
        return CellM(self.fs, c)

    def top(self, I, i):
        c = TOP(i)
        I.assume(EXISTS(CNAME(c)), BYNAME(CNAME(c)) == c, IDX(c) >= 0, IDX(c) < self.n, CELL(IDX(c)) == c)
        return CellM(self.fs, c)

    def known(self, I, x): I.assume(z3.Implies(EXISTS(x), z3.And(CNAME(BYNAME(x)) == x, IDX(BYNAME(x)) >= 0, IDX(BYNAME(x)) < self.n, CELL(IDX(BYNAME(x))) == BYNAME(x))))

    def m_cells(self, I, pat='*'):
        if is_sym(pat):
            raise Undecided('cells by a pattern')
        if pat != '*':
            raise Undecided('cells by a pattern')
        return SymSeq('cells', self.n, self.cell)

    def m_each_cell(self, I): return SymSeq('cells', self.n, self.cell)
    def m_top_cells(self, I): return SymSeq('top cells', self.nt, self.top)

    def m_has_cell(self, I, x): return EXISTS(x)

    def m_cell(self, I, x):
        if not (is_sym(x) and x.sort() == NAME):
            raise Undecided('cell by index')
        return CellM(self.fs, BYNAME(x)) if I.branch(EXISTS(x)) else None

    def m_top_cell(self, I):
        if I.branch(self.nt == 1):
            return self.top(I, z3.IntVal(0))
        if I.branch(self.nt == 0):
            return None
        I.raise_('RuntimeError')


class Search(Spec):
    """the first cell of the wanted name: nothing before it has the name"""
    def __init__(self, x):
        super().__init__('search', lambda I, it: isinstance(it, IterSpec) and base_tag(it.tag) == 'cells')
        self.x = x

    def pre(self, I, L):
        L.ghost['was'] = {n: L.env.lookup(n) for n in L.carried()}

    def havoc(self, I, L, k):
        for n, v in L.ghost['was'].items():
            set_local(L, n, v)

    def inv(self, I, L, k):
        return [('no cell before has the name', z3.Implies(z3.And(EXISTS(self.x), IDX(BYNAME(self.x)) < k), z3.BoolVal(False))),
                ('nothing is found before', z3.BoolVal(all(L.env.lookup(n) is v for n, v in L.ghost.get('was', {}).items())))]

    def on_break(self, I, L, k): pass


def validate(I, what):
    """ensures: exactly the arguments that name an existing program, technology, LVS script, at least one engine with an input it can read, an existing cell (or a layout with one
    top cell), an existing schematic, a log level and a dielectric filter are accepted; then cell, layout file, output directory, schematic and cache directory are those of this
    input: the layout file is the given one only if the cell is its only top cell, otherwise the exported cell"""
    fs = Files(I)
    fs.install(I)
    names(I)
    install_join(I)
    I.ghost[('attr', 'Name')] = name_attr
    for n in ('rich.print', 'rich.markdown.Markdown'):
        I.externals[n] = Builtin(n, lambda I, a, k: None)
    I.contracts['klayout_pex.util.argparse_helpers:render_enum_help'] = lambda I, a, k: ''
    def which(I, a, k):
        if not I.branch(FOUND(a[0])):
            return None
        I.assume(NONEMPTY(WHICH(a[0])))
        return WHICH(a[0])
    I.externals['shutil.which'] = Builtin('which', which)
    some = lambda n: I.branch(z3.Const(f'given {n}', B))
    opt = lambda n: N(n) if some(n) else None
    rest, inp = what != 'input', what != 'environment'
    sc = I.fresh
    if rest and not inp:
        gds, db, cell, sch = (opt('gds_path'), opt('lvsdb_path'), None, None)
    else:
        gds, db = {'gds, cell': (N('gds_path'), None), 'gds': (N('gds_path'), None), 'lvsdb': (None, N('lvsdb_path'))}[I.ghost['case']]
        cell = N('cell_name') if I.ghost['case'] == 'gds, cell' else opt('cell_name') if gds is None else (None if not some('empty cell_name') else '')
        sch = opt('schematic_path')
    run = {n: I.fresh(n, B) if not inp else (n == 'run_2_5D') for n in ('run_magic', 'run_fastcap', 'run_fastercap', 'run_2_5D')}
    tech, script = N('tech_json'), N('lvs_script')
    bad_level, bad_diel = (I.branch(I.fresh(n, B)) for n in ('bad_level', 'bad_diel')) if not inp else (False, False)
    a = Args(pdk=Record('pdk', dict(config=Record('config', dict(tech_pb_json_path=tech, pex_lvs_script_path=script, name=N('pdk'))))), klayout_exe_path=N('klayout_exe'),
             gds_path=gds, lvsdb_path=db, cell_name=cell, schematic_path=sch, output_dir_base_path=N('base'), cache_dir_path=opt('cache_dir') if inp else None,
             log_level='bogus' if bad_level else I.ghost.get('level', ('info', 'INFO'))[0], dielectric_filter=N('diel'), **run)
    for x in (gds, db, sch, cell, N('klayout_exe')):
        if is_sym(x):
            I.assume(NONEMPTY(x))
    lay = LayoutM(I, fs)
    made = []
    I.externals['klayout.db.Layout'] = Builtin('Layout', lambda I, x, k: (made.append(1), lay)[1])

    class DbTop(Db):
        def m_internal_top_cell(self, I): return Record('cell', dict(name=DBTOP(self.path)))
        def m_read(self, I, p):
            super().m_read(I, p)
            self.path = p
    I.externals['klayout.db.LayoutVsSchematic'] = Builtin('LayoutVsSchematic', lambda I, x, k: DbTop(fs))
    if is_sym(cell):
        lay.known(I, cell)
        I.loop_specs = [Search(cell)]
    pats = []

    def pattern(I, args, kw):
        p = (args[1:] or [kw.get('pattern')])[0]
        pats.append(p)
        if bad_diel:
            I.raise_('ValueError')
    I.contracts['klayout_pex.util.multiple_choice:MultipleChoicePattern.__init__'] = pattern
    ok_env = [z3.Or(fs.f(N('klayout_exe'))['isfile'], FOUND(N('klayout_exe'))), fs.f(tech)['isfile'], fs.f(script)['isfile']]
    if inp:
        I.assume(z3.Or(z3.And(*ok_env), z3.Not(z3.Or(*ok_env))))
    elif gds is not None:
        I.assume(fs.f(gds)['isfile'], lay.nt == 1)
    elif db is not None:
        I.assume(fs.f(db)['isfile'])
    zb = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    ok = list(ok_env) + [z3.Or(*[zb(v) for v in run.values()]), z3.BoolVal(not bad_level and not bad_diel)]
    if gds is None:
        ok += [z3.Not(zb(run['run_magic'])), fs.f(db)['isfile'] if db is not None else z3.BoolVal(False)]
    else:
        ok += [fs.f(gds)['isfile'], EXISTS(cell) if is_sym(cell) else lay.nt == 1]
        if sch is not None:
            ok += [fs.f(sch)['isfile']]
    ok = z3.And(*ok)
    cls = I.repo(MOD, 'KpexCLI')
    try:
        I.call(I.getattr(cls, 'validate_args'), [a])
        err = None
    except PyRaise as e:
        err = e.exc
    if err is not None:
        I.prove('usable arguments are accepted', z3.Not(ok))
        I.prove('what is wrong is reported, not a crash', z3.BoolVal('ArgumentValidationError' in repr(err)))
        return
    I.prove('unusable arguments are rejected', ok)
    d = a.d
    I.prove('technology of the PDK', d.get('tech_pbjson_path') == tech if is_sym(d.get('tech_pbjson_path')) else z3.BoolVal(False))
    I.prove('LVS script of the PDK', d.get('lvs_script_path') == script if is_sym(d.get('lvs_script_path')) else z3.BoolVal(False))
    src = gds if gds is not None else db
    I.prove('input mode', z3.BoolVal(d['input_mode'] is I.getattr(I.repo(MOD, 'InputMode'), 'GDS' if gds is not None else 'LVSDB')))
    if gds is None:
        want = DBTOP(db)
    elif is_sym(cell):
        want = cell
    else:
        lay.top(I, z3.IntVal(0))
        want = CNAME(TOP(0))
    got = d.get('effective_cell_name')
    I.prove('cell', got == want if is_sym(got) else z3.BoolVal(False))
    out = flat(d['output_dir_path'])
    I.prove('output directory is in the given one', z3.BoolVal(len(out) > 1 and is_sym(out[0]) and z3.eq(out[0], N('base')) and str(out[1]).startswith('/')))
    I.prove('output directory of the input file and the cell', z3.And(*[z3.Or(*[q == w for q in out if is_sym(q)]) for w in (STEM(src), want)]))
    I.prove('output directory is there', fs.f(d['output_dir_path'])['exists'])
    inside = lambda p: z3.BoolVal(key(p).startswith(key(d['output_dir_path']) + '/'))
    if gds is not None:
        eg = d.get('effective_gds_path')
        lay.top(I, z3.IntVal(0))
        only = z3.And(lay.nt == 1, CNAME(TOP(0)) == want)
        w = [c for p, c in getattr(fs, 'written', []) if eg is not None and p == key(eg)]
        if w:
            I.prove('the exported layout is that of the cell', CNAME(w[-1]) == want)
            I.prove('the exported layout is in the output directory', inside(eg))
            I.prove('the exported layout is compressed as its name says', z3.BoolVal(str(flat(eg)[-1]).endswith(('.gds', '.gds.gz'))))
        else:
            I.prove('the layout file is the given one', eg == gds if is_sym(eg) else z3.BoolVal(False))
            I.prove('the given layout is only used if the cell is its only top cell', only)
        I.prove('the layout is the one given', z3.BoolVal(d.get('layout') is lay and lay.path == key(gds)))
        es = d.get('effective_schematic_path')
        if sch is not None:
            I.prove('schematic is the given one', es == sch if is_sym(es) else z3.BoolVal(False))
        else:
            t = fs.f(es)['content'] if es is not None else None
            if not isinstance(t, Trace):
                I.prove('a schematic without devices', z3.BoolVal(False))
            else:
                I.prove('the schematic is in the output directory', inside(es))
                parts = [p for p in text_of(t.events)]
                parts = [q for p in parts for q in flat(p)]
                txt = ''.join(x if isinstance(x, str) else '\0' for x in parts).lower()
                lines = [l for l in txt.split('\n') if l.strip() and not l.startswith('*')]
                I.prove('the schematic has one empty subcircuit', z3.BoolVal(len(lines) == 3 and lines[0].split()[:2] == ['.subckt', '\0'] and lines[1].split()[0] == '.ends' and lines[2] == '.end'))
                syms = [x for x in parts if not isinstance(x, str)]
                I.prove('the subcircuit has the name of the cell', syms[0] == want if len(syms) == 1 and is_sym(syms[0]) else z3.BoolVal(False))
    lv = d['log_level']
    I.prove('log level', z3.BoolVal(lv is I.getattr(I.repo('klayout_pex.log', 'LogLevel'), I.ghost.get('level', ('info', 'INFO'))[1])))
    I.prove('dielectric filter of the given text', z3.And(z3.BoolVal(len(pats) == 1), pats[-1] == N('diel')) if pats and is_sym(pats[-1]) else z3.BoolVal(False))
    cd = d['cache_dir_path']
    if inp and some('cache_dir'):
        I.prove('cache directory is the given one', cd == N('cache_dir') if is_sym(cd) else z3.BoolVal(False))
    else:
        I.prove('cache directory in the output directory', z3.BoolVal(cd is not None and key(cd).startswith('<base>/')))


def name_attr(I, x, n):
    if n == 'split':
        def split(I, a, k):
            if (list(a) + [k.get('sep')])[0] != '.':
                raise Undecided('split of a path')
            return SplitName(x)
        return Builtin(n, split)
    raise Undecided(f'{n} of a path')


def case(what, name):
    def h(I):
        I.ghost['case'] = name
        return validate(I, what)
    h.__doc__ = validate.__doc__
    return h


HARNESSES = [('create_lvsdb', lvsdb), ('validate_args, environment', case('environment', None)), ('validate_args, cell', case('input', 'gds, cell')), ('validate_args, top cell', case('input', 'gds')),
             ('validate_args, database', case('input', 'lvsdb'))]
