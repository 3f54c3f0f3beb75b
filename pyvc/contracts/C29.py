from .rcx import *
from .text import *
from ..engine import DistinctKeys
from .C30 import Cat, rdb, title, path, pieces, undecided

MOD = 'klayout_pex.magic.magic_ext_file_parser'
LOG = 'klayout_pex.magic.magic_log_analyzer'
DS = 'klayout_pex.magic.magic_ext_data_structures'
ASSUMPTIONS = ['the lines of .ext / .res.ext files have the form MAGIC documents (ext(5)): names without quotes and blanks, integers as %d, capacitances and resistances as finite %g; '
               'layer names are words; node and device lines go on after the fields read', 'a model name has no blanks; a device class is one of DeviceType',
               'cell names have no dots; a directory has one file of each name', 're, text files, Path.glob as documented', 'klayout.rdb as in C30; kdb.Box rounds to the database unit',
               'floats treated as exact']
NS = z3.DeclareSort('MText')
KIND_ = z3.Function('kind_of_line', Z, Z)
TYPES = ['fet', 'mosfet', 'asymmetric', 'bjt', 'devres', 'devcap', 'devcaprev', 'vsource', 'diode', 'pdiode', 'ndiode', 'subckt', 'rsubckt', 'msubckt', 'csubckt']
OTHER = ['timestamp', 'version', 'tech', 'style', 'scale', 'resistclasses', 'parameters', 'use', 'equiv', 'cap', 'merge', 'distance', 'attr', 'subcap', 'killnode', 'property']
RES_ONLY, MAIN_ONLY = ['rnode', 'resist'], ['port', 'node', 'substrate']
s = lambda n: z3.Function(n, Z, NS)
i_ = lambda n: z3.Function(n, Z, Z)
NETNAME, LAYERNAME, MODELNAME, N1, N2 = s('net'), s('layer'), s('model'), s('node1'), s('node2')
XB, YB, XT, YT, INTR, CAP, RCAP, RVAL, NR = i_('x_bot'), i_('y_bot'), i_('x_top'), i_('y_top'), i_('int_r'), z3.Function('fin_c', Z, R), i_('rfin_c'), z3.Function('value', Z, R), i_('nr')
NAMECH, WORDCH = minus('" \t'), frozenset(c for c in ALL if c.isalnum() or c == '_')
REST = minus('')


def kinds(): return [('port',), ('node',), ('substrate',)] + [('device', t) for t in TYPES] + [('rnode',), ('resist',)] + [('other', o) for o in OTHER] + [('blank',)]


def kind_at(I, i, only):
    ks = [k for k in kinds() if only(k)]
    c = KIND_(i)
    allk = kinds()
    I.assume(z3.Or(*[c == allk.index(k) for k in ks]))
    lo = ks
    while len(lo) > 1:                      # by bisection
        h = lo[:len(lo) // 2]
        lo = h if I.branch(z3.Or(*[c == allk.index(k) for k in h])) else lo[len(lo) // 2:]
    return lo[0]


def line(I, i, only):
    i = zint(i)
    k = kind_at(I, i, only)
    name = lambda f, ch=NAMECH: Tok(f.name(), ch, value=f(i))
    quoted = lambda f: ['"', name(f), '"']
    nums = lambda *fs: [p for f in fs for p in [' '] + integer(f.name(), f(i))]
    I.assume(INTR(i) >= 0, NR(i) >= 0)
    if k[0] == 'port':
        p = ['port '] + quoted(NETNAME) + nums(NR, XB, YB, XT, YT) + [' ', name(LAYERNAME, WORDCH)]
    elif k[0] in ('node', 'substrate'):
        p = [k[0] + ' '] + quoted(NETNAME) + nums(INTR) + [' '] + floating('fin_c', CAP(i), i) + nums(XB, YB) + [' ', name(LAYERNAME, WORDCH), ' ', Tok('rest', REST, words=2)]
    elif k[0] == 'device':
        p = ['device ' + k[1] + ' ', name(MODELNAME, WORDCH)] + nums(XB, YB, XT, YT) + [' ', Tok('rest', REST, words=2)]
    elif k[0] == 'rnode':
        p = ['rnode '] + quoted(NETNAME) + nums(INTR, RCAP, XB, YB) + [' 0']
    elif k[0] == 'resist':
        p = ['resist '] + quoted(N1) + [' '] + quoted(N2) + [' '] + floating('value', RVAL(i), i)
    elif k[0] == 'blank':
        p = []
    else:
        p = [k[1] + ' ', Tok('rest', REST, words=2)]
    return Line(p + ['\n'])


def parse(I, fn, only):
    auto(I)
    install(I)
    I.ghost[('truth', NS.name())] = lambda x: z3.BoolVal(True)
    n = I.fresh('n_lines', Z)
    I.assume(n >= 0)
    lines = SymSeq('lines', n, lambda I, i: line(I, i, only))
    p = Record('path', {})

    def op(I, what, mode='r', *a, **k):
        I.prove('the file asked for is read', z3.BoolVal(what is p and mode in ('r', 'rt')))
        return TextFile(lines)
    I.ghost['open'] = op
    p.fields['open'] = Builtin('open', lambda I, a, k: op(I, p, *a, **k))
    p.fields['read_text'] = Builtin('read_text', lambda I, a, k: undecided('whole text'))
    m = I.fresh('m', Z)
    I.assume(m >= 0, m < n)
    r = I.call(I.repo(MOD, fn), [p], {})
    I.prove('the data of this file', z3.BoolVal(I.getattr(r, 'path') is p))
    return r, m, kind_at(I, m, only)


def listed(I, r, what, m, here, fields):
    """the list has an entry for line m iff here, with these fields"""
    l = I.getattr(r, what)
    if not isinstance(l, CompSeq) or base_tag(l.it.tag) != 'lines':
        if isinstance(l, ListVal) and isinstance(getattr(l, 'items', None), list) and not l.items:
            I.prove(f'{what}: one for every line', z3.BoolVal(not here))
            return
        raise Undecided(f'{what}: built in another way')
    c = l.cond(I, m)
    I.prove(f'{what}: one for every line of its kind, none for others', c == z3.BoolVal(here))
    if not here or not I.branch(c):
        return
    o = l.at(I, m)
    for f, want in fields.items():
        v = I.getattr(o, f)
        w = f'{what}: {f} as in the file'
        if isinstance(want, str):
            I.prove(w, z3.BoolVal(getattr(v, 'value', v) == want))
        elif is_sym(want) and want.sort() == NS:
            I.prove(w, v == want if is_sym(v) and v.sort() == NS else z3.BoolVal(False))
        else:
            if isinstance(v, Text):
                raise Undecided(f'{f} is text')
            I.prove(w, zreal(v) == zreal(want))


def ext(I):
    """ensures: parse_magic_ext_file lists every port, node/substrate and device line, in order, with all its fields, whatever its names, numbers and other lines"""
    r, m, k = parse(I, 'parse_magic_ext_file', lambda k: k[0] not in RES_ONLY)
    xy = dict(x_bot=XB(m), y_bot=YB(m))
    xyt = dict(xy, x_top=XT(m), y_top=YT(m))
    listed(I, r, 'ports', m, k[0] == 'port', dict(xyt, net=NETNAME(m), layer=LAYERNAME(m)))
    listed(I, r, 'nodes', m, k[0] in ('node', 'substrate'), dict(xy, net=NETNAME(m), layer=LAYERNAME(m), int_r=INTR(m), fin_c=CAP(m)))
    listed(I, r, 'devices', m, k[0] == 'device', dict(xyt, model=MODELNAME(m), device_type=k[-1]))


def res_ext(I):
    """ensures: parse_magic_res_ext_file lists every rnode and resist line, in order, with all its fields"""
    r, m, k = parse(I, 'parse_magic_res_ext_file', lambda k: k[0] not in MAIN_ONLY + ['device'])
    listed(I, r, 'rnodes', m, k[0] == 'rnode', dict(name=NETNAME(m), int_r=INTR(m), fin_c=RCAP(m), x_bot=XB(m), y_bot=YB(m)))
    listed(I, r, 'resistors', m, k[0] == 'resist', dict(node1=N1(m), node2=N2(m), value_ohm=RVAL(m)))


# ---------------------------------------------------------------- the run directory
CELL, IS_RES = z3.Function('cell_of_file', Z, NS), z3.Function('is_res_file', Z, B)
HASRES, RESIX = z3.Function('has_res', NS, B), z3.Function('res_file_of', NS, Z)
MAINIX = z3.Function('main_file_of', NS, Z)


def run_dir(I):
    """ensures: parse_magic_pex_run has exactly one entry for every <cell>.ext file of the directory, with its data, and with the data of <cell>.res.ext iff there is one"""
    auto(I)
    install(I)
    I.ghost[('truth', NS.name())] = lambda x: z3.BoolVal(True)
    n = I.fresh('n_files', Z)
    I.assume(n >= 0)

    def file(I, i):
        i = zint(i)
        c = CELL(i)
        I.assume(z3.Implies(IS_RES(i), z3.And(HASRES(c), RESIX(c) == i)), z3.Implies(z3.Not(IS_RES(i)), MAINIX(c) == i),
                 z3.Implies(HASRES(c), z3.And(RESIX(c) >= 0, RESIX(c) < n, IS_RES(RESIX(c)), CELL(RESIX(c)) == c, HASRES(CELL(RESIX(c))))))
        ls = [Tok('cell', minus('./'), value=c), Opt(IS_RES(i), ['.res']), '.ext']
        return Record('file', dict(name=Line(ls)), ident=i)
    files = SymSeq('files', n, file)

    def find(I, key, cond, x):
        """the last of the files of a cell (at most two) that has an entry"""
        if not (is_sym(x) and x.sort() == NS):
            return None
        def at(g):
            file(I, g)
            return z3.And(g >= 0, g < n, cond(I, g), zbool(I.pure_bool(lambda: I.eq(key(I, g), x))))
        r, m = RESIX(x), MAINIX(x)
        ar, am = at(r), at(m)
        return z3.Or(ar, am), z3.If(z3.And(ar, z3.Or(z3.Not(am), r > m)), r, m)
    files.find_where = find

    def glob(I, a, k):
        I.prove('all .ext files are looked at', z3.BoolVal((list(a) + list(k.values())) == ['*.ext']))
        return files
    d = Record('run dir', dict(glob=Builtin('glob', glob)))
    for fn, nm in (('parse_magic_ext_file', 'data'), ('parse_magic_res_ext_file', 'resdata')):
        I.contracts[MOD + ':' + fn] = (lambda nm: lambda I, a, k: Record(nm, {}, ident=(a or list(k.values()))[0].ident))(nm)
    m = I.fresh('m', Z)
    I.assume(m >= 0, m < n)
    file(I, m)
    marks = I.ghost['marks'] = [m, RESIX(CELL(m))]
    try:
        r = I.call(I.repo(MOD, 'parse_magic_pex_run'), [d], {})
    except PyRaise as e:
        I.prove('an error only if there are no results', IS_RES(m))
        return
    I.prove('the data of this directory', z3.BoolVal(I.getattr(r, 'run_dir') is d))
    cells = I.getattr(r, 'cells')
    if not isinstance(cells, SymDict):
        raise Undecided('cells built in another way')
    b = getattr(getattr(cells, 'over', None), 'base', None)
    if isinstance(b, DistinctKeys):
        marks.append(b.position(I, CELL(m))[1])
    ok, v = cells.lookup(I, CELL(m))
    if I.branch(IS_RES(m)):
        if ok:      # then by the main file of the same cell
            I.prove('a cell only for a main file', z3.And(MAINIX(CELL(m)) >= 0, MAINIX(CELL(m)) < n, z3.Not(IS_RES(MAINIX(CELL(m))))))
        return
    I.prove('every cell has an entry', z3.BoolVal(ok))
    if not ok:
        return
    e, x = I.getattr(v, 'ext_data'), I.getattr(v, 'res_ext_data')
    good = isinstance(e, Record) and e.name == 'data'
    I.prove('the entry of a cell: the data of its file', zint(e.ident) == m if good else z3.BoolVal(False))
    if x is None:
        I.prove('resistance data are not lost', z3.Not(HASRES(CELL(m))))
    else:
        good = isinstance(x, Record) and x.name == 'resdata'
        I.prove('resistance data are those of the cell', z3.And(HASRES(CELL(m)), zint(x.ident) == RESIX(CELL(m))) if good else z3.BoolVal(False))


# ---------------------------------------------------------------- the report
class ShapesM(Model):
    kind = 'Shapes'

    def __init__(self, tr):
        super().__init__()
        self.tr = tr

    def m_insert(self, I, x): self.tr.emit(I, 'shape', self, x)


def analyzer(I, check):
    tr = Trace('report')
    I.roots = [tr]
    I.auto_loop = lambda it: AutoTrace('report', tr, check)
    rdb(I, tr)
    db = I.call(I.externals['klayout.rdb.ReportDatabase'], [''], {})
    cn = []
    mk = db.fields['create_cell']

    def cell(I, a, k):
        x = (list(a) + list(k.values()))[0]
        tr.emit(I, 'cell', x)
        return mk.fn(I, a, k)
    db.fields['create_cell'] = Builtin('create_cell', cell)
    dbu = I.fresh('dbu', R)
    I.assume(dbu > 0)
    I.externals['klayout.db.CplxTrans'] = Builtin('CplxTrans', lambda I, a, k: Record('trans', dict(mag=(list(a) + list(k.values()))[0]), ident=tuple(k) or len(a)))
    I.ghost['um'] = lambda t: zreal(t.fields['mag']) == dbu if isinstance(t, Record) and t.name == 'trans' and t.ident in (('mag',), 1) else z3.BoolVal(False)
    I.externals['klayout.db.Shapes'] = Builtin('Shapes', lambda I, a, k: ShapesM(tr))

    def box(I, a, k):
        if len(a) != 4:
            raise Undecided('box')
        return Record('box', {}, ident=[zreal(x) for x in a])
    I.externals['klayout.db.Box'] = Builtin('Box', box)
    run = Record('run', {})
    me = I.instantiate(I.repo(LOG, 'MagicLogAnalyzer'), [], dict(magic_pex_run=run, report=db, dbu=dbu))
    I.roots.append(me)
    return me, tr, run, dbu


def seq_of(I, tag, rec):
    n = z3.Int('n_' + tag)
    I.assume(n >= 0)
    return SymSeq(tag, n, lambda I, i: rec(zint(i)))


def f_(n, so=NS): return z3.Function(n, Z, so)


def cell_data(I, res):
    def xy(t, i, top):
        return {c: f_(f'{t} {c}', Z)(i) for c in ('x_bot', 'y_bot') + (('x_top', 'y_top') if top else ())}
    port = lambda i: Record('Port', dict(xy('port', i, True), net=f_('port net')(i), layer=f_('port layer')(i)), ident=('port', i))
    node = lambda i: Record('Node', dict(xy('node', i, False), net=f_('node net')(i), layer=f_('node layer')(i), int_r=0, fin_c=0), ident=('node', i))
    dev = lambda i: Record('Device', dict(xy('device', i, True), device_type=f_('device type')(i), model=f_('device model')(i)), ident=('device', i))
    rnode = lambda i: Record('ResNode', dict(xy('rnode', i, False), name=f_('rnode name')(i), int_r=0, fin_c=0), ident=('rnode', i))
    rs = lambda i: Record('Resistor', dict(node1=f_('res node1')(i), node2=f_('res node2')(i), value_ohm=f_('res value', R)(i)), ident=('resistor', i))
    e = Record('ExtData', dict(path=None, ports=seq_of(I, 'ports', port), nodes=seq_of(I, 'nodes', node), devices=seq_of(I, 'devices', dev)))
    x = None
    if res:
        x = I.instantiate(I.repo(DS, 'ResExtData'), [], dict(path=None, rnodes=seq_of(I, 'rnodes', rnode), resistors=seq_of(I, 'resistors', rs)))
    return Record('CellExtData', dict(ext_data=e, res_ext_data=x)), dict(ports=port, nodes=node, devices=dev, rnodes=rnode, resistors=rs)


UM = Fraction(1, 200)     # µm per unit of the .ext files


def marker(I, what, b, x, y, dbu):
    """the box marks (x, y)"""
    if not (isinstance(b, Record) and b.name == 'box'):
        I.prove(what, z3.BoolVal(False))
        return
    l, bt, r, t = b.ident
    X, Y = zreal(x) * zreal(UM) / dbu, zreal(y) * zreal(UM) / dbu
    I.prove(what, z3.And(l <= X, X <= r, bt <= Y, Y <= t, r - l <= 20, t - bt <= 20))


def area(I, what, b, o, dbu):
    if not (isinstance(b, Record) and b.name == 'box'):
        I.prove(what, z3.BoolVal(False))
        return
    I.prove(what, z3.And(*[v * dbu == zreal(I.getattr(o, f)) * zreal(UM) for v, f in zip(b.ident, ('x_bot', 'y_bot', 'x_top', 'y_top'))]))


def report_cell(I):
    """ensures: every port, node, device, resistor node and resistor of a cell is one category of the report of this cell, with its name and at its position (in µm)"""
    GROUP = dict(ports='Ports', nodes='Nodes', devices='Devices', rnodes='Resistor Nodes', resistors='Resistors')
    seen = []

    def check(I, L, k, ev):
        t = base_tag(L.it.tag)
        if t not in GROUP:
            return named(I, L, k, ev)
        o = recs[t](zint(k))
        cats, items, shapes = ([e for e in ev if e[0] == w] for w in ('cat', 'items', 'shape'))
        inner = [e for e in ev if e[0] == 'loop']
        I.prove(f'{t}: documented once each', z3.BoolVal(len(items) == 1))
        if len(items) != 1:
            return
        it = items[0]
        sh = it[2]
        p = it[1].p
        if len(p) != 3:
            raise Undecided('other categories')
        title(I, f'{t}: in the group', p[1], [GROUP[t]])
        title(I, f'{t}: in the group', p[0], ['MAGIC Extraction'])
        g = lambda f: I.getattr(o, f)
        want = dict(ports=lambda: [g('net'), ' (', g('layer'), ')'], nodes=lambda: [g('net'), ' (', g('layer'), ')'], rnodes=lambda: [g('name')],
                    devices=lambda: ['Type=', g('device_type'), ' Model=', g('model')],
                    resistors=lambda: ['#', zint(k), ' ', g('node1'), '↔︎', g('node2'), ' = ', g('value_ohm'), ' Ω'])[t]()
        title(I, f'{t}: the name', p[2], want)
        if not isinstance(sh, ShapesM):
            raise Undecided('other shapes')
        mine = [e[2] for e in shapes if e[1] is sh]
        if t == 'resistors':
            got = [x for e in inner for x in (base_tag(e[2].it.tag)[1] if isinstance(base_tag(e[2].it.tag), tuple) and base_tag(e[2].it.tag)[0] == 'named' else [None])]
            I.prove('resistors: the nodes of both ends', z3.And(z3.BoolVal(not mine), *[z3.Or(*[x == w for x in got if x is not None]) for w in (g('node1'), g('node2'))],
                                                               *[z3.Or(x == g('node1'), x == g('node2')) if x is not None else z3.BoolVal(False) for x in got]))
            return
        I.prove(f'{t}: one shape', z3.BoolVal(len(mine) == 1 and not inner))
        if len(mine) != 1:
            return
        if t in ('ports', 'devices'):
            area(I, f'{t}: its area', mine[0], o, dbu)
        else:
            marker(I, f'{t}: its position', mine[0], g('x_bot'), g('y_bot'), dbu)

    def named(I, L, k, ev):
        """the nodes of a resistor: those of this name"""
        I.prove('resistors: a shape for each of its nodes', z3.BoolVal(len(ev) == 1 and ev[0][0] == 'shape'))
        if len(ev) != 1:
            return
        n = L.it.elem(I, k)
        if not (isinstance(n, Record) and n.name == 'ResNode'):
            raise Undecided('other nodes')
        marker(I, 'resistors: at its nodes', ev[0][2], n.fields['x_bot'], n.fields['y_bot'], dbu)
    me, tr, run, dbu = analyzer(I, check)
    res = I.branch(z3.Const('has resistance data', B))
    data, recs = cell_data(I, res)
    nn = NB(I)
    I.contracts[DS + ':ResExtData.rnodes_by_name'] = nn
    cell = I.fresh('cell', NS)
    tr.events = []
    I.call(I.getattr(me, 'analyze_cell'), [], dict(cell=cell, cell_data=data))
    loops = [base_tag(e[2].it.tag) for e in tr.events if e[0] == 'loop']
    want = [t for t in GROUP if res or t not in ('rnodes', 'resistors')]
    for t in want:
        I.prove(f'{t}: all of them, once', z3.BoolVal(loops.count(t) == 1))
    I.prove('nothing else', z3.BoolVal(len(loops) == len(want) and not [e for e in tr.events if e[0] in ('items', 'shape')]))
    cs = [e for e in tr.events if e[0] == 'cell']
    I.prove('in the cell of this name', z3.And(z3.BoolVal(len(cs) == 1), cs[0][1] == cell) if len(cs) == 1 and is_sym(cs[0][1]) else z3.BoolVal(False))


NN, NAT = z3.Function('n_named', NS, Z), z3.Function('named', NS, Z, Z)


class Named(Model):
    """the resistor nodes of these names, one name after the other"""
    kind = 'Named'

    def __init__(self, names):
        super().__init__()
        self.names = names

    def binop(self, I, op, o, refl):
        if op != 'Add' or not isinstance(o, Named):
            raise Undecided('lists of nodes')
        return Named(o.names + self.names if refl else self.names + o.names)

    def length(self, I):
        I.assume(*[NN(x) >= 0 for x in self.names])
        return z3.Sum(*[NN(x) for x in self.names]) if len(self.names) > 1 else NN(self.names[0])

    def iterate(self, I):
        def elem(I, i):
            i = zint(i)
            x = z3.Int('?')
            at, base = None, z3.IntVal(0)
            parts = []
            for nm in self.names:
                parts.append((base, nm))
                base = base + NN(nm)
            for b, nm in reversed(parts):
                v = NAT(nm, i - b)
                at = v if at is None else z3.If(i < b + NN(nm), v, at)
            return Record('ResNode', dict(x_bot=f_('rnode x_bot', Z)(at), y_bot=f_('rnode y_bot', Z)(at), name=f_('rnode name')(at)), ident=('rnode', at))
        return IterSpec(('named', tuple(self.names)), self.length(I), elem, base=self)


def NB(I):
    return lambda I, a, k: Named([(list(a[1:]) + list(k.values()))[0]])


def by_name(I):
    """ensures: rnodes_by_name gives exactly the resistor nodes of that name"""
    auto(I)
    data, recs = cell_data(I, True)
    x, n, m = data.fields['res_ext_data'], I.fresh('name', NS), I.fresh('m', Z)
    l = I.call(I.getattr(x, 'rnodes_by_name'), [n], {})
    if not isinstance(l, CompSeq) or base_tag(l.it.tag) != 'rnodes':
        raise Undecided('built in another way')
    I.assume(m >= 0, m < zint(l.it.n))
    c = l.cond(I, m)
    I.prove('exactly the nodes of this name', c == (f_('rnode name')(m) == n))
    I.prove('of all nodes', zint(l.it.n) == z3.Int('n_rnodes'))
    if I.branch(c):
        v = l.at(I, m)
        I.prove('the node itself', v.ident[1] == m if isinstance(v, Record) and v.name == 'ResNode' else z3.BoolVal(False))


def analyze(I):
    """ensures: analyze documents every cell of the run, once, with its data"""
    def check(I, L, k, ev):
        t = base_tag(L.it.tag)
        if t != 'cells':
            raise Undecided('other loop')
        I.prove('every cell, once, with its data', z3.And(z3.BoolVal(len(ev) == 1), ev[0][1] == key(zint(k)), ev[0][2] == zint(k)) if len(ev) == 1 else z3.BoolVal(False))
    me, tr, run, dbu = analyzer(I, check)
    n = I.fresh('n_cells', Z)
    I.assume(n >= 0)
    key = z3.Function('cell_name', Z, NS)
    val = lambda i: Record('CellExtData', {}, ident=zint(i))
    run.fields['cells'] = SymDict('cells', n, lambda I, i: key(zint(i)), lambda I, i: val(i), unique=True)

    def one(I, a, k):
        m = I.repo(LOG, 'MagicLogAnalyzer.analyze_cell')
        v = I.bind(m[1] if isinstance(m, tuple) else m, a, k).vars
        d = v['cell_data']
        if not isinstance(d, Record):
            raise Undecided('cell data')
        tr.emit(I, 'cell', v['cell'], d.ident)
    I.contracts[LOG + ':MagicLogAnalyzer.analyze_cell'] = one
    tr.events = []
    I.call(I.getattr(me, 'analyze'), [], {})
    I.prove('all cells', z3.BoolVal(len(tr.events) == 1 and tr.events[0][0] == 'loop'))


HARNESSES = [('ext', ext), ('res_ext', res_ext), ('run_dir', run_dir), ('report_cell', report_cell), ('by_name', by_name), ('analyze', analyze)]
