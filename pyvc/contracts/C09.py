"""the netlist as Yosys JSON (netlistsvg)"""
from .netlist import *
from .cli import key, flat

MOD = 'klayout_pex.netlistsvg.netlist_json'
CLI = 'klayout_pex.netlist.netlist_cli'
W = MOD + ':NetlistJSONWriter'
ASSUMPTIONS = ['klayout.db netlist API as documented; nets of a circuit have different names, so have its pins, the devices of a class and the subcircuits',
               'every pin is connected (a netlist read from SPICE)', 'devices are capacitors and resistors', 'json.dump writes the dictionary it is given',
               'run_netlistsvg: see C28', 'floats in the values treated as exact before rounding']
BIT = z3.Function('bit_of_net', NAME, Z)
SC, DV, PIN = (z3.Function(n, Z, NAME) for n in ('subcircuit_name', 'device_xname', 'top_pin_name'))
PNET = z3.Function('net_of_top_pin', Z, NAME)
SREF = z3.Function('circuit_of_subcircuit', Z, NAME)
NPIN = z3.Function('pins_of_subcircuit', Z, Z)
PID = z3.Function('pin_id', Z, Z, Z)
SNET = z3.Function('net_of_subcircuit_pin', Z, Z, NAME)
TNET = {t: z3.Function(f'net_of_terminal_{t}', Z, NAME) for t in 'AB'}
VAL = {p: z3.Function(f'param_{p}', Z, R) for p in 'CRPLWA'}


class Ids(Model):
    """id_for_net, seen through the asked net n and another net m"""
    kind = 'ids'

    def __init__(self, I, n, m):
        super().__init__()
        self.n, self.m = n, m
        self.has = {0: I.fresh('has_n', B), 1: I.fresh('has_m', B)}
        self.val = {0: I.fresh('id_n', Z), 1: I.fresh('id_m', Z)}

    def which(self, I, x):
        if not (is_sym(x) and x.sort() == NAME):
            raise Undecided('id of something else')
        if x.eq(self.n):
            return 0
        raise Undecided('id of another net')

    def contains(self, I, x): return self.has[self.which(I, x)]
    def m_get(self, I, x, d=None):
        w = self.which(I, x)
        return self.val[w] if I.branch(self.has[w]) else d
    def getitem(self, I, x):
        w = self.which(I, x)
        I.guard(self.has[w], 'KeyError')
        return self.val[w]
    def m_setdefault(self, I, x, v):
        if not I.branch(self.contains(I, x)):
            self.setitem(I, x, v)
        return self.val[self.which(I, x)]
    def setitem(self, I, x, v):
        I.note_write(self)
        w = self.which(I, x)
        self.has[w], self.val[w] = z3.BoolVal(True), zint(v)
    def length(self, I): raise Undecided('number of ids')


def ids(I):
    """requires: ids so far are below next_id and different for different nets.  ensures: the asked net has an id, the one it had if it had one;
    ids are still below next_id and different; other nets keep theirs"""
    setup_netlist(I)
    n, m = I.fresh('n', NAME), I.fresh('m', NAME)
    t = Ids(I, n, m)
    nid = I.fresh('next_id', Z)
    I.assume(n != m, nid >= 0, *[z3.Implies(t.has[i], z3.And(t.val[i] >= 0, t.val[i] < nid)) for i in (0, 1)],
             z3.Implies(z3.And(t.has[0], t.has[1]), t.val[0] != t.val[1]))
    h, v = dict(t.has), dict(t.val)
    net = NetM(n)
    I.assume(z3.Function('nonempty', NAME, B)(n))
    me = Obj(I.repo(MOD, 'NetlistJSONWriter'), dict(next_id=nid, id_for_net=t))
    r = I.call(I.getattr(me, '_get_or_create_id'), [net], {})
    nn = zint(I.getattr(me, 'next_id'))
    if I.getattr(me, 'id_for_net') is not t:
        raise Undecided('another table')
    I.prove('the net has an id now', t.has[0])
    I.prove('the id is returned', zint(r) == t.val[0])
    I.prove('a net keeps its id', z3.Implies(h[0], t.val[0] == v[0]))
    I.prove('other nets keep theirs', z3.And(t.has[1] == h[1], t.val[1] == v[1]))
    I.prove('different nets have different ids', z3.Implies(t.has[1], t.val[0] != t.val[1]))
    I.prove('ids are below the next one', z3.And(nn >= nid, t.val[0] >= 0, t.val[0] < nn, z3.Implies(t.has[1], t.val[1] < nn)))


class Table(Model):
    """id_for_net at the end of the cells: any net may have an id"""
    kind = 'ids'
    def __init__(self):
        super().__init__()
        self.asked = {}
    def has(self, I, x):
        if not isinstance(x, str):
            raise Undecided('id of a net')
        if x not in self.asked:
            self.asked[x] = I.branch(z3.Const(f'{x} has an id', B))
        return self.asked[x]
    def m_get(self, I, x, d=None): return BIT(I.literal(x, NAME)) if self.has(I, x) else d
    def contains(self, I, x): return self.has(I, x)
    def getitem(self, I, x):
        if not self.has(I, x):
            I.raise_('KeyError', x)
        return BIT(I.literal(x, NAME))


class Cells(Model):
    """the dictionary of cells: what is stored in it, in order"""
    kind = 'cells'
    def __init__(self, tr):
        super().__init__()
        self.tr = tr
    def setitem(self, I, k, v):
        self.tr.emit(I, 'cell', k, v)


class CellLoop(AutoTrace):
    """the dictionary the loop stores cells in becomes Cells"""
    def own(self, L): return [o for o in super().own(L) if not isinstance(o, Cells)]
    def traced(self, L): return super().traced(L) or any(isinstance(o, Cells) for o in L.written)
    def pre(self, I, L):
        for o in L.written:
            if type(o) is DictVal and not o.pairs and o.default is None and (tag_has(L.it.tag, 'subcircuits') or tag_has(L.it.tag, 'devices')):
                o.__class__ = Cells
                o.__dict__.pop('pairs', None)
                o.tr = self.trace
        super().pre(I, L)
    def havoc(self, I, L, k):
        super().havoc(I, L, k)
        mark_havoc(L, *[o for o in L.written if isinstance(o, Cells)])


def parts(k):
    return [p for p in flat(k)] if not isinstance(k, str) else [k]


def cell_key(I, k, name, what):
    """literal prefix of a key that has the name of the object in it"""
    p = parts(k)
    names = [x for x in p if not isinstance(x, str)]
    if len(names) != 1 or not (is_sym(names[0]) and names[0].sort() == NAME):
        raise Undecided(f'key {k!r}')
    I.prove(f'{what}: the key has the name of the object', names[0] == name)
    return p[0] if isinstance(p[0], str) else ''


class SubcircuitM(Model):
    kind = 'SubCircuit'
    def __init__(self, i):
        super().__init__()
        self.i = i
    def m_expanded_name(self, I): return SC(self.i)
    def a_name(self, I): return z3.Function('plain_subcircuit_name', Z, NAME)(self.i)
    def m_id(self, I): return z3.Function('subcircuit_id', Z, Z)(self.i)
    def m_circuit_ref(self, I):
        i = self.i

        def pin(I, j):
            j = zint(j)
            return Record('pin', dict(id=Builtin('id', lambda I, a, k: PID(i, j)), name=Builtin('name', lambda I, a, k: z3.Function('pin_name', Z, Z, NAME)(i, j)), j=j))
        I.assume(NPIN(i) >= 0)
        return Record('circuit', dict(name=SREF(i), cell_index=z3.Function('cell_index', Z, Z)(i),
                                      each_pin=Builtin('each_pin', lambda I, a, k: SymSeq('pins', NPIN(i), pin))), ident=i)
    def m_net_for_pin(self, I, p):
        if isinstance(p, Record):
            p = I.call(I.getattr(p, 'id'), [], {})
        return NetM(z3.Function('net_at_pin_id', Z, Z, NAME)(self.i, zint(p)))


def subnet(i, j): return z3.Function('net_at_pin_id', Z, Z, NAME)(i, PID(i, j))


class DevM(Model):
    kind = 'Device'
    def __init__(self, i):
        super().__init__()
        self.i = i
    def m_expanded_name(self, I): return DV(self.i)
    def a_name(self, I): return z3.Function('plain_device_name', Z, NAME)(self.i)
    def m_device_class(self, I):
        for j, c in enumerate(('Capacitor', 'CapacitorWithBulk', 'Resistor', 'ResistorWithBulk')):
            if I.branch(KIND(self.i) == CLASSES.index(c)):
                return ClassM(c)
        raise PathEnd()
    def m_parameter(self, I, p):
        if isinstance(p, str) and p in VAL:
            return VAL[p](self.i)
        raise Undecided('parameter')
    def m_net_for_terminal(self, I, t):
        if t in (0, 1):
            t = 'AB'[t]
        if t not in ('A', 'B'):
            raise Undecided('terminal')
        return NetM(TNET[t](self.i))


class ClassM(Model):
    kind = 'DeviceClass'
    def __init__(self, c):
        super().__init__()
        self.c = c
    def m_parameter_definitions(self, I):
        ps = ['C', 'A', 'P'] if self.c.startswith('C') else ['R', 'L', 'W', 'A', 'P']
        return ListVal([Record('param', dict(name=p, id=Builtin('id', (lambda p: lambda I, a, k: p)(p)))) for p in ps])
    def isinst(self, I, d):
        d = d.split('.')[-1]
        if d.startswith('DeviceClass'):
            return self.c in BASES.get(d[11:], [d[11:]]) if d[11:] else True
        return None
    def a_name(self, I): return I.literal(self.c, NAME)


def field(I, d, *path):
    for p in path:
        if isinstance(d, DictVal) and not any(isinstance(k, str) and k == p for k, _ in d.pairs):
            return None
        d = I.getitem(d, p)
    return d


def bit(I, v, net):
    """v is the list [bit of the net]"""
    if not isinstance(v, ListVal) or len(v.items) != 1:
        return z3.BoolVal(False)
    return zint(v.items[0]) == BIT(net)


def world(I):
    setup_netlist(I)
    I.assume(z3.Function('nonempty', NAME, B)(I.literal('?', NAME)))
    I.ghost[('truth', 'Name')] = lambda x: z3.BoolVal(True)       # names are not empty
    tr = I.ghost['trace'] = Trace()
    I.roots = [tr]

    def net_of(I, args, kw):
        net = args[1] if len(args) > 1 else kw['net']
        if not isinstance(net, NetM):
            raise Undecided('id of something else')
        return BIT(net.n)
    I.contracts[W + '._get_or_create_id'] = net_of
    return tr


def cells(I):
    """requires: a circuit of resistors, capacitors and subcircuits.  ensures: every subcircuit, capacitor and resistor is a cell of its own with
    every pin or terminal at the bit of its net and its value; every ground net of the diagram has one ground symbol, there are no other cells"""
    tr = world(I)
    ns, nd = I.fresh('nsub', Z), I.fresh('ndev', Z)
    I.assume(ns >= 0, nd >= 0)
    circ = Record('circuit', dict(name=I.literal('TOP', NAME), each_subcircuit=Builtin('s', lambda I, a, k: SymSeq('subcircuits', ns, lambda I, i: SubcircuitM(zint(i)))),
                                  each_device=Builtin('d', lambda I, a, k: SymSeq('devices', nd, lambda I, i: DevM(zint(i))))))
    tab = Table()
    me = Obj(I.repo(MOD, 'NetlistJSONWriter'), dict(next_id=I.fresh('next_id', Z), id_for_net=tab))
    prefix = I.__dict__.setdefault('key_prefixes', {})

    def check(I, L, k, ev):
        if any(e[0] != 'cell' for e in ev) or len(ev) != 1:
            I.prove('each subcircuit and device is one cell', z3.BoolVal(False))
            return
        _, ky, v = ev[0]
        if tag_has(L.it.tag, 'subcircuits'):
            prefix.setdefault('X', set()).add(cell_key(I, ky, SC(k), 'subcircuit'))
            t = parts(field(I, v, 'type'))
            I.prove('subcircuit: its type is its circuit', z3.And(z3.BoolVal([x for x in t if isinstance(x, str)] == ['$']), t[-1] == SREF(k)) if len(t) == 2 and is_sym(t[1]) else z3.BoolVal(False))
            for f in ('connections', 'port_directions'):
                d = field(I, v, f)
                if not isinstance(d, SymDict):
                    raise Undecided(f)
                j = I.fresh('pin', Z)
                I.assume(j >= 0, j < NPIN(k))
                I.prove(f'subcircuit: {f} for every pin', zbool(I.pure_bool(lambda: d.condat(I, j))) if d.n is not None else z3.BoolVal(False))
                I.prove(f'subcircuit: {f} for the pins only', d.n == NPIN(k))
                kk = parts(d.key(I, j))
                I.prove(f'subcircuit: {f}: keys of different pins differ', z3.BoolVal(len(kk) >= 2 and isinstance(kk[1], str) and kk[1][:1] not in '0123456789' and kk[1] != '')
                        if not isinstance(kk[0], str) and zint(num(kk[0])).eq(PID(k, j)) else z3.BoolVal(False))
                if f == 'connections':
                    I.prove('subcircuit: each pin at the bit of its net', bit(I, d.val(I, j), subnet(k, j)))
            return
        kind = KIND(k)
        cap = z3.Or(kind == CLASSES.index('Capacitor'), kind == CLASSES.index('CapacitorWithBulk'))
        ty = field(I, v, 'type')
        if ty not in ('c_v', 'r_v'):
            raise Undecided('type of a cell')
        I.prove('device: capacitors and resistors are shown as such', cap if ty == 'c_v' else z3.Not(cap))
        prefix.setdefault(ty, set()).add(cell_key(I, ky, DV(k), 'device'))
        con = field(I, v, 'connections')
        I.prove('device: two terminals', z3.BoolVal(isinstance(con, DictVal) and {a for a, _ in con.pairs} == {'A', 'B'}))
        for t in 'AB':
            I.prove(f'device: terminal {t} at the bit of its net', bit(I, field(I, con, t), TNET[t](k)))
        val = parts(field(I, v, 'attributes', 'value'))
        rnd = z3.Function('round_3', R, R)
        x = val[0]
        x = x.v if isinstance(x, Fmt) else x
        want = VAL['C'](k) * z3.RealVal(10) ** 15 if ty == 'c_v' else VAL['R'](k)
        if not is_sym(x) or not z3.is_app(x) or x.decl().name() != 'round_3':
            raise Undecided('value of a device')
        I.prove('device: its value, in fF or Ohm', z3.And(x.arg(0) == (VAL['C'](k) * z3.RealVal(10 ** 15) if ty == 'c_v' else VAL['R'](k)), z3.BoolVal(val[1:] == (['f'] if ty == 'c_v' else []))))
    I.auto_loop = lambda it: CellLoop('loop', tr, check)
    r = I.call(I.getattr(me, 'dict_for_cells'), [circ], {})
    ev = tr.events
    loops = [e for e in ev if e[0] == 'loop']
    got = {'subcircuits': 0, 'devices': 0}
    for e in loops:
        for t in got:
            if tag_has(e[2].it.tag, t):
                got[t] += 1
    I.prove('subcircuits and devices are visited once each', z3.BoolVal(got == dict(subcircuits=1, devices=1) and len(loops) == 2))
    rest = [e for e in ev if e[0] == 'cell']
    I.prove('every cell is in the result', z3.BoolVal(isinstance(r, Cells)))
    ks = [e[1] for e in rest]
    if any(not isinstance(x, str) for x in ks):
        raise Undecided('other cells')
    I.prove('the ground symbols are different cells', z3.BoolVal(len(set(ks)) == len(ks)))
    gnd = {}
    for _, ky, v in rest:
        n = field(I, v, 'attributes', 'value')
        if field(I, v, 'type') != 'gnd' or n not in ('GND', 'VSUBS'):
            raise Undecided('other cells')
        I.prove('one ground symbol per ground net', z3.BoolVal(n not in gnd))
        gnd[n] = v
        I.prove(f'the ground symbol is at the bit of {n}', bit(I, field(I, v, 'connections', 'A'), I.literal(n, NAME)))
    for n in ('GND', 'VSUBS'):
        I.prove(f'{n} has a ground symbol iff it is in the diagram', z3.Const(f'{n} has an id', B) == z3.BoolVal(n in gnd))
    ps = [(t, p) for t, s in prefix.items() for p in s]
    if len(ps) >= 3 or any(t for t, _ in ps):
        alll = [p for _, p in ps] + ks
        clash = [(p, q) for i, (t, p) in enumerate(ps) for q in [x for j, (u, x) in enumerate(ps) if j != i] + ks if q.startswith(p)]
        I.prove('no cell replaces another: keys of different kinds start differently', z3.BoolVal(not clash))


def num(x):
    if isinstance(x, Fmt):
        return x.v
    return x


def ports(I):
    """requires: a circuit with named pins.  ensures: one port per pin, at the bit of its net"""
    world(I)
    n = I.fresh('npins', Z)
    I.assume(n >= 0)

    def pin(I, i):
        i = zint(i)
        return Record('pin', dict(name=Builtin('name', lambda I, a, k: PIN(i)), id=Builtin('id', lambda I, a, k: i), i=i))

    def net(I, a, k):
        p = a[0]
        return NetM(PNET(p.fields['i'] if isinstance(p, Record) else zint(p)))
    circ = Record('circuit', dict(each_pin=Builtin('each_pin', lambda I, a, k: SymSeq('pins', n, pin)), net_for_pin=Builtin('net_for_pin', net),
                                  pin_count=Builtin('pin_count', lambda I, a, k: n)))
    auto(I)
    me = Obj(I.repo(MOD, 'NetlistJSONWriter'), dict(next_id=I.fresh('next_id', Z), id_for_net=Table()))
    r = I.call(I.getattr(me, 'dict_for_ports'), [circ], {})
    if not isinstance(r, SymDict):
        raise Undecided('ports')
    j = I.fresh('pin', Z)
    I.assume(j >= 0, j < n)
    I.prove('as many ports as pins', r.n == n)
    I.prove('every pin is a port', zbool(I.pure_bool(lambda: r.condat(I, j))))
    k = parts(r.key(I, j))
    I.prove('a port has the name of its pin', k[0] == PIN(j) if len(k) == 1 and is_sym(k[0]) else z3.BoolVal(False))
    v = r.val(I, j)
    I.prove('a port is at the bit of its net', bit(I, field(I, v, 'bits'), PNET(j)))
    I.prove('a port is an input', z3.BoolVal(field(I, v, 'direction') == 'input'))


def module(I):
    """ensures: the file has one module, named like the top circuit, with the ports and cells of the top circuit; the same ids are used in both"""
    tr = world(I)
    top = I.literal('TOP', NAME)
    circ, nl = Record('circuit', dict(name=top)), Record('netlist', {})
    P, C = Record('ports', {}), Record('cells', {})
    objs = []

    def part(what, res):
        def f(I, args, kw):
            v = I.bind(I.repo(MOD, 'NetlistJSONWriter.' + what)[1] if isinstance(I.repo(MOD, 'NetlistJSONWriter.' + what), tuple) else I.repo(MOD, 'NetlistJSONWriter.' + what), args, kw).vars
            I.prove(f'{what}: of the top circuit', z3.BoolVal(v['circuit'] is circ))
            objs.append(v['self'])
            return res
        return f
    I.contracts[W + '.dict_for_ports'] = part('dict_for_ports', P)
    I.contracts[W + '.dict_for_cells'] = part('dict_for_cells', C)
    dumps = []

    def dump(I, a, k):
        dumps.append((a[0], a[1] if len(a) > 1 else k['fp']))
    I.externals['json.dump'] = Builtin('dump', dump)
    install_out_file(I, tr)
    me = I.instantiate(I.repo(MOD, 'NetlistJSONWriter'), [], {})
    path = I.fresh('path', NAME)
    I.call(I.getattr(me, 'write_json'), [], dict(netlist=nl, top_circuit=circ, output_path=path))
    I.prove('one file is written', z3.BoolVal(len(dumps) == 1 and isinstance(dumps[0][1], FileOut)))
    if len(dumps) != 1 or not isinstance(dumps[0][1], FileOut):
        return
    d, f = dumps[0]
    I.prove('it is the file asked for, written anew', z3.And(f.path == path, z3.BoolVal(f.mode in ('w', 'wt'))) if is_sym(f.path) else z3.BoolVal(False))
    I.prove('it has the modules only', z3.BoolVal(isinstance(d, DictVal) and [k for k, _ in d.pairs] == ['modules']))
    m = field(I, d, 'modules')
    if not isinstance(m, DictVal) or len(m.pairs) != 1:
        raise Undecided('modules')
    k, v = m.pairs[0]
    I.prove('the module has the name of the top circuit', k == top if is_sym(k) else z3.BoolVal(False))
    I.prove('with its ports and cells', z3.BoolVal(field(I, v, 'ports') is P and field(I, v, 'cells') is C))
    I.prove('with the same ids', z3.BoolVal(all(o is me for o in objs)))


def svg(I):
    """requires: a readable netlist.  ensures: the diagram of the cell asked for, otherwise of the only top circuit, is made from a file written
    for it in a directory that exists, in the SVG asked for; none or several top circuits, or an unknown cell, are an error before anything is written"""
    from .cli import Args, Files, names
    tr = world(I)
    fs = Files(I)
    fs.install(I)
    names(I)
    install_join(I)
    inp, out = z3.Const('input', NAME), z3.Const('svg', NAME)
    n = 0
    for n in range(3):
        if n == 2 or I.branch(z3.Int('ntop') == n):
            break
    LOWER = z3.Function('lower', NAME, NAME)
    I.ghost['strmethod'] = lambda I, s, m, a: LOWER(s) if m == 'lower' else _no(m)
    I.ghost[('attr', 'Name')] = lambda I, x, nm: Builtin(nm, lambda I, a, k: LOWER(x)) if nm == 'lower' else _no(nm)
    tops = [Record('circuit', dict(name=z3.Const(f'top{i}', NAME))) for i in range(n)]
    cell = Record('circuit', dict(name=z3.Const('cell', NAME)))
    given = I.branch(z3.Const('cell given', B))
    known = I.branch(z3.Const('cell known', B)) if given else None
    ev = []

    class NL(Model):
        kind = 'Netlist'
        def m_read(self, I, p, rd=None):
            I.prove('the netlist given is read', p == inp if is_sym(p) else z3.BoolVal(False))
            ev.append('read')
        def m_top_circuits(self, I): return ListVal(list(tops))
        def m_top_circuit(self, I): return tops[0] if len(tops) == 1 else I.raise_('RuntimeError')
        def m_circuit_by_name(self, I, nm):
            I.prove('the cell asked for is looked up', nm == z3.Const('cell_arg', NAME) if is_sym(nm) else z3.BoolVal(False))
            return cell if known else None
    nl = NL()
    I.externals['klayout.db.Netlist'] = Builtin('Netlist', lambda I, a, k: nl)
    I.externals['klayout.db.NetlistSpiceReader'] = Builtin('reader', lambda I, a, k: Record('reader', {}))
    I.externals['sys.exit'] = Builtin('exit', lambda I, a, k: I.raise_('SystemExit'))
    I.externals['os.path.realpath'] = Builtin('realpath', lambda I, a, k: a[0])
    I.externals['os.path.dirname'] = Builtin('dirname', lambda I, a, k: Fmt((a[0],), 'dir'))
    I.externals['os.path.basename'] = Builtin('basename', lambda I, a, k: Fmt((a[0],), 'base'))

    def write(I, args, kw):
        f = I.repo(MOD, 'NetlistJSONWriter.write_json')
        v = I.bind(f[1] if isinstance(f, tuple) else f, args, kw).vars
        ev.append(('write', v))
        d = key(v['output_path'])
        I.prove('the directory of the file exists', fs_dir(fs, d))
        fs.put(v['output_path'], z3.Const('json', NAME))

    def run(I, args, kw):
        v = I.bind(I.repo('klayout_pex.netlistsvg.netlistsvg_runner', 'run_netlistsvg'), args, kw).vars
        ev.append(('run', v))
    I.contracts[W + '.write_json'] = write
    I.contracts['klayout_pex.netlistsvg.netlistsvg_runner:run_netlistsvg'] = run
    hasout = I.branch(z3.Const('svg given', B))
    a = Args(input_netlist_path=inp, cell_name=z3.Const('cell_arg', NAME) if given else None, output_svg_path=out if hasout else None,
             netlistsvg_exe_path=z3.Const('exe', NAME), preview_svg=False)
    cli = I.instantiate(I.repo(CLI, 'NetlistCLI'), [], {})
    try:
        I.call(I.getattr(cli, 'run_netlistsvg'), [a], {})
        err = None
    except PyRaise as e:
        err = e.exc
    bad = not known if given else n != 1
    I.prove('an error exactly if there is no such cell, or none was named and there is not exactly one top circuit', z3.BoolVal((err is not None) == bad))
    if err is not None:
        I.prove('nothing is made then', z3.BoolVal(all(e == 'read' for e in ev)))
        return
    want = cell if given else tops[0]
    w, r = [e[1] for e in ev if e[0] == 'write'], [e[1] for e in ev if e[0] == 'run']
    I.prove('one netlist file, then one run', z3.BoolVal([e if isinstance(e, str) else e[0] for e in ev] == ['read', 'write', 'run']))
    if len(w) != 1 or len(r) != 1:
        return
    w, r = w[0], r[0]
    I.prove('the circuit shown is the one wanted', z3.BoolVal(w['top_circuit'] is want and w['netlist'] is nl))
    I.prove('netlistsvg reads the file written', z3.BoolVal(key(r['yosys_json_netlist_path']) == key(w['output_path'])))
    I.prove('with the program given', r['exe_path'] == z3.Const('exe', NAME) if is_sym(r['exe_path']) else z3.BoolVal(False))
    if hasout:
        I.prove('the SVG is the one asked for', r['output_svg_path'] == out if is_sym(r['output_svg_path']) else z3.BoolVal(False))
    I.prove('log, netlist and diagram are different files', z3.BoolVal(len({key(r[x]) for x in ('yosys_json_netlist_path', 'output_svg_path', 'log_path')}) == 3))


def fs_dir(fs, d):
    made = [k for w, k in fs.log if w == 'makedirs']
    return z3.BoolVal(any(d.startswith(m + '/') and '/' not in d[len(m) + 1:] for m in made))


def _no(m): raise Undecided(m)


HARNESSES = [('ids', ids), ('ports', ports), ('cells', cells), ('module', module), ('svg', svg)]
