"""assumed contract of klayout.db netlists: a circuit is its set of net names and its list of devices.
Net names of a circuit are unique (create_net obliges the caller to that), so a net is identified with its name."""
from .common import *

NAME = z3.DeclareSort('Name')
NSET = z3.ArraySort(NAME, B)
CLASSES = ['Resistor', 'ResistorWithBulk', 'Capacitor', 'CapacitorWithBulk', 'Inductor', 'BJT3Transistor', 'BJT4Transistor',
           'Diode', 'MOS3Transistor', 'MOS4Transistor']
BASES = {'Resistor': ['Resistor', 'ResistorWithBulk'], 'Capacitor': ['Capacitor', 'CapacitorWithBulk'],
         'BJT3Transistor': ['BJT3Transistor', 'BJT4Transistor'], 'MOS3Transistor': ['MOS3Transistor', 'MOS4Transistor']}
KLAY = 'klayout.db.DeviceClass'
KIND = z3.Function('device_kind', Z, Z)
PARAM = z3.Function('device_param_C', Z, R)


def kind_is(k, n):
    return z3.Or(*[k == CLASSES.index(c) for c in BASES.get(n, [n])])


class NetM(Model):
    kind = 'Net'

    def __init__(self, name):
        super().__init__()
        self.n = name

    def __repr__(self): return f'<net {self.n}>'
    def m_expanded_name(self, I): return self.n
    def a_name(self, I): return z3.Function('plain_name', NAME, NAME)(self.n)
    def eq(self, I, o): return (self.n == o.n) if isinstance(o, NetM) else False


class DevClass(Model):
    """device class object made by the code (created) or of an existing device (kind symbolic)"""
    kind = 'DevClass'

    def __init__(self, k, created=None):
        super().__init__()
        self.k, self.created, self.attrs = k, created, {}

    def setattr(self, I, name, v):
        I.note_write(self)
        self.attrs[name] = v

    def getattr(self, I, name):
        if name == '__class__':
            return ClassOf(self.k)
        if name in self.attrs:
            return self.attrs[name]
        return super().getattr(I, name)

    def isinst(self, I, d):
        d = d.split('.')[-1]
        if d == 'DeviceClass':
            return True
        if d.startswith('DeviceClass') and d[11:] in CLASSES:
            return kind_is(self.k, d[11:])
        return None


class ClassOf(Model):
    kind = 'ClassOf'

    def __init__(self, k):
        super().__init__()
        self.k = k

    def eq(self, I, o):
        if isinstance(o, External) and o.dotted.startswith(KLAY) and o.dotted[len(KLAY):] in CLASSES:
            return self.k == CLASSES.index(o.dotted[len(KLAY):])
        if isinstance(o, Builtin) and o.name.startswith('DeviceClass') and o.name[11:] in CLASSES:
            return self.k == CLASSES.index(o.name[11:])
        raise Undecided('device class compared with something else')


class Dev(Model):
    """existing device i of the circuit"""
    kind = 'Dev'

    def __init__(self, circ, i):
        super().__init__()
        self.circ, self.i = circ, zint(i)

    def __repr__(self): return f'<device {self.i}>'
    def m_device_class(self, I):
        I.assume(z3.And(KIND(self.i) >= 0, KIND(self.i) < len(CLASSES)))
        return self.circ.devclass(self.i)
    def a_name(self, I): return z3.Function('devname', Z, NAME)(self.i)
    def m_expanded_name(self, I): return z3.Function('devxname', Z, NAME)(self.i)
    def m_id(self, I): return self.i

    def m_parameter(self, I, p):
        return self.circ.param(I, self.i, p)

    def m_net_for_terminal(self, I, t): return self.circ.terminal(I, self.i, t)
    def eq(self, I, o): return (self.i == o.i) if isinstance(o, Dev) else False


class NewDev(Model):
    """device created by the code"""
    kind = 'NewDev'

    def __init__(self, circ, cls, name):
        super().__init__()
        self.circ, self.cls, self.dname, self.term, self.par = circ, cls, name, {}, {}

    def __repr__(self): return f'<new {self.dname} {self.term} {self.par}>'
    def a_name(self, I): return self.dname

    def m_connect_terminal(self, I, t, net):
        I.note_write(self)
        if not isinstance(net, NetM):
            raise Undecided('terminal net')
        self.term[t] = net

    def m_set_parameter(self, I, p, v):
        I.note_write(self)
        self.par[p] = v


class Live(Model):
    """each_device(): a live iterator over the circuit"""
    kind = 'Live'

    def __init__(self, circ):
        super().__init__()
        self.circ = circ

    def iterate(self, I): return IterSpec('devices.live', self.circ.nd, lambda I, i: Dev(self.circ, i), base=self)
    def frozen(self, I): return SymSeq('devices', self.circ.nd, lambda I, i: Dev(self.circ, i))


class Circuit(Model):
    kind = 'Circuit'

    def __init__(self, I, nl, trace, devices=True):
        super().__init__()
        self.nl, self.trace = nl, trace
        self.names = I.fresh('net_names', NSET)
        self.nd = I.fresh('ndevices', Z)
        I.assume(self.nd >= 0)
        self.start = self.names
        self.made = {}

    def devclass(self, i): return DevClass(KIND(i))

    def param(self, I, i, p):
        if p == 'C':
            return PARAM(i)
        raise Undecided(f'parameter {p!r}')

    def terminal(self, I, i, t): raise Undecided('terminals of existing devices')

    def m_each_device(self, I): return Live(self)

    def m_remove_device(self, I, d):
        if not isinstance(d, Dev):
            raise Undecided('removes something else')
        live = any(L[1].tag == 'devices.live' for L in I.loop_stack if L[1] is not None)
        I.obligation('devices are not removed while the circuit is being iterated', z3.BoolVal(not live))
        self.trace.emit(I, 'remove', d.i)

    def name_term(self, I, name):
        if is_sym(name) and name.sort() == NAME:
            return name
        if isinstance(name, StrCat) and len(name.parts) == 1 and is_sym(name.parts[0]):
            return self.name_term(I, name.parts[0])
        if isinstance(name, str):
            return I.literal(name, NAME)
        raise Undecided(f'net name {name!r}')

    def m_create_net(self, I, name=''):
        t = self.name_term(I, name)
        I.obligation('no second net of the same name is created', z3.Not(self.names[t]))
        I.note_write(self)
        self.names = z3.Store(self.names, t, True)
        return NetM(t)

    def m_net_by_name(self, I, name):
        t = self.name_term(I, name)
        return NetM(t) if I.branch(self.names[t]) else None

    def m_each_net(self, I):
        n, names = I.fresh('nnets', Z), self.names
        at = z3.Function(f'net_at_{n}', Z, NAME)
        pos = z3.Function(f'net_pos_{n}', NAME, Z)
        I.assume(n >= 0)
        circ = self

        class Nets(SymSeq):
            def find_key(self, I, key, x):
                j = z3.Int('j?net')
                kv = I.pure_val(lambda: key(I, j))
                if not (is_sym(kv) and kv.eq(at(j))):
                    return None
                x = circ.name_term(I, x)
                I.assume(z3.Implies(names[x], z3.And(pos(x) >= 0, pos(x) < n, at(pos(x)) == x)))
                return names[x], pos(x)

        def get(I, i):
            i = zint(i)
            I.assume(z3.Implies(z3.And(i >= 0, i < n), names[at(i)]))
            return NetM(at(i))
        s = Nets('nets', n, get)
        s.names = names
        return s

    def m_create_device(self, I, cls, name=''):
        if not isinstance(cls, DevClass) or cls.created is None:
            raise Undecided('device class of a new device')
        I.obligation('the class of a new device has been added to the netlist', z3.BoolVal(cls in self.nl.added))
        d = NewDev(self, cls, name)
        self.trace.emit(I, 'device', d)
        return d

    def snapshot(self): return None


class Netlist(Model):
    kind = 'Netlist'

    def __init__(self, I, trace, top, orig=None, calls=None):
        super().__init__()
        self.trace, self.top, self.orig, self.added, self.circ = trace, top, orig, [], None
        self.calls = [] if calls is None else calls

    def m_dup(self, I):
        return Netlist(I, I.ghost['trace'], self.top, orig=self)

    def m_circuit_by_name(self, I, name):
        I.prove('the circuit of the given name is used', z3.BoolVal(name == self.top))
        if self.circ is None:
            I.note_write(self)
            self.circ = I.ghost['mkcircuit'](I, self)
        return self.circ

    def m_add(self, I, cls):
        I.note_write(self)
        self.added.append(cls)

    def m_combine_devices(self, I):
        self.trace.emit(I, 'combine')


def setup_netlist(I):
    I.ghost[('truth', 'Name')] = lambda x: z3.Function('nonempty', NAME, B)(x)
    tr = I.ghost['trace'] = Trace()
    otr = I.ghost['otrace'] = Trace()
    I.ghost['mkcircuit'] = lambda I, nl: Circuit(I, nl, nl.trace)
    for i, c in enumerate(CLASSES):
        I.externals[KLAY + c] = Builtin('DeviceClass' + c, (lambda i, c: lambda I, a, k: DevClass(z3.IntVal(i), created=c))(i, c))
    _isinst(I)
    nl = Netlist(I, otr, 'TOP')
    I.roots = [tr, otr]
    return nl, tr, otr


def _isinst(I):
    """isinstance(x, kdb.DeviceClassX) where DeviceClassX is modelled as a constructor"""


def removal_loops(tr, keep_going):
    """contract of every loop over the devices: iteration i removes device i or does nothing, as keep_going says"""
    def check(I, L, k, ev):
        rem = [e for e in ev if e[0] == 'remove']
        I.prove('only removals happen while devices are filtered', z3.BoolVal(len(rem) == len(ev)))
        want = keep_going(I, k)
        if len(rem) > 1:
            I.prove('a device is removed at most once', z3.BoolVal(False))
        if rem:
            I.prove('a removed device is the one looked at, and is to be removed', z3.And(rem[0][1] == k, want))
        else:
            I.prove('a device that is to be removed is removed', z3.Not(want))
    return check


__all__ = [n for n in globals() if not n.startswith('__')]
