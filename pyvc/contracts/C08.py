from .netlist import *

MOD = 'klayout_pex.klayout.netlist_csv'
ASSUMPTIONS = ['klayout.db netlist API as documented (contracts/netlist.py); expanded_name() is never empty',
               'floats treated as exact, round(x, 2) is an uninterpreted function']
TERM = {t: z3.Function(f'terminal_{t}', Z, NAME) for t in 'AB'}
ROUND2 = z3.Function('round2', R, R)
NAMED = z3.Function('class_is_PEX_CAP', Z, B)
PAR = {'C': PARAM, 'A': z3.Function('device_param_A', Z, R), 'P': z3.Function('device_param_P', Z, R)}


class ClsName(Model):
    kind = 'ClassName'

    def __init__(self, i):
        super().__init__()
        self.i = i

    def eq(self, I, o):
        if o == 'PEX_CAP':
            return NAMED(self.i)
        raise Undecided(f'device class name compared with {o!r}')


class CsvClass(DevClass):
    def __init__(self, i):
        super().__init__(KIND(i))
        self.i = i
        self.attrs['name'] = ClsName(i)

    def m_parameter_definitions(self, I):
        if not I.branch(kind_is(KIND(self.i), 'Capacitor')):
            return ListVal([])      # parameters of other devices are not modelled
        return ListVal([Record('param', {'name': p, 'id': Builtin('id', lambda I, a, k, p=p: p)}) for p in PAR])


class CsvCircuit(Circuit):
    def devclass(self, i): return CsvClass(i)

    def param(self, I, i, p):
        if p not in PAR:
            raise Undecided(f'parameter {p!r}')
        return PAR[p](i)

    def terminal(self, I, i, t):
        if t not in TERM:
            raise Undecided('terminal')
        return NetM(TERM[t](i))


def csv(I):
    """requires: a netlist.  ensures: the file holds the header and, for exactly the devices of the top circuit that are
    capacitors of class PEX_CAP, one line with the device, its two nets and its capacitance in fF"""
    nl, tr, otr = setup_netlist(I)
    nl.trace = tr
    nonempty = z3.Function('nonempty', NAME, B)
    I.ghost['mkcircuit'] = lambda I, nl: CsvCircuit(I, nl, tr)
    xn, pn = z3.Function('devxname', Z, NAME), z3.Function('devname', Z, NAME)
    I.ghost['round'] = lambda I, x, n: ROUND2(zreal(x)) if n == 2 else z3.Function(f'round_{n}', R, R)(zreal(x))
    install_out_file(I, tr)

    def check(I, L, k, ev):
        want = z3.And(kind_is(KIND(k), 'Capacitor'), NAMED(k))
        t = text_of(ev)
        if not t:
            I.prove('an extracted capacitor is listed', z3.Not(want))
            return
        I.prove('only extracted capacitors are listed', want)
        if not (len(t) == 8 and [t[1], t[3], t[5], t[7]] == [';', ';', ';', '\n']):
            I.prove('one line with four cells per capacitor', z3.BoolVal(False))
            return
        val = lambda p: p.v if isinstance(p, Fmt) and p.spec is None else p
        d, a, b, c = [val(p) for p in t[0::2]]
        for what, got, exp in (('device', d, xn(k)), ('net 1', a, TERM['A'](k)), ('net 2', b, TERM['B'](k))):
            if not (is_sym(got) and got.sort() == NAME):
                raise Undecided(f'{what}: {got!r}')
            I.prove(f'{what} is named', got == exp)
        if not is_num(c):
            raise Undecided('capacitance text')
        I.prove('capacitance in fF, two decimals', zreal(c) == ROUND2(PARAM(k) * z3.RealVal(10 ** 15)))
    old = Dev.m_expanded_name

    def expanded(self, I):
        I.assume(nonempty(xn(self.i)))
        return xn(self.i)
    Dev.m_expanded_name = expanded
    try:
        I.loop_specs = [AutoTrace('devices', tr, check)]
        I.call(I.repo(MOD, 'NetlistCSVWriter.write_csv'), [nl, 'TOP', 'out.csv'])
    finally:
        Dev.m_expanded_name = old
    ev = list(tr.events)
    I.prove('writes the file it was given', z3.BoolVal([e[1] for e in ev if e[0] == 'open'] == ['out.csv']))
    ev = [e for e in ev if e[0] != 'open']
    I.prove('one pass over the devices, after the header, nothing after it', z3.BoolVal([e[0] for e in ev].count('loop') == 1 and ev[-1][0] == 'loop'))
    I.prove('header', z3.BoolVal(text_of(ev[:-1]) == ['Device;Net1;Net2;Capacitance [fF]\n']))
    if ev and ev[-1][0] == 'loop':
        I.prove('every device is looked at', zint(ev[-1][2].it.n) == nl.circ.nd)


HARNESSES = [('csv', csv)]
