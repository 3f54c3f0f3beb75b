from .netlist import *

MOD = 'klayout_pex.klayout.netlist_reducer'
ASSUMPTIONS = ['klayout.db.Netlist.dup/combine_devices, Circuit.each_device/remove_device as documented']


def reduce(I):
    """requires: a netlist.  ensures: the result is a copy with devices combined, from whose top circuit exactly the
    capacitors (of either class) with C < threshold are removed; argument untouched"""
    nl, tr, otr = setup_netlist(I)
    thr = I.fresh('threshold', R)
    want = lambda I, k: z3.And(kind_is(KIND(k), 'Capacitor'), PARAM(k) < thr)
    I.loop_specs = [AutoTrace('devices', tr, removal_loops(tr, want))]
    res = I.call(I.repo(MOD, 'NetlistReducer.reduce'), [nl, 'TOP'], {'cap_threshold': thr})
    I.prove('the result is a copy of the argument', z3.BoolVal(isinstance(res, Netlist) and res.orig is nl))
    I.prove('the argument is not modified', z3.BoolVal(otr.events == []))
    ev = tr.events
    I.prove('devices are combined first', z3.BoolVal(bool(ev) and ev[0][0] == 'combine'))
    loops = [e for e in ev if e[0] == 'loop']
    I.prove('one pass over the devices removes them', z3.BoolVal(len(loops) == 1 and len(ev) == 2))
    if len(loops) == 1:
        I.prove('the pass covers every device', zint(loops[0][2].it.n) == res.circ.nd)


def default_threshold(I):
    """the default threshold is 0.05 fF"""
    nl, tr, otr = setup_netlist(I)
    thr = z3.Q(5, 10 ** 17)
    want = lambda I, k: z3.And(kind_is(KIND(k), 'Capacitor'), PARAM(k) < thr)
    I.loop_specs = [AutoTrace('devices', tr, removal_loops(tr, want))]
    I.call(I.repo(MOD, 'NetlistReducer.reduce'), [nl, 'TOP'])
    I.prove('one pass', z3.BoolVal(len([e for e in tr.events if e[0] == 'loop']) == 1))


HARNESSES = [('reduce', reduce), ('default_threshold', default_threshold)]
