PROP = 'C06'
F = 'klayout_pex/klayout/netlist_reducer.py'
EDITS = [(F, "                if c_value < cap_threshold:\n", "                if round(c_value * 1e15, 4) <= round(cap_threshold * 1e15, 4) and c_value != cap_threshold:\n")]
NEEDS = 'a capacitor just above the threshold (relative difference below 1e-3)'
BREAKS = 'a capacitor that is not below the threshold is removed'
DEMO = '''
import klayout.db as kdb
from klayout_pex.klayout.netlist_reducer import NetlistReducer
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
a, b = c.create_net('A'), c.create_net('B')
k = kdb.DeviceClassCapacitor(); k.name = 'C'; nl.add(k)
for n in (a, b): c.connect_pin(c.create_pin(n.name), n)
d = c.create_device(k, 'x'); d.connect_terminal('A', a); d.connect_terminal('B', b); d.set_parameter('C', 0.050001e-15)
r = NetlistReducer.reduce(nl, 'TOP')
assert len(list(r.circuit_by_name('TOP').each_device())) == 1
'''
