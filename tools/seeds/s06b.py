PROP = 'C06'
F = 'klayout_pex/klayout/netlist_reducer.py'
EDITS = [(F, "        for d in devices_to_remove:\n", "        for d in {d.expanded_name(): d for d in devices_to_remove}.values():\n")]
NEEDS = 'two capacitors of the same name below the threshold'
BREAKS = 'only one of several equally named capacitors is removed'
DEMO = '''
import klayout.db as kdb
from klayout_pex.klayout.netlist_reducer import NetlistReducer
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
k = kdb.DeviceClassCapacitor(); k.name = 'C'; nl.add(k)
ns = [c.create_net(x) for x in 'ABCD']
for n in ns: c.connect_pin(c.create_pin(n.name), n)
for a, b in ((0, 1), (2, 3)):
    d = c.create_device(k, 'x'); d.connect_terminal('A', ns[a]); d.connect_terminal('B', ns[b]); d.set_parameter('C', 1e-18)
r = NetlistReducer.reduce(nl, 'TOP')
assert len(list(r.circuit_by_name('TOP').each_device())) == 0
'''
