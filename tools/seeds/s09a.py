PROP = 'C09'
F = 'klayout_pex/netlistsvg/netlist_json.py'
EDITS = [(F, "        if i is None:\n", "        if not i:\n")]
NEEDS = 'the first net of the diagram is used more than once'
BREAKS = 'the net that got id 0 gets a new id at every use, so its terminals are shown unconnected'
DEMO = '''
import klayout.db as kdb
from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
k = kdb.DeviceClassCapacitor(); k.name = 'C'; nl.add(k)
a, b = c.create_net('A'), c.create_net('B')
for i in '12':
    d = c.create_device(k, i); d.connect_terminal('A', a); d.connect_terminal('B', b); d.set_parameter('C', 1e-15)
x = list(NetlistJSONWriter().netlist_json_dict(nl, c)['modules']['TOP']['cells'].values())
assert x[0]['connections'] == x[1]['connections'], x
'''
