PROP = 'C09'
F = 'klayout_pex/netlistsvg/netlist_json.py'
EDITS = [(F, "            device_name = f\"gnd{'' if gnd_counter == 0 else gnd_counter}\"\n            gnd_counter += 1\n", "            gnd_counter += 1\n            device_name = f\"gnd{'' if gnd_counter <= 2 else gnd_counter}\"\n")]
NEEDS = 'a netlist with both VSUBS and GND'
BREAKS = 'the ground symbol of GND replaces the one of VSUBS'
DEMO = '''
import klayout.db as kdb
from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
k = kdb.DeviceClassCapacitor(); k.name = 'C'; nl.add(k)
d = c.create_device(k, '1'); d.connect_terminal('A', c.create_net('GND')); d.connect_terminal('B', c.create_net('VSUBS')); d.set_parameter('C', 1e-15)
x = NetlistJSONWriter().netlist_json_dict(nl, c)['modules']['TOP']['cells'].values()
assert sorted(v['attributes']['value'] for v in x if v['type'] == 'gnd') == ['GND', 'VSUBS'], x
'''
