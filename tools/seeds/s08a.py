PROP = 'C08'
F = 'klayout_pex/klayout/netlist_csv.py'
EDITS = [(F, "                    cap_femto = round(cap * 1e15, 2)\n", "                    cap_femto = float('%.4g' % (cap * 1e15))\n")]
NEEDS = 'a capacitance with more than four significant digits above 0.01 fF'
BREAKS = 'large capacitances lose their last digits'
DEMO = '''
import klayout.db as kdb, tempfile, os
from klayout_pex.klayout.netlist_csv import NetlistCSVWriter
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
k = kdb.DeviceClassCapacitor(); k.name = 'PEX_CAP'; nl.add(k)
d = c.create_device(k, 'x'); d.connect_terminal('A', c.create_net('A')); d.connect_terminal('B', c.create_net('B')); d.set_parameter('C', 12345.67e-15)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'a.csv')
    NetlistCSVWriter.write_csv(nl, 'TOP', p)
    v = open(p).read().split('\\n')[1].split(';')[-1]
assert abs(float(v) - 12345.67) < 0.006, v
'''
