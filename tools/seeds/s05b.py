PROP = 'C05'
F = 'klayout_pex/klayout/netlist_expander.py'
EDITS = [(F, "pattern = re.compile(r'^g\\d+_(.*)$')", "pattern = re.compile(r'^(?:g\\d+_)+(.*)$')")]
NEEDS = 'a net whose own name looks like a numbered prefix (g3_x)'
BREAKS = 'the conductor of net g3_x is connected to net x'
DEMO = '''
import klayout.db as kdb
from klayout_pex.klayout.netlist_expander import NetlistExpander
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
for n in ['g3_x', 'x']: c.create_net(n)
m = CapacitanceMatrix(['g0_VSUBS', 'g1_g3_x'], [[1., -1.], [-1., 1.]])
o = NetlistExpander.expand(nl, 'TOP', m, True)
d = [d for d in o.circuit_by_name('TOP').each_device() if d.device_class().name == 'PEX_CAP'][0]
assert d.net_for_terminal('B').name == 'g3_x'
'''
