PROP = 'C05'
F = 'klayout_pex/klayout/netlist_expander.py'
EDITS = [(F, "            for j in range(0, cap_matrix.dimension):\n                if i == j:\n                    continue\n                cap_value = -row[j]  # off-diagonals are always stored as negative values\n",
 "            for j in range(0, cap_matrix.dimension):\n                if i == j:\n                    continue\n                if row[j] >= 0:\n                    continue  # no coupling\n                cap_value = -row[j]  # off-diagonals are always stored as negative values\n")]
NEEDS = 'a positive off-diagonal cell (numerical noise of the solver)'
BREAKS = 'the remainder of a row is computed without its positive off-diagonal cells'
DEMO = '''
import klayout.db as kdb
from klayout_pex.klayout.netlist_expander import NetlistExpander
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
for n in 'AB': c.create_net(n)
m = CapacitanceMatrix(['g0_VSUBS', 'g1_A', 'g2_B'], [[4., -2., -1.], [-2., 3., .5], [-1., .5, 2.]])
o = NetlistExpander.expand(nl, 'TOP', m, True)
got = {d.name: d.parameter('C') for d in o.circuit_by_name('TOP').each_device() if d.device_class().name == 'PEX_CAP'}
assert got == {'Cext_0_1': 2., 'Cext_0_2': 1., 'Cext_1_1': 1.5, 'Cext_2_2': 1.5}, got
'''
