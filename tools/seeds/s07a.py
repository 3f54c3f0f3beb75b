PROP = 'C07'
F = 'klayout_pex/rcx25/netlist_expander.py'
EDITS = [(F, "name2net: Dict[str, kdb.Net] = {n.expanded_name(): n for n in top_circuit.each_net()}", "name2net: Dict[str, kdb.Net] = {n.name: n for n in top_circuit.each_net()}")]
NEEDS = 'an extracted parasitic on a net without a name ($3)'
BREAKS = 'the parasitic of an unnamed net is connected to a freshly created net instead'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
from klayout_pex.rcx25.extraction_results import *
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
for n in ['A', '', 'B']: c.create_net(n).cluster_id = 2
r = CellExtractionResults('TOP')
r.add_sidewall_cap(SidewallCap(SidewallKey('m', 'A', '$2'), 2.0, 1.0, 1.0, None))
o = RCX25NetlistExpander.expand(nl, 'TOP', ExtractionResults({'TOP': r}), True)
names = sorted(n.expanded_name() for n in o.circuit_by_name('TOP').each_net())
assert names == sorted(['A', '$2', 'B', 'VSUBS', 'FC_GND']), names
'''
