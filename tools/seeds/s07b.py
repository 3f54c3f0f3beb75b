PROP = 'C07'
F = 'klayout_pex/rcx25/netlist_expander.py'
EDITS = [(F, """        for key, _ in res_items:
            add_net_if_needed(key.net1)
            add_net_if_needed(key.net2)
""", """        for key, _ in res_items:
            if key.net1 not in name2net:
                add_net_if_needed(key.net1)
            elif key.net2 not in name2net:
                add_net_if_needed(key.net2)
        name2net.setdefault('', vsubs_net)
"""), (F, """        for idx, (key, res_value) in enumerate(res_items):
            net1 = name2net[key.net1]
            net2 = name2net[key.net2]
""", """        for idx, (key, res_value) in enumerate(res_items):
            net1 = name2net.get(key.net1, vsubs_net)
            net2 = name2net.get(key.net2, vsubs_net)
""")]
NEEDS = 'a resistor between two nodes both of which exist only in the extraction results'
BREAKS = 'such a resistor is connected to VSUBS'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
from klayout_pex.rcx25.extraction_results import *
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
c.create_net('A')
r = CellExtractionResults('TOP')
nw = r.r_extraction_result.networks.add()
for i, n in enumerate(['A.1', 'A.2']):
    x = nw.nodes.add(); x.node_id = i; x.net_name = n
e = nw.elements.add(); e.node_a.node_id = 0; e.node_b.node_id = 1; e.resistance = 5.0
o = RCX25NetlistExpander.expand(nl, 'TOP', ExtractionResults({'TOP': r}), True)
d = list(o.circuit_by_name('TOP').each_device())
assert len(d) == 1 and {d[0].net_for_terminal(t).name for t in 'AB'} == {'A.1', 'A.2'}
'''
