PROP = 'C10'
F = 'klayout_pex/rcx25/extraction_results.py'
EDITS = [(F, "        for network in self.r_extraction_result.networks:\n            node_by_id: Dict[int, r_network_pb2.RNode] = {n.node_id: n for n in network.nodes}\n",
 "        node_by_id: Dict[int, r_network_pb2.RNode] = {}\n        for network in self.r_extraction_result.networks:\n            for n in network.nodes:\n                node_by_id.setdefault(n.node_id, n)\n")]
NEEDS = 'two resistor networks in one cell (node ids start over in each)'
BREAKS = 'resistors of the second network are attributed to nodes of the first'
DEMO = '''
from klayout_pex.rcx25.extraction_results import *
r = CellExtractionResults('TOP')
for p in 'AB':
    nw = r.r_extraction_result.networks.add()
    for i in range(2):
        x = nw.nodes.add(); x.node_id = i; x.net_name = f'{p}.{i}'
    e = nw.elements.add(); e.node_a.node_id = 0; e.node_b.node_id = 1; e.resistance = 5.0
s = ExtractionResults({'TOP': r}).summarize().resistances
assert {(k.net1, k.net2): v for k, v in s.items()} == {('A.0', 'A.1'): 5.0, ('B.0', 'B.1'): 5.0}, s
'''
