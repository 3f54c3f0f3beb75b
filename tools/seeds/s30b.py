PROP = 'C30'
F = 'klayout_pex/rcx25/extraction_reporter.py'
EDITS = [(F, "        a = node_id_to_node[element.node_a.node_id]\n        b = node_id_to_node[element.node_b.node_id]\n",
          "        nodes = list(node_id_to_node.values())\n        a = node_id_to_node[element.node_a.node_id]\n        b = nodes[element.node_b.node_id] if element.node_b.node_id < len(nodes) else node_id_to_node[element.node_b.node_id]\n")]
NEEDS = 'a network whose nodes are not listed in the order of their numbers'
BREAKS = 'a resistor is documented between other nodes than it connects'
DEMO = '''
from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
import klayout_pex_protobuf.kpex.result.pex_result_pb2 as pb
res = pb.RExtractionResult(); n = res.networks.add(net_name='A')
for i in (2, 1, 0):
    k = n.nodes.add(node_id=i, node_name='N%d' % i, layer_name='m'); k.location.kind = 1; k.location.point.x = i * 100
e = n.elements.add(resistance=1.0); e.node_a.node_id = 0; e.node_b.node_id = 2
r = ExtractionReporter('TOP', 0.001)
r.output_rex_result(res)
names = []
def walk(c):
    names.append(c.name())
    for x in c.each_sub_category(): walk(x)
for c in r.report.each_category(): walk(c)
assert 'N0 (m) \\u2194\\ufe0e N2 (m): 1.0 \\u03a9' in names, names
'''
