PROP = 'C30'
F = 'klayout_pex/rcx25/extraction_reporter.py'
EDITS = [(F, "        if element.resistance >= 0.001:\n            ohm = f\"{round(element.resistance, 3)} Ω\"\n        else:\n            ohm = f\"{round(element.resistance * 1000.0, 6)} mΩ\"\n",
          "        if element.resistance >= 0.001:\n            ohm = f\"{round(element.resistance, 3)} Ω\"\n        else:\n            ohm = f\"{round(element.resistance, 6) * 1000.0} mΩ\"\n")]
NEEDS = 'a resistance below one microohm'
BREAKS = 'it is documented as zero'
DEMO = '''
from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
import klayout_pex_protobuf.kpex.result.pex_result_pb2 as pb
res = pb.RExtractionResult(); n = res.networks.add(net_name='A')
for i in (0, 1):
    k = n.nodes.add(node_id=i, node_name='N%d' % i, layer_name='m'); k.location.kind = 1; k.location.point.x = i * 100
e = n.elements.add(resistance=2.5e-7); e.node_a.node_id = 0; e.node_b.node_id = 1
r = ExtractionReporter('TOP', 0.001)
r.output_rex_result(res)
names = []
def walk(c):
    names.append(c.name())
    for x in c.each_sub_category(): walk(x)
for c in r.report.each_category(): walk(c)
assert any(x.endswith(': 0.00025 m\\u03a9') for x in names), names
'''
