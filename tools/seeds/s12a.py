PROP = 'C12'
F = 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py'
EDITS = [(F, '            avg_length = edge_interval[1] - edge_interval[0]\n', '            avg_length = edge.length()\n')]
NEEDS = 'an edge that faces its neighbor only along a part of it'
BREAKS = 'the sidewall capacitance is that of the whole edge'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.c.sidewall_and_fringe_extractor import SidewallAndFringeExtractor
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
class Rep:
    def __getattr__(self, n): return lambda *a, **k: None
t = tech_pb2.Technology()
t.process_parasitics.side_halo = 50.0
cc = t.process_parasitics.capacitance
def sw(l, c, o):
    x = cc.sidewalls.add(); x.layer_name, x.capacitance, x.offset = l, c, o
def ov(a, b, c):
    x = cc.overlaps.add(); x.top_layer_name, x.bottom_layer_name, x.capacitance = a, b, c
def so(a, b, c):
    x = cc.sideoverlaps.add(); x.in_layer_name, x.out_layer_name, x.capacitance = a, b, c
res = CellExtractionResults('TOP')
P = lambda x1, y1, x2, y2, n: kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(x1, y1, x2, y2)), {'net': n})
def visit(layers, inside, hood, length, net):
    v = SidewallAndFringeExtractor.PEXEdgeNeighborhoodVisitor(all_layer_names=layers, inside_layer_index=inside, dbu=0.001, tech_info=TechInfo(t, None),
        scale_ratio_to_fit_halo=False, results=res, report=Rep())
    v.on_edge(None, None, kdb.EdgeWithProperties(kdb.Edge(0, 0, length, 0), {'net': net}), hood)
sw('met1', 100.0, 0.0)
visit(['VSUBS', 'met1'], 1, [((0.0, 400.0), {}), ((400.0, 1000.0), {1: [P(400, 500, 1000, 900, 'B')]})], 1000, 'A')
got = [c.cap_value for v in res.sidewall_table.values() for c in v]
assert len(got) == 1 and abs(got[0] - 0.06) < 1e-9, got
'''
