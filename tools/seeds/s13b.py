PROP = 'C13'
F = 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py'
EDITS = [(F, '                    if unshielded_region.is_empty():\n                        # TODO: log?\n                        continue\n', '                    if unshielded_region.is_empty():\n                        # TODO: log?\n                        break\n')]
NEEDS = 'several shapes of a layer of which an earlier one is wholly shielded'
BREAKS = 'the visible shapes after it are dropped'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.c.sidewall_and_fringe_extractor import SidewallAndFringeExtractor
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
class Rep:
    def __getattr__(self, n): return lambda *a, **k: None
t = tech_pb2.Technology()
t.process_parasitics.side_halo = 50.0
cc = t.process_parasitics.capacitance
def sw(l, c, o):
    x = cc.sidewalls.add(); x.layer_name, x.capacitance, x.offset = l, c, o
def ov(a, b, c):
    x = cc.overlaps.add(); x.top_layer_name, x.bottom_layer_name, x.capacitance = a, b, c
def so(a, b, c):
    x = cc.sideoverlaps.add(); x.in_layer_name, x.out_layer_name, x.capacitance = a, b, c
res = CellExtractionResults('TOP')
P = lambda x1, y1, x2, y2, n: kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(x1, y1, x2, y2)), {'net': n})
def visit(layers, inside, hood, length, net):
    v = SidewallAndFringeExtractor.PEXEdgeNeighborhoodVisitor(all_layer_names=layers, inside_layer_index=inside, dbu=0.001, tech_info=TechInfo(t, None),
        scale_ratio_to_fit_halo=False, results=res, report=Rep())
    v.on_edge(None, None, kdb.EdgeWithProperties(kdb.Edge(0, 0, length, 0), {'net': net}), hood)
ov('met3', 'met1', 50.0); so('met1', 'met3', 4000.0)
visit(['VSUBS', 'met1', 'met2', 'met3'], 1, [((0.0, 1000.0), {2: [P(0, 900, 1000, 2900, 'B')], 3: [P(0, 1000, 1000, 2000, 'C'), P(0, 4000, 1000, 6000, 'D')]})], 1000, 'A')
got = {k.net_outside for k, v in res.sideoverlap_table.items() for c in v}
assert got == {'D'}, got
'''
