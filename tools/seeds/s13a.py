PROP = 'C13'
F = 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py'
EDITS = [(F, '                        distance, nearby_polygon = find_polygon_with_nearest_edge(polygons_on_same_layer=polygons)\n\n                        if nearest_distance is None or \\\n                           distance < nearest_distance:\n                            nearest_distance = distance\n                            nearest_lateral_edge = nearest_edge(nearby_polygon)\n                    elif',
 '                        distance, nearby_polygon = find_polygon_with_nearest_edge(polygons_on_same_layer=polygons)\n                        nearest_distance = distance\n                        nearest_lateral_edge = nearest_edge(nearby_polygon)\n                    elif')]
NEEDS = 'an edge that faces another shape and, farther away, an arm of its own shape'
BREAKS = 'shapes of other layers beyond the facing shape are not shielded'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.c.sidewall_and_fringe_extractor import SidewallAndFringeExtractor
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
class Rep:
    def __getattr__(self, n): return lambda *a, **k: None
t = tech_pb2.Technology()
t.process_parasitics.side_halo = 50.0
cc = t.process_parasitics.capacitance
def sw(l, c, o):
    x = cc.sidewalls.add(); x.layer_name, x.capacitance, x.offset = l, c, o
def ov(a, b, c):
    x = cc.overlaps.add(); x.top_layer_name, x.bottom_layer_name, x.capacitance = a, b, c
def so(a, b, c):
    x = cc.sideoverlaps.add(); x.in_layer_name, x.out_layer_name, x.capacitance = a, b, c
res = CellExtractionResults('TOP')
P = lambda x1, y1, x2, y2, n: kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(x1, y1, x2, y2)), {'net': n})
def visit(layers, inside, hood, length, net):
    v = SidewallAndFringeExtractor.PEXEdgeNeighborhoodVisitor(all_layer_names=layers, inside_layer_index=inside, dbu=0.001, tech_info=TechInfo(t, None),
        scale_ratio_to_fit_halo=False, results=res, report=Rep())
    v.on_edge(None, None, kdb.EdgeWithProperties(kdb.Edge(0, 0, length, 0), {'net': net}), hood)
ov('met2', 'met1', 50.0); so('met1', 'met2', 4000.0)
visit(['VSUBS', 'met1', 'met2'], 1, [((0.0, 1000.0), {1: [P(0, 1000, 1000, 1900, 'B')], 2: [P(0, 2000, 1000, 4000, 'C')], 3: [P(0, 6000, 1000, 9000, 'A')]})], 1000, 'A')
got = {k.net_outside: c.cap_value for k, v in res.sideoverlap_table.items() for c in v}
assert not got, got
'''
