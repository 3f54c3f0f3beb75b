PROP = 'C30'
EDITS = [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '            geometry_restorer = GeometryRestorer(self.to_original_trans(edge))\n', '            if self._restorer is None:\n                self._restorer = GeometryRestorer(self.to_original_trans(edge))\n            geometry_restorer = self._restorer\n'), ('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '            self.results = results\n            self.report = report\n\n            # NOTE: prepare', '            self.results = results\n            self.report = report\n            self._restorer: Optional[GeometryRestorer] = None\n\n            # NOTE: prepare')]
NEEDS = 'a layer with a second edge'
BREAKS = 'its shapes are documented at the place of the first edge'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
log = []
class Rep:
    def __getattr__(self, n): return lambda *a, **k: log.append((n, k))
t = tech_pb2.Technology()
t.process_parasitics.side_halo = 5.0
cc = t.process_parasitics.capacitance
x = cc.sidewalls.add(); x.layer_name, x.capacitance, x.offset = 'met1', 100.0, 0.0
x = cc.overlaps.add(); x.top_layer_name, x.bottom_layer_name, x.capacitance = 'met2', 'met1', 50.0
res = CellExtractionResults('TOP')
def layer(*bs):
    r = kdb.Region(); r.enable_properties()
    for b, n in bs:
        r.insert(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(*b)), {'net': n}))
    return r
ti = TechInfo(t, None)

from klayout_pex.rcx25.c.sidewall_and_fringe_extractor import SidewallAndFringeExtractor
m1 = layer(((0, 0, 1000, 200), 'A'), ((0, 500, 1000, 700), 'B'))
SidewallAndFringeExtractor(all_layer_names=['met1'], layer_regions_by_name={'met1': m1}, dbu=.001, scale_ratio_to_fit_halo=False, tech_info=ti, results=res, report=Rep()).extract()
ins = sorted((k['sidewall_cap'].key.net1, k['inside_edge'].y1, k['inside_edge'].y2) for n, k in log if n == 'output_sidewall')
assert ins == [('A', 200, 200), ('B', 500, 500)], ins
'''
