PROP = 'C30'
EDITS = [('klayout_pex/rcx25/c/overlap_extractor.py', '                    overlap_area = top_region.__and__(bottom_region) - shielded_region\n\n                    overlap_area_um2 = overlap_area.area() * self.dbu ** 2\n', '                    overlap_area = top_region.__and__(bottom_region)\n\n                    overlap_area_um2 = (overlap_area - shielded_region).area() * self.dbu ** 2\n')]
NEEDS = 'an overlap partly shielded by a shape between'
BREAKS = 'the area documented is not the one that counts'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
log = []
class Rep:
    def __getattr__(self, n): return lambda *a, **k: log.append((n, k))
t = tech_pb2.Technology()
t.process_parasitics.side_halo = 5.0
cc = t.process_parasitics.capacitance
x = cc.sidewalls.add(); x.layer_name, x.capacitance, x.offset = 'met1', 100.0, 0.0
x = cc.overlaps.add(); x.top_layer_name, x.bottom_layer_name, x.capacitance = 'met2', 'met1', 50.0
res = CellExtractionResults('TOP')
def layer(*bs):
    r = kdb.Region(); r.enable_properties()
    for b, n in bs:
        r.insert(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(*b)), {'net': n}))
    return r
ti = TechInfo(t, None)

from klayout_pex.rcx25.c.overlap_extractor import OverlapExtractor
ls = {'met1': layer(((0, 0, 1000, 1000), 'A')), 'mid': layer(((0, 0, 400, 1000), 'C')), 'met2': layer(((0, 0, 1000, 1000), 'B'))}
OverlapExtractor(all_layer_names=list(ls), layer_regions_by_name=ls, dbu=.001, tech_info=ti, results=res, report=Rep()).extract()
d = [k for n, k in log if n == 'output_overlap']
assert len(d) == 1 and abs(d[0]['overlap_cap'].cap_value - .03) < 1e-9, d
assert d[0]['overlap_area'].area() == 600000, d[0]['overlap_area'].area()
'''
