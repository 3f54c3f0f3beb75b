PROP = 'C14'
F = 'klayout_pex/rcx25/extractor.py'
EDITS = [(F, 'layer_regions_by_name[canonical_layer_name] += all_layer_shapes', 'layer_regions_by_name[canonical_layer_name] = all_layer_shapes')]
NEEDS = 'a metal split into two layers of the process stack (e.g. plain and capacitor part), both with shapes'
BREAKS = 'only the last part of a split metal layer is extracted'
DEMO = '''
import klayout.db as kdb, types
from klayout_pex.rcx25.extractor import RCX25Extractor
from klayout_pex.rcx25.extraction_results import CellExtractionResults
from klayout_pex.rcx25.pex_mode import PEXMode
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
t = tech_pb2.Technology()
t.process_parasitics.side_halo = 8.0
for nm, d in (('m_ncap', 20), ('m_cap', 220)):
    x = t.lvs_computed_layers.add()
    x.layer_info.name, x.original_layer_name = nm, 'm'
    x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = 70, d
    l = t.process_stack.layers.add()
    l.name, l.layer_type = nm, ps.ProcessStackInfo.LAYER_TYPE_METAL
    l.metal_layer.z = 1
s = t.process_parasitics.capacitance.substrates.add()
s.layer_name, s.area_capacitance, s.perimeter_capacitance = 'm', 10.0, 10.0
class Ctx:
    dbu = 0.001
    tech = None
    annotated_top_cell = types.SimpleNamespace(name='TOP')
    lvsdb = types.SimpleNamespace(netlist=lambda: None)
    def top_cell_bbox(self): return kdb.Box(0, 0, 100000, 100000)
    def shapes_of_layer(self, gds_pair):
        r = kdb.Region(); r.enable_properties()
        x = 0 if gds_pair[1] == 20 else 50000
        r.insert(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(x, 0, x + 10000, 10000)), {'net': 'N%d' % gds_pair[1]}))
        return r
class Rep:
    def __getattr__(self, n): return lambda *a, **k: None
rx = RCX25Extractor(pex_context=Ctx(), pex_mode=PEXMode.CC, scale_ratio_to_fit_halo=False, delaunay_amax=0, delaunay_b=1, tech_info=TechInfo(t, None), report_path='')
res = CellExtractionResults('TOP')
rx.extract_cell(results=res, report=Rep())
assert {k.net_top for k in res.overlap_table} == {'N20', 'N220'}, res.overlap_table
'''
