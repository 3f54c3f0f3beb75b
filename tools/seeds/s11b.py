PROP = 'C11'
F = 'klayout_pex/rcx25/c/overlap_extractor.py'
EDITS = [(F, "        for idx, (layer_name, layer_region) in enumerate(self.layer_regions_by_name.items()):\n            ovl_visitor",
 "        inside_layers = [r for r in self.layer_regions_by_name.values() if not r.is_empty()]\n        for idx, layer_region in enumerate(inside_layers):\n            ovl_visitor")]
NEEDS = 'a layer of the stack without any shape, below layers with shapes'
BREAKS = 'layers after an empty one are extracted under the name of the layer before'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.c.overlap_extractor import OverlapExtractor
from klayout_pex.rcx25.extraction_results import *
class Spec: capacitance = 1000.0
class Tech:
    internal_substrate_layer_name = 'VSUBS'
    overlap_cap_by_layer_names = {t: {b: Spec for b in 'ABC'} for t in 'ABC'}
class Rep:
    def output_overlap(self, **k): pass
def reg(net, *b):
    r = kdb.Region(); r.insert(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(*b)), {'net': net})); r.enable_properties(); return r
regs = {'A': kdb.Region(), 'B': reg('b', 0, 0, 1000, 1000), 'C': reg('c', 0, 0, 1000, 1000)}
res = CellExtractionResults('TOP')
OverlapExtractor(list('ABC'), regs, 0.001, Tech(), res, Rep()).extract()
got = {(k.layer_top, k.layer_bot): sum(c.cap_value for c in v) for k, v in res.overlap_table.items()}
assert got.keys() == {('C', 'B')} and abs(got[('C', 'B')] - 1.0) < 1e-9, got
'''
