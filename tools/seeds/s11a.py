PROP = 'C11'
F = 'klayout_pex/rcx25/c/overlap_extractor.py'
EDITS = [(F, "                    top_layer_name = self.layer_names[other_layer_index]\n",
 "                    if shielded_region.area() >= bottom_region.area():\n                        break  # nothing left to be seen\n\n                    top_layer_name = self.layer_names[other_layer_index]\n"),
 (F, "                    net_top = polygon_above.property('net')\n\n                    if net_top == net_bot:", "                    net_top = polygon_above.property('net')\n                    if net_top == net_bot:")]
NEEDS = 'a large plate in between that covers the bottom plate only in part'
BREAKS = 'plates above are dropped although part of them sees the bottom plate'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.c.overlap_extractor import OverlapExtractor
from klayout_pex.rcx25.extraction_results import *
class Spec: capacitance = 1000.0
class Tech:
    internal_substrate_layer_name = 'VSUBS'
    overlap_cap_by_layer_names = {t: {b: Spec for b in 'ABC'} for t in 'ABC'}
class Rep:
    def output_overlap(self, **k): pass
def reg(net, *b):
    r = kdb.Region(); r.insert(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(*b)), {'net': net})); r.enable_properties(); return r
regs = {'A': reg('a', 0, 0, 1000, 1000), 'B': reg('b', 500, -4000, 5000, 4000), 'C': reg('c', 0, 0, 1000, 1000)}
res = CellExtractionResults('TOP')
OverlapExtractor(list('ABC'), regs, 0.001, Tech(), res, Rep()).extract()
got = {(k.layer_top, k.layer_bot): sum(c.cap_value for c in v) for k, v in res.overlap_table.items()}
assert abs(got.get(('C', 'A'), 0) - 0.5) < 1e-9, got
'''
