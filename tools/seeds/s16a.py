PROP = 'C16'
F = 'klayout_pex/klayout/lvsdb_extractor.py'
EDITS = [(F, 'if layer.count() >= 1:', 'if layer.count() > 1:')]
NEEDS = 'an LVS layer with exactly one polygon'
BREAKS = 'the layer is not extracted at all'
COMMON = '''
import os, sys
import klayout.db as kdb
from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
t = tech_pb2.Technology()
for nm, d in (('m_ncap', 20), ('m_cap', 20)):
    x = t.lvs_computed_layers.add()
    x.kind = tech_pb2.ComputedLayerInfo.Kind.KIND_REGULAR
    x.layer_info.name, x.original_layer_name = nm, 'm'
    x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = 70, d
ly = kdb.Layout()
top, sub = ly.create_cell('TOP'), ly.create_cell('SUB')
a, b, l = ly.layer(1, 0), ly.layer(2, 0), ly.layer(3, 0)
'''
CTX = '''
l2n = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, top, []))
ra, rb = l2n.make_polygon_layer(a, 'm_ncap'), l2n.make_polygon_layer(b, 'm_cap')
rt = l2n.make_text_layer(l, 'lab')
for x in (ra, rb):
    l2n.connect(x); l2n.connect(x, rt)
l2n.connect(ra, rb)
l2n.extract_netlist()
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n, top_cell='TOP', tech=TechInfo(t, None), blackbox_devices=False)
'''
DEMO = COMMON + '''
top.shapes(a).insert(kdb.Box(0, 0, 1000, 1000))
''' + CTX + '''
assert (70, 20) in ctx.extracted_layers
assert ctx.shapes_of_layer((70, 20)).area() == 1000000
'''
