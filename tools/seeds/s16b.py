PROP = 'C16'
F = 'klayout_pex/klayout/lvsdb_extractor.py'
EDITS = [(F, '''                    if nt.device().expanded_name() != d_kly.expanded_name():
                        continue
                    if nt.terminal_id() != td.id():
                        continue
''', '''                    if nt.device().expanded_name() != d_kly.expanded_name():
                        continue
''')]
NEEDS = 'a device with two terminals on one net'
BREAKS = 'each of the two terminals is listed twice, with the shapes of both'
DEMO = '''
import klayout.db as kdb
from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
t = tech_pb2.Technology()
for i, nm in enumerate(('nsdm', 'poly', 'met')):
    x = t.lvs_computed_layers.add()
    x.kind = tech_pb2.ComputedLayerInfo.Kind.KIND_REGULAR
    x.layer_info.name, x.original_layer_name = nm, nm
    x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = 70 + i, 20
ly = kdb.Layout()
top = ly.create_cell('TOP')
a, p, m = ly.layer(1, 0), ly.layer(2, 0), ly.layer(3, 0)
top.shapes(a).insert(kdb.Box(0, 0, 3000, 1000))
top.shapes(p).insert(kdb.Box(1000, -500, 2000, 1500))
top.shapes(m).insert(kdb.Box(0, 0, 3000, 1000))
l = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, top, []))
ra, rp, rm = l.make_polygon_layer(a, 'nsdm'), l.make_polygon_layer(p, 'poly'), l.make_polygon_layer(m, 'met')
gate, sd = ra & rp, ra - rp
l.extract_devices(kdb.DeviceExtractorMOS3Transistor('NMOS'), {'SD': sd, 'G': gate, 'P': rp, 'tS': ra, 'tD': ra})
for x in (ra, rp, rm):
    l.connect(x)
l.connect(ra, rm)
l.extract_netlist()
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l, top_cell='TOP', tech=TechInfo(t, None), blackbox_devices=False)
(d,) = ctx.devices_by_name.values()
got = sorted((x.terminal_id, x.name, len(x.region_by_layer)) for x in d.terminals)
assert [x[:2] for x in got] == [(0, 'S'), (1, 'G'), (2, 'D')], got
'''
