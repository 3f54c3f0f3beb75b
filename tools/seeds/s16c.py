PROP = 'C16'
F = 'klayout_pex/klayout/lvsdb_extractor.py'
EDITS = [(F, '''                    if nt.device().expanded_name() != d_kly.expanded_name():
                        continue
''', '''                    if nt.device().device_class().name != d_kly.device_class().name:
                        continue
''')]
NEEDS = 'two devices of one class with the same terminal on one net'
BREAKS = 'each of the two devices lists the terminal twice, with the shapes of the other device'
DEMO = '''
import klayout.db as kdb
from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
t = tech_pb2.Technology()
for i, nm in enumerate(('nsdm', 'poly')):
    x = t.lvs_computed_layers.add()
    x.kind = tech_pb2.ComputedLayerInfo.Kind.KIND_REGULAR
    x.layer_info.name, x.original_layer_name = nm, nm
    x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = 70 + i, 20
ly = kdb.Layout()
top = ly.create_cell('TOP')
a, p = ly.layer(1, 0), ly.layer(2, 0)
for y in (0, 3000):
    top.shapes(a).insert(kdb.Box(0, y, 3000, y + 1000))
top.shapes(p).insert(kdb.Box(1000, -500, 2000, 4500))
l = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, top, []))
ra, rp = l.make_polygon_layer(a, 'nsdm'), l.make_polygon_layer(p, 'poly')
gate, sd = ra & rp, ra - rp
l.extract_devices(kdb.DeviceExtractorMOS3Transistor('NMOS'), {'SD': sd, 'G': gate, 'P': rp, 'tS': ra, 'tD': ra})
for x in (ra, rp):
    l.connect(x)
l.extract_netlist()
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l, top_cell='TOP', tech=TechInfo(t, None), blackbox_devices=False)
ds = ctx.devices_by_name
assert len(ds) == 2, list(ds)
for d in ds.values():
    got = sorted(x.name for x in d.terminals)
    assert got == ['D', 'G', 'S'], (d.device_name, got)
'''
