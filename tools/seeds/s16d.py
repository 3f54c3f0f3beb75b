PROP = 'C16'
F = 'klayout_pex/klayout/lvsdb_extractor.py'
EDITS = [(F, '''                        if p.inside(pos):
''', '''                        if p.bbox().contains(pos):
''')]
NEEDS = 'a pin whose shape is not a rectangle next to another pin of the layer, whose label lies in the notch of the first'
BREAKS = 'the label of the second pin is given the net of the first one'
DEMO = '''
import klayout.db as kdb
from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
t = tech_pb2.Technology()
l = t.layers.add()
l.name = 'met1'
for p, d in ((l.drw_gds_pair, 20), (l.pin_gds_pair, 16), (l.label_gds_pair, 5)):
    p.layer, p.datatype = 68, d
for nm, can, d, k in (('met1_con', 'met1', 20, 'KIND_REGULAR'), ('met1_pin_con', 'met1.pin', 16, 'KIND_PIN')):
    x = t.lvs_computed_layers.add()
    x.kind = tech_pb2.ComputedLayerInfo.Kind.Value(k)
    x.layer_info.name, x.original_layer_name = nm, can
    x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = 68, d
for flip in (False, True):
    ly = kdb.Layout()
    top = ly.create_cell('TOP')
    m, pn, lb = ly.layer(1, 0), ly.layer(2, 0), ly.layer(68, 5)
    ell = kdb.Polygon([kdb.Point(*q) for q in ((0, 0), (0, 4000), (1000, 4000), (1000, 1000), (4000, 1000), (4000, 0))])
    if flip:
        ell = ell.transformed(kdb.Trans(2, False, 4000, 4000))
    box = kdb.Box(1000, 1000, 2000, 2000).enlarged(-200, -200) if flip else kdb.Box(2000, 2000, 3000, 3000)
    for s in (m, pn):
        top.shapes(s).insert(ell)
        top.shapes(s).insert(box)
    at = ell.bbox().p2 - kdb.Vector(500, 500) if flip else kdb.Point(500, 500)
    top.shapes(lb).insert(kdb.Text('A', at.x, at.y))
    top.shapes(lb).insert(kdb.Text('B', box.center().x, box.center().y))
    db = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, top, []))
    rm, rp, rl = db.make_polygon_layer(m, 'met1_con'), db.make_polygon_layer(pn, 'met1_pin_con'), db.make_text_layer(lb, 'met1_label')
    for x in (rm, rp):
        db.connect(x)
    db.connect(rm, rp)
    db.connect(rm, rl)
    db.extract_netlist()
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=db, top_cell='TOP', tech=TechInfo(t, None), blackbox_devices=False)
    got = sorted((p.label, p.net_name) for ps in ctx.pins_pb2_by_layer.values() for p in ps)
    assert got == [('A', 'A'), ('B', 'B')], (flip, got)
'''
