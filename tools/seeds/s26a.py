PROP = 'C26'
EDITS = [('klayout_pex/klayout/shapes_pb2_converter.py', "        if len(polygon.net) >= 1:", "        if len(polygon.net) > 1:")]
NEEDS = 'a net with a name of a single character'
BREAKS = 'polygons of nets like "A" lose their net on the way back from the message'
DEMO = '''
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as pb
import klayout.db as kdb
sc = ShapesConverter(dbu=0.001)
for net in ('VDD', 'A'):
    r = kdb.Region()
    r.insert(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(0, 0, 100, 200)), {'net': net}))
    m = pb.Region()
    sc.klayout_region_to_pb(r, m)
    back = [p.property('net') for p in sc.klayout_region(m)]
    assert back == [net], (net, back)
'''
