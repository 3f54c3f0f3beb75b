PROP = 'C26'
EDITS = [('klayout_pex/klayout/shapes_pb2_converter.py', "        for polygon in region.polygons:\n            region_kly", "        for polygon in region.polygons:\n            if len(polygon.hull_points) < 4:  # degenerate\n                continue\n            region_kly")]
NEEDS = 'a triangle in a region'
BREAKS = 'triangles are taken for degenerate shapes and dropped from the region'
DEMO = '''
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as pb
import klayout.db as kdb
sc = ShapesConverter(dbu=0.001)
r = kdb.Region(kdb.Box(0, 0, 100, 200))
r.insert(kdb.Polygon([kdb.Point(1000, 0), kdb.Point(1500, 800), kdb.Point(2000, 0)]))
m = pb.Region()
sc.klayout_region_to_pb(r, m)
assert sc.klayout_region(m).area() == r.area(), (sc.klayout_region(m).area(), r.area())
'''
