PROP = 'C18'
F = 'klayout_pex/rcx25/r/r_extractor.py'
EDITS = [(F, '''                        polygon_ports[l2r.layer.id].append(p_kly)
                        polygon_port_device_terminals[l2r.layer.id].append(t)
''', '''                        polygon_ports[l2r.layer.id].append(p_kly)
                    polygon_port_device_terminals[l2r.layer.id].append(t)
''')]
NEEDS = 'a device terminal with two polygons on one layer'
BREAKS = 'the ports of a layer no longer correspond to their terminals'
COMMON = '''
from types import SimpleNamespace as NS
from klayout_pex.rcx25.r.r_extractor import RExtractor
import klayout_pex_protobuf.kpex.request.pex_request_pb2 as q
r = q.RExtractionRequest()
c = r.tech.conductors.add()
c.layer.id, c.layer.canonical_layer_name, c.algorithm, c.resistance, c.triangulation_min_b = 1, 'met1', 1, 1.0, .5
def poly(region, x1, y1, x2, y2):
    p = region.polygons.add()
    for x, y in ((x1, y1), (x1, y2), (x2, y2), (x2, y1)):
        t = p.hull_points.add()
        t.x, t.y = x, y
ex = RExtractor(NS(dbu=.001), 2, 1, .5, 0, 0, False)
'''
DEMO = COMMON + '''
n = r.net_extraction_requests.add()
n.net_name = 'A'
l = n.region_by_layer.add()
l.layer.id = 1
poly(l.region, 0, 0, 10000, 1000)
for name, boxes in (('t0', [(0, 0, 500, 1000), (3000, 0, 3500, 1000)]), ('t1', [(9500, 0, 10000, 1000)])):
    t = n.device_terminals.add()
    t.net_name = name
    l = t.region_by_layer.add()
    l.layer.id = 1
    for b in boxes:
        poly(l.region, *b)
res = ex.extract(r)
w = sorted((x.location.box.lower_left.x, x.net_name) for x in res.networks[0].nodes)
assert w == [(0, 't0'), (3000, 't0'), (9500, 't1')], w
'''
