PROP = 'C19'
EDITS = [('klayout_pex/rcx25/r/resistor_network.py', """        px = p0 + (pm1 - p0) * ((pm1 - p0).sprod(p1 - p0) / lm1)
""", """        px = p0 + (pm1 - p0) * ((pm1 - p0).sprod(p1 - p0) // lm1 if lm1 > 2**31 else (pm1 - p0).sprod(p1 - p0) / lm1)
""")]
NEEDS = 'a skinny triangle with a side longer than 46 µm'
BREAKS = 'it is cut through a corner: one part is the whole triangle, the other empty'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
for k in (1, 100):
    p = kdb.Polygon([kdb.Point(0, 0), kdb.Point(400 * k, 100 * k), kdb.Point(1000 * k, 0)])
    out = ResistorNetwork.expand_skinny_tris(p)
    assert len(out) == 2 and all(o.area() > p.area() / 10 for o in out), out
'''
