PROP = 'C22'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''        for t in region.delaunay(self.delaunay_amax / self.dbu ** 2, self.delaunay_b):
            # NOTE: normal is facing outwards (to "left")''', '''        # NOTE: walls are thin, their triangles are small enough
        for t in region.delaunay(0.0, self.delaunay_b):
            # NOTE: normal is facing outwards (to "left")''')]
NEEDS = 'a maximum triangle area is given, and there is a wall that is larger'
BREAKS = 'the triangles of walls are larger than asked for: the field solver result is inaccurate'
DEMO = '''
import klayout.db as kdb
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=.001, k_void=1., delaunay_b=0., delaunay_amax=.25)
b.add_conductor('a', kdb.Region(kdb.Box(0, 0, 5000, 5000)), 0., 2.)
g = b.generate()
big = 0.
for v in g.cond_data.values():
    for t in v:
        u, w = [[getattr(p, c) - getattr(t.p0, c) for c in 'xyz'] for p in (t.p1, t.p2)]
        n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
        big = max(big, sum(x * x for x in n) ** .5 / 2)
assert big < .26, big
'''
