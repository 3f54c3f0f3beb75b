PROP = 'C22'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''return math.floor(z / self.dbu + 1e-6)''', '''return int(z / self.dbu)''')]
NEEDS = 'a height whose float is just below a multiple of the database unit (such as 0.3 + 0.27 + ..., or 1.001 / 0.001)'
BREAKS = 'a sheet starts one database unit too low: solids that are stacked overlap or have a gap'
DEMO = '''
import klayout.db as kdb
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
for h in range(1, 3000):
    b = FasterCapModelBuilder(dbu=.001, k_void=1., delaunay_b=.5)
    b.add_conductor('a', kdb.Region(kdb.Box(0, 0, 1000, 1000)), 0., h * .001)
    g = b.generate()
    top = max(p.z for v in g.cond_data.values() for t in v for p in (t.p0, t.p1, t.p2))
    assert abs(top - h * .001) < 1e-9, (h, top)
'''
