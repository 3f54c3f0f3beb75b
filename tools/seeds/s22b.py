PROP = 'C22'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''                lin -= lout_org
                lout -= lin_org
''', '''                lin -= lout_org
''')]
NEEDS = 'a dielectric that starts at the same height as a conductor (or another dielectric) inside it, as the field oxide below the poly'
BREAKS = 'the bottom of the conductor is said to be on that dielectric, although something else is below it'
DEMO = '''
import klayout.db as kdb
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=.001, k_void=1., delaunay_b=.5)
b.add_material('a', 3.)
r = kdb.Region(kdb.Box(0, 0, 1000, 1000))
b.add_dielectric('a', r, 0., 1.)
b.add_conductor('n', r & kdb.Region(kdb.Box(200, 200, 400, 400)), 0., .5)
g = b.generate()
for k, ts in g.cond_data.items():
    for t in ts:
        if t.p0.z == t.p1.z == t.p2.z == 0.:
            assert k.outside is None, (k, t)
'''
