PROP = 'C22'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''                dk[kk] += list(map(lambda t: t.reversed(), v))''', '''                dk[kk] += v''')]
NEEDS = 'two dielectrics that touch both ways round (one above the other here, the other way round elsewhere)'
BREAKS = 'part of the triangles of their interface has its normal towards the inside'
DEMO = '''
import klayout.db as kdb
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=.001, k_void=1., delaunay_b=.5)
b.add_material('a', 3.)
b.add_material('b', 4.)
r = kdb.Region(kdb.Box(0, 0, 1000, 1000))
b.add_dielectric('a', r, 0., 1.)
b.add_dielectric('b', r, 1., 1.)
b.add_dielectric('a', r, 2., 1.)
g = b.generate()
for k, ts in g.diel_data.items():
    if k.outside is None or k.inside is None: continue
    for t in ts:
        if not t.p0.z == t.p1.z == t.p2.z: continue
        up = t.outside_reference_point().z > t.p0.z
        above, below = {1.: ('b', 'a'), 2.: ('a', 'b')}[round(t.p0.z, 6)]
        assert k.outside == (above if up else below), (k, t)
'''
