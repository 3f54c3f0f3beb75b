PROP = 'C23'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''            if k.net_name == net_name:
                tris += [t.reversed() for t in v]
        return tris''', '''            if k.net_name == net_name:
                # NOTE: a horizontal interface has no walls
                tris += [t.reversed() for t in v if k.outside is None or t.p0.z != t.p1.z or t.p1.z != t.p2.z or t[0].z >= 0]
        return tris''')]
NEEDS = 'a net with a horizontal surface below height zero that touches a dielectric (wells, substrate)'
BREAKS = 'the surface is missing in the STL file of the net'
DEMO = '''
import klayout.db as kdb, tempfile, os
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=.001, k_void=1., delaunay_b=.5)
b.add_material('m', 3.)
r = kdb.Region(kdb.Box(0, 0, 1000, 1000))
b.add_dielectric('m', r, -2., 1.)
b.add_conductor('n', r, -1., 1.)
g = b.generate()
with tempfile.TemporaryDirectory() as d:
    g.dump_stl(output_dir_path=d, prefix='')
    t = [tuple(map(float, l.split()[1:])) for l in open(os.path.join(d, 'cond_n.stl')) if l.split()[0] == 'vertex']
    vol = 0.
    for i in range(0, len(t), 3):
        p, q, s = t[i:i + 3]
        vol += (p[0] * (q[1] * s[2] - q[2] * s[1]) + p[1] * (q[2] * s[0] - q[0] * s[2]) + p[2] * (q[0] * s[1] - q[1] * s[0])) / 6
    assert abs(vol - 1) < 1e-6, vol
'''
