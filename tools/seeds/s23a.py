PROP = 'C23'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''            if material_name == k.outside:
                tris += v

        return tris''', '''            if material_name == k.outside:
                # NOTE: no need to copy
                if not tris:
                    tris = v
                else:
                    tris += v

        return tris''')]
NEEDS = 'a dielectric that touches nothing but conductors: enclosed in one net, with another net inside'
BREAKS = 'the triangles of the second net are added to the interface of the first one: its STL file shows foreign surfaces'
DEMO = '''
import klayout.db as kdb, tempfile, os
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=.001, k_void=1., delaunay_b=.5)
b.add_material('m', 3.)
r = kdb.Region(kdb.Box(0, 0, 5000, 5000))
q = kdb.Region(kdb.Box(1000, 1000, 4000, 4000))
s = kdb.Region(kdb.Box(2000, 2000, 3000, 3000))
b.add_conductor('shell', r, 0., 1.)
for z in (1., 2., 3.):
    b.add_conductor('shell', r - q, z, 1.)
    b.add_dielectric('m', q - s if z == 2. else q, z, 1.)
b.add_conductor('inner', s, 2., 1.)
b.add_conductor('shell', r, 4., 1.)
g = b.generate()
with tempfile.TemporaryDirectory() as d:
    g.dump_stl(output_dir_path=d, prefix='')
    def vol(n):
        t = [tuple(map(float, l.split()[1:])) for l in open(os.path.join(d, n)) if l.split()[0] == 'vertex']
        vol = 0.
        for i in range(0, len(t), 3):
            p, q, s = t[i:i + 3]
            vol += (p[0] * (q[1] * s[2] - q[2] * s[1]) + p[1] * (q[2] * s[0] - q[0] * s[2]) + p[2] * (q[0] * s[1] - q[1] * s[0])) / 6
        return vol
    for n, v in (('diel_m', 26), ('cond_inner', 1), ('cond_shell', 125 - 27)):
        assert abs(vol(n + '.stl') - v) < 1e-6, (n, vol(n + '.stl'))
'''
