PROP = 'C24'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''                k_outside = self.materials[outside] if outside else self.k_void

                outside = outside or '(void)'
''', '''                k_outside = self.materials.get(outside, 1.0)

                outside = outside or '(void)'
''')]
NEEDS = 'a default dielectric other than vacuum, and a conductor surface without any dielectric'
BREAKS = 'the conductor is said to be in vacuum'
COMMON = '''
import klayout.db as kdb, tempfile, shutil, os
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=.001, k_void=3.5, delaunay_b=.5)
b.add_material('a', 3.)
b.add_conductor('n', kdb.Region(kdb.Box(0, 0, 1000, 1000)), 0., .5)
b.add_dielectric('a', kdb.Region(kdb.Box(0, 0, 500, 1000)), .5, .5)
g = b.generate()
d = tempfile.mkdtemp()
try:
    lst = open(g.write_fastcap(output_dir_path=d, prefix='x')).read().splitlines()
    geo = {f: open(os.path.join(d, f)).read().splitlines() for f in os.listdir(d) if f.endswith('.geo')}
finally:
    shutil.rmtree(d)
'''
DEMO = COMMON + '''
c = [l.split() for l in lst if l.startswith('C ')]
assert sorted(float(l[2]) for l in c) == [3., 3.5], c
'''
