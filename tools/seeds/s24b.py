PROP = 'C24'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''                   -v1.x * v2.z + v1.z * v2.x,''', '''                   v1.x * v2.z - v1.z * v2.x,''')]
NEEDS = 'a triangle that does not lie in a plane of constant x or z (walls along x)'
BREAKS = 'its reference point lies inside'
import os
exec(open(os.path.join(os.path.dirname(__file__), 's24a.py')).read().split("DEMO =")[0].split("COMMON =")[1].join(["COMMON =", ""]))
DEMO = COMMON + '''
for f, ls in geo.items():
    if '_net=' not in f: continue
    for l in ls:
        if l[0] != 'T': continue
        v = [float(x) for x in l.split()[2:]]
        if v[1] == v[4] == v[7]:
            assert (v[10] > v[1]) == (v[1] > .5), l
'''
