PROP = 'C20'
F = 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'
EDITS = [(F, '''    auto mim_via_thickness = topvia1_ncap_thickness - capild_thickness - cmim_cap_thickness;''',
          '''    auto mim_via_thickness = topvia1_ncap_thickness - cmim_cap_thickness;''')]
NEEDS = 'a MiM capacitor in ihp_sg13g2'
BREAKS = 'the via above the capacitor plate reaches into TopMetal1'
COMMON = '''
import os, klayout_pex_protobuf
from klayout_pex.tech_info import TechInfo
d = os.path.join(os.getcwd(), 'klayout_pex_protobuf')
ihp = TechInfo.from_json(os.path.join(d, 'ihp_sg13g2_tech.pb.json'), None)
sky = TechInfo.from_json(os.path.join(d, 'sky130A_tech.pb.json'), None)
'''
DEMO = COMMON + '''
m = {l.name: l.metal_layer for l in ihp.process_metal_layers}
c = m['cmim_top']
assert abs(c.z + c.thickness + c.contact_above.thickness - m['TopMetal1'].z) < 1e-6
'''
