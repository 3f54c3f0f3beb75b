PROP = 'C20'
F = 'cxx/gen_tech_pb/pdk/sky130A.cpp'
EDITS = [(F, '''addContactResistance(ri, "licon_psd_con",  "psdm",       "li1",        585000);''', '''addContactResistance(ri, "licon_psd_con",  "psd",        "li1",        585000);''')]
NEEDS = 'a p diffusion contact in sky130A, resistance extraction'
BREAKS = 'its resistance is not found, the contact is dropped'
import os
exec(open(os.path.join(os.path.dirname(__file__), 's20a.py')).read().split("DEMO =")[0].split("COMMON =")[1].join(["COMMON =", ""]))
DEMO = COMMON + '''
c = sky.contact_by_contact_lvs_layer_name['licon_psd_con']
assert sky.contact_resistance_by_device_layer_name.get(c.layer_below) is not None, c.layer_below
'''
