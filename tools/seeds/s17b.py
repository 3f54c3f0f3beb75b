PROP = 'C17'
F = 'klayout_pex/tech_info.py'
EDITS = [(F, '''        for lyr in self.filtered_dielectric_layers:
            match lyr.layer_type:''', '''        for lyr in self.tech.process_stack.layers:
            match lyr.layer_type:''')]
NEEDS = 'a dielectric filter that leaves out a sidewall or conformal dielectric'
BREAKS = 'a dielectric that is filtered out comes back as sidewall dielectric (of a material the model does not have)'
import os
exec(open(os.path.join(os.path.dirname(__file__), 's17a.py')).read().split("DEMO =")[0].split("COMMON =")[1].join(["COMMON =", ""]))
DEMO = COMMON + '''
add('met1', 'METAL', z=1.0, thickness=.3)
add('spnit', 'SIDEWALL_DIELECTRIC', dielectric_k=7.0, reference='met1', width_outside_sidewall=.1)
add('nild', 'SIMPLE_DIELECTRIC', dielectric_k=4.0, reference='x')
assert TechInfo(t, None).sidewall_dielectric_layer('met1').name == 'spnit'
assert TechInfo(t, MultipleChoicePattern(pattern='all,-spnit')).sidewall_dielectric_layer('met1') is None
'''
