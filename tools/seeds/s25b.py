PROP = 'C25'
F = 'klayout_pex/fastercap/fastercap_input_builder.py'
EDITS = [(F, '''                            d = math.floor(conf_diel.thickness_sidewall / self.dbu)
                            sidewall_region = sidewall_region.sized(d)
                            h_delta = metal_layer.thickness + conf_diel.thickness_over_metal
                            sidewall_height += h_delta
''', '''                            d = math.floor(conf_diel.thickness_sidewall / self.dbu)
                            sidewall_region = sidewall_region.sized(d)
                            h_delta = max(metal_layer.thickness, sidewall_height) + conf_diel.thickness_over_metal
                            sidewall_height += h_delta
''')]
NEEDS = 'a conformal dielectric around another one that is higher than the metal is thick'
BREAKS = 'the heights of the chain do not add up'
import os
exec(open(os.path.join(os.path.dirname(__file__), 's25a.py')).read().split("DEMO =")[0].split("COMMON =")[1].join(["COMMON =", ""]))
DEMO = COMMON + '''
c = t.process_stack.layers.add(name='conf2', layer_type=P.LAYER_TYPE_CONFORMAL_DIELECTRIC).conformal_dielectric_layer
c.dielectric_k, c.reference, c.thickness_over_metal, c.thickness_where_no_metal, c.thickness_sidewall = 8, 'conf', .1, 0, .06
ev = run(0, 2)
h = [e[3] for e in ev if e[:2] == ('d', 'conf2')]
assert h == [.65], h
'''
