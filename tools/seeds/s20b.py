PROP = 'C20'
F = 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'
EDITS = [(F, '''addSidewallOverlapCap(ci, "Metal2",       "Metal4",       22.327);''', '''addSidewallOverlapCap(ci, "Metal4",       "Metal2",       22.327);''')]
NEEDS = 'a Metal2 edge next to Metal4 in ihp_sg13g2'
BREAKS = 'no fringe capacitance from Metal2 to Metal4, a wrong one in the other direction'
import os
exec(open(os.path.join(os.path.dirname(__file__), 's20a.py')).read().split("DEMO =")[0].split("COMMON =")[1].join(["COMMON =", ""]))
DEMO = COMMON + '''
t = ihp.tech.process_parasitics.capacitance.sideoverlaps
v = [round(e.capacitance, 3) for e in t if (e.in_layer_name, e.out_layer_name) == ('Metal2', 'Metal4')]
assert v == [22.327], v
'''
