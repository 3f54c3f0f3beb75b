title = 'The shipped technologies are consistent in themselves and with the LVS decks'
statement = '''In both technologies every metal, via, contact, pin and label layer that is drawn has its computed layer, with the GDS pair and the name that the LVS deck gives it,
and no two share a name. Metals lie one above another without overlap, contacts end exactly at the metal above them, dielectrics refer to layers of the stack and their chains end.
Every metal, via and contact has its resistance, every pair of metals its overlap and both fringe capacitances, positive and larger the nearer they are (fringe: above the poly).'''
quantifier = 'both shipped technologies and all their layers, pairs of metals and contacts'
why = '''A wrong name or number in the tables silently drops a layer from extraction or moves a contact: no code path fails.'''
files = ['cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp', 'cxx/gen_tech_pb/protobuf.cpp', 'cxx/gen_tech_pb/main.cpp',
         'pdk/sky130A/libs.tech/kpex/sky130.lvs', 'pdk/ihp_sg13g2/libs.tech/kpex/sg13g2.lvs']
mechanism = [('sky130A', 'sky130A::buildTech'), ('ihp_sg13g2', 'ihp_sg13g2::buildTech'), ('helpers', 'addLayer, addComputedLayer, setContact, add*')]
observe = ['sky130A_tech.pb.json', 'ihp_sg13g2_tech.pb.json']
note = '''The functions have no input, so their postconditions are closed: they are evaluated on what the code, compiled from the sources of the repository on every run, writes
(complete, no solver needed). Layers marked <TODO> (cmim_top) are exempt from having a drawn layer; the table entries against "pwell" of sky130A, which is not drawn, are allowed.
The numbers themselves (from the foundries) are not judged beyond that. Fixed defects: label layers under the names of the pin layers, via1, vias of MiM capacitors 20 nm too thick.'''
technique = 'postconditions of the technology builders, closed formulas evaluated on the compiled code'
