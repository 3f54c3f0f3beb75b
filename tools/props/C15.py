title = 'Capacitance and resistance look-ups return the technology\'s own values'
statement = '''For every technology with at most one entry per key, looking up the overlap or side overlap capacitance of a layer pair gives the
listed value of exactly that pair, and for the pair of a layer with the substrate VSUBS the area or perimeter capacitance of the layer
unless that pair is listed itself; a pair that is neither has no entry. Sidewall, substrate, layer-resistance, contact and via look-ups
have exactly the listed names with the listed values. A contact or via resistance of R milliohm per cut of width w converts to R/1000*w^2
ohm um^2, and R milliohm to R/1000 ohm.'''
statement = '''For every technology with at most one entry per key, the overlap / side overlap capacitance of a layer pair is the listed value of
exactly that pair, else for the pair of a layer with the substrate VSUBS its listed area / perimeter capacitance, else absent. Sidewall,
substrate, layer, contact and via look-ups have exactly the listed names with the listed values. R milliohm convert to R/1000 ohm, and R
milliohm per cut of width w to R/1000*w^2 ohm um^2.'''
quantifier = 'all technologies (numbers, orders and names of entries), layer pairs and values'
why = '''Tests look up a few pairs of the shipped technologies; the merge of two nested tables is quantified over all entry orders and which
rows exist beforehand.'''
files = ['klayout_pex/tech_info.py']
mechanism = [('pair tables', 'TechInfo.overlap_cap_by_layer_names, side_overlap_cap_by_layer_names'),
             ('single tables', 'TechInfo.substrate_cap_by_layer_name, sidewall_cap_by_layer_name, layer_/contact_/via_resistance_by_…'),
             ('units', 'TechInfo.milliohm_to_ohm, milliohm_by_cnt_to_ohm_by_square_for_contact/_via')]
observe = ['the look-up tables of TechInfo']
note = '''Merge loops proved for an arbitrary pair; uniqueness of the entries is the precondition. Protobuf JSON parsing is trusted (concrete runs go through it).'''
