title = 'Look-ups into the technology find what the technology file says'
statement = '''Process layers are found by type in stack order (substrate, field oxide, gate poly: the first of theirs), and the dielectrics are exactly those the filter
includes, with their k. The sidewall dielectric of a layer is the one included sidewall or conformal layer that refers to it (none: None; two: an error), the simple
dielectric above a metal is the first one below the next metal, as high as that metal (5 µm at the top), and None if it is filtered out. Contacts and vias are found by
name with the layers they connect; computed and drawn layers by name and by GDS pair, a computed layer before a drawn one of the same name.'''
quantifier = 'all technologies (any stack order, any number of layers, shared pairs and contact names) and dielectric filters'
why = '''All engines read the technology through these look-ups; a wrong one shows only for stacks the two shipped technologies and the tests do not have (several
dielectrics between metals, filtered ones, shared GDS pairs).'''
files = ['klayout_pex/tech_info.py', 'klayout_pex/fastercap/fastercap_input_builder.py']
mechanism = [('process stack', 'TechInfo.process_*_layers, field_oxide_layer, gate_poly_layer, filtered_dielectric_layers, dielectric_by_name, sidewall_dielectric_layer, '
              'simple_dielectric_above_metal'), ('contacts', 'TechInfo.contact_by_*, bottom_and_top_layer_name_by_via_computed_layer_name'),
             ('names and pairs', 'TechInfo.gds_pair, computed_layer_info_by_*, layer_info_by_*, canonical_layer_name_by_gds_pair; FasterCapInputBuilder.gds_pair')]
observe = ['TechInfo']
note = '''All look-ups proved for arbitrary technologies. Not covered: three look-ups nothing uses and that read fields the schema no longer has
(pin_layer_mapping_for_drw_gds_pair, process_stack_layer_by_gds_pair, contact_above_metal_layer_name).'''
