title = 'The field solver model is exactly the interfaces of the solids'
statement = '''Of all conductors and dielectrics given to the FasterCap model builder as sheets with a height range, each point of space belongs to the first net, else the
first material (in the order given), else to the void that covers it. The triangles of the generated model are then exactly the surfaces where the owner
changes (except between two nets, which do not touch): each point of each surface is in one triangle (none larger than asked for), filed under the net or materials on its two sides, in
real coordinates (times the database unit), with the normal towards the outside.'''
quantifier = 'all numbers of nets, materials and sheets, all shapes (walls that are slanted: to the database unit), all ways in which sheets overlap, start and end together; void and dielectric constants arbitrary'
why = '''Which surfaces appear, vanish or change their label depends on the order in which sheets of different priority start and end above the same point; a test
has one stack, and a missing surface only shows as a slightly different capacitance.'''
files = ['klayout_pex/fastercap/fastercap_model_generator.py']
mechanism = [('sheets and their heights', 'FasterCapModelBuilder.add_conductor/add_dielectric/_add_layer/_z2norm/_norm2z'),
             ('sheets per level', 'FasterCapModelBuilder.generate, FasterCapModelGenerator.add_in/add_out/_merge_events'),
             ('horizontal surfaces', 'FasterCapModelGenerator.finish_z'), ('walls', 'FasterCapModelGenerator.next_z'),
             ('triangles', 'generate_hdiel/hcond_in/hcond_out/v_surface/triangulate/finalize')]
observe = ['FasterCapModelGenerator.diel_data', 'FasterCapModelGenerator.cond_data']
note = '''Regions are seen at one arbitrary point (walls: at the two sides of an arbitrary place), which turns the argument into propositional logic for any number of
names and sheets; triangles are then followed one by one from KLayout's Delaunay triangulation (trusted) into the model. The last step from levels to the solids -
a sheet is above the levels between its start and its stop - is arithmetic that is not redone here: build says when each sheet comes and goes, merge and finish what
follows from the sheets that are there.'''
