title = 'Each STL file shows one solid, closed and complete'
statement = '''Dumping a FasterCap model gives one STL file for each net and each material that has a surface: its facets are exactly the triangles of all interfaces of that solid,
each once, to 12 digits, with the points in the order that makes them look outwards, so that the file is a closed surface around the volume the solid owns.
Any net name can be dumped: the name of the file is that of the net wherever the file system takes it, and different solids always have different files.'''
quantifier = 'all models: any interfaces between nets, materials and void, any triangles, all net names'
why = '''The geometry is what a designer looks at to see whether the process stack is right; a facet that is turned round or missing shows up only for particular neighbours, and a net
name with a slash ended the whole extraction.'''
files = ['klayout_pex/fastercap/fastercap_model_generator.py']
mechanism = [('triangles of a solid', 'FasterCapModelGenerator._collect_diel_tris/_collect_cond_tris'), ('file format', 'FasterCapModelGenerator._write_as_stl'),
             ('files', 'FasterCapModelGenerator.dump_stl, kpex_cli.KpexCLI.build_fastercap_input')]
observe = ['Geometries/*.stl']
note = '''Which triangles, their direction, the text and the file names are proved for any number of interfaces and triangles; that the interfaces are the closed surfaces of the solids is C22.
Executed on random stacks: volume, centre and surface of each file against the cells. Not covered: --geometry_check. Fixed defect: names with a slash, or too long.'''
