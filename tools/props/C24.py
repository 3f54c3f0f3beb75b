title = 'The files for FasterCap say exactly what the model is'
statement = '''Writing a model gives one geometry file per interface that has triangles, and one list file that names each of them once: dielectric interfaces with the
k values of their outside and inside, conductors with the k of what is outside (the default k where it is void). Every triangle is one line with its three points to 12
digits and a reference point on its outside; all files of a net share one number that no other net or interface has, are joined by "+", and only the last one names the net.
Any net name can be written: file names are distinct and short enough for the file system.'''
quantifier = 'all models: any number of interfaces per net, any materials, void constants, triangles, and net names'
why = '''FasterCap takes a wrong k, a conductor that is split in two or a reference point on the wrong side without complaint and returns other capacitances; the solver is not
there in the tests.'''
files = ['klayout_pex/fastercap/fastercap_model_generator.py']
mechanism = [('list and numbering', 'FasterCapModelGenerator.write_fastcap'), ('geometry files', 'FasterCapModelGenerator._write_fastercap_geo, Triangle, Point')]
observe = ['<prefix>.lst', '*.geo']
note = '''Both functions proved for any number of interfaces, groups and triangles; text formatting, md5/base64 lengths and os.pathconf are assumed as documented. Executed on
odd and very long names against a parser of the files. Fixed defect: names with a slash.'''
