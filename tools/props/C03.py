title = 'The FasterCap log parser returns the last matrix, complete and scaled'
statement = '''For every well-formed FasterCap log the parsed matrix is the one of the last refinement iteration: one conductor
per row in the printed order, every value in its printed place converted to the project unit (1e-6). A log without any
matrix is an error, never an empty or stale result.'''
quantifier = 'all logs: any number of iterations, any dimension, any surrounding output'
why = 'One stored log is tested; another number of iterations, dimension or trailing output takes other paths through the parser.'
files = ['klayout_pex/fastercap/fastercap_runner.py']
mechanism = [('line scanner with restart on every title', 'fastercap_parse_capacitance_matrix')]
observe = ['CapacitanceMatrix returned by fastercap_parse_capacitance_matrix']
note = '''All logs, by an invariant of the scanning loop. Assumes documented str.split/strip/float; the regular expression is
tried on samples, its other matches are assumed.'''
