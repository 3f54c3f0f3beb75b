title = 'The FastCap2 log parser returns the last matrix, complete, in its unit'
statement = '''For every well-formed FastCap2 log the parsed matrix is the last one printed: one conductor per row in the printed
order and every value in its printed place, converted from the unit in the matrix title to the project unit, however
conductor names are padded. A log without any matrix is an error.'''
quantifier = 'all logs: any number of matrices, any dimension, every SI unit FastCap2 prints, padded and unpadded names'
why = 'One stored log in one unit is tested; FastCap2 chooses the unit by magnitude and pads names, so other inputs take untested paths.'
files = ['klayout_pex/fastcap/fastcap_runner.py']
mechanism = [('line scanner and unit conversion', 'fastcap_parse_capacitance_matrix')]
observe = ['CapacitanceMatrix returned by fastcap_parse_capacitance_matrix']
note = '''All logs, by an invariant of the scanning loop, one obligation per unit. Assumes documented str.split/strip/float; the
unit regular expression is tried on samples of every unit. A defect found here (unit ignored, padded names) is fixed.'''
