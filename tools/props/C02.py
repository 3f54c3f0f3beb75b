title = 'A capacitance matrix survives being written to CSV and read back'
statement = '''Writing any capacitance matrix to CSV and parsing that file with the same separator gives the same conductor names
in the same order and the same rows and columns, every value to 12 significant digits. No row, column or conductor is lost,
added or moved.'''
quantifier = 'all matrix shapes, all values (any magnitude, sign), all separator-free names, every separator'
why = 'The test parses one fixed file; no test writes one, and precision loss or a shifted row needs particular sizes and values.'
files = ['klayout_pex/common/capacitance_matrix.py']
mechanism = [('writer', 'CapacitanceMatrix.write_csv'), ('reader', 'CapacitanceMatrix.parse_csv')]
observe = ['file contents after write_csv', 'object returned by parse_csv']
note = '''Writer and reader are each proved against the same line grammar, for all sizes; rounding to 12 digits, join/split/strip
and float() are assumed contracts of the string library, cross-checked by executing the round trip.'''
