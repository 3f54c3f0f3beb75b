PROP = 'C02'
F = 'klayout_pex/common/capacitance_matrix.py'
EDITS = [(F, "cells = ['%.12g' % cell for cell in row]", "cells = ['%.12g' % cell if abs(cell) < 1e6 else '%.9g' % cell for cell in row]")]
NEEDS = 'a value of a million or more with more than nine significant digits'
BREAKS = 'large values lose digits in the CSV file'
DEMO = '''
import tempfile
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
with tempfile.TemporaryDirectory() as d:
    m = CapacitanceMatrix(['a'], [[123456789012.0]])
    m.write_csv(d + '/x.csv')
    assert CapacitanceMatrix.parse_csv(d + '/x.csv') == m
'''
