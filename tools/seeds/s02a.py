PROP = 'C02'
F = 'klayout_pex/common/capacitance_matrix.py'
EDITS = [(F, "            for line in lines[1:]:\n                row =", "            for line in lines[1:len(conductor_names) + 1]:\n                row =")]
NEEDS = 'a matrix with more rows than conductor columns'
BREAKS = 'rows are lost when a written matrix is read back'
DEMO = '''
import tempfile
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
with tempfile.TemporaryDirectory() as d:
    m = CapacitanceMatrix(['a', 'b'], [[1., 2.], [3., 4.], [5., 6.]])
    m.write_csv(d + '/x.csv')
    assert CapacitanceMatrix.parse_csv(d + '/x.csv') == m
'''
