PROP = 'C01'
F = 'klayout_pex/common/capacitance_matrix.py'
EDITS = [(F, "                avg = (v1 + v2) / 2\n", "                avg = (v1 + v2) / 2 if v1 * v2 > 0 else min(v1, v2)\n")]
NEEDS = 'a pair of couplings of which one is zero (or positive)'
BREAKS = 'one-sided couplings are not averaged'
DEMO = '''
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
m = CapacitanceMatrix(['a', 'b', 'c'], [[3., 0., -2.], [-1., 3., -2.], [-2., -4., 6.]]).averaged_off_diagonals()
assert m.rows == [[3., -.5, -2.], [-.5, 3., -3.], [-2., -3., 6.]], m.rows
'''
