PROP = 'C03'
F = 'klayout_pex/fastercap/fastercap_runner.py'
EDITS = [(F, "                for i in reversed(range(idx-1-dim, idx-1)):\n", "                for i in reversed(range(max(idx-1-dim, 1), idx-1)):\n")]
NEEDS = 'a log that ends with the last row of the matrix'
BREAKS = 'the last conductor is dropped when nothing follows the matrix'
DEMO = '''
import tempfile
from klayout_pex.fastercap.fastercap_runner import fastercap_parse_capacitance_matrix
with tempfile.TemporaryDirectory() as d:
    with open(d + '/log', 'w') as f:
        f.write('Capacitance matrix is:\\nDimension 2 x 2\\ng1_A 1.0 -1.0\\ng2_B -1.0 2.0\\n')
    assert fastercap_parse_capacitance_matrix(d + '/log').conductor_names == ['g1_A', 'g2_B']
'''
