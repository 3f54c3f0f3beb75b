PROP = 'C04'
F = 'klayout_pex/fastcap/fastcap_runner.py'
EDITS = [(F, "            if line.startswith('CAPACITANCE MATRIX, '):\n", "            if line.startswith('CAPACITANCE MATRIX, ') and len(rlines) - idx < 4096:\n")]
NEEDS = 'a log with thousands of lines before the last matrix, and an earlier matrix'
BREAKS = 'an earlier (stale) matrix is returned for long logs'
DEMO = '''
import tempfile
from klayout_pex.fastcap.fastcap_runner import fastcap_parse_capacitance_matrix
with tempfile.TemporaryDirectory() as d:
    with open(d + '/log', 'w') as f:
        f.write('CAPACITANCE MATRIX, picofarads\\n    1\\na 1 3\\n')
        f.write('noise\\n' * 5000)
        f.write('CAPACITANCE MATRIX, picofarads\\n    1\\na 1 4\\n\\n')
    r = fastcap_parse_capacitance_matrix(d + '/log').rows[0][0]
    assert abs(r / 4e-18 - 1) < 1e-9, r
'''
