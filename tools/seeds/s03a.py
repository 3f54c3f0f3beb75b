PROP = 'C03'
F = 'klayout_pex/fastercap/fastercap_runner.py'
EDITS = [(F, "                dim = int(m.group(1))\n", "                dim = int(m.group(1)[-2:])\n")]
NEEDS = 'a matrix of 100 or more conductors'
BREAKS = 'only the last two digits of the dimension are used, conductors get lost'
DEMO = '''
import tempfile
from klayout_pex.fastercap.fastercap_runner import fastercap_parse_capacitance_matrix
n = 112
with tempfile.TemporaryDirectory() as d:
    with open(d + '/log', 'w') as f:
        f.write(f'x\\nCapacitance matrix is:\\nDimension {n} x {n}\\n')
        for i in range(n):
            f.write(f'g{i + 1}_N{i} ' + ' '.join(str(float(i * n + j)) for j in range(n)) + '\\n')
        f.write('\\nend\\n')
    m = fastercap_parse_capacitance_matrix(d + '/log')
    assert m.dimension == n and len(m.rows) == n and m.rows[111][0] == 111 * n / 1e6
'''
