PROP = 'C34'
EDITS = [('klayout_pex/kpex_cli.py', '        cap_matrix = fastcap_parse_capacitance_matrix(log_path)\n        cap_matrix.write_csv(raw_csv_path)\n\n        cap_matrix = cap_matrix.averaged_off_diagonals()\n        cap_matrix.write_csv(avg_csv_path)',
          '        cap_matrix = fastcap_parse_capacitance_matrix(log_path)\n        cap_matrix.write_csv(raw_csv_path)\n\n        cap_matrix.averaged_off_diagonals().write_csv(avg_csv_path)')]
NEEDS = 'a FastCap2 run whose matrix is not symmetric'
BREAKS = 'the expanded netlist of FastCap2 has the raw capacitances (upper triangle) instead of the averaged ones'
DEMO = '''
import contextlib, io, os, shutil, tempfile
import klayout.db as kdb
from argparse import Namespace
from klayout_pex.kpex_cli import KpexCLI
d = os.path.realpath(tempfile.mkdtemp())
try:
    open(d + '/fc', 'w').write('#!/bin/sh\\ncat ' + d + '/log.txt\\n')
    os.chmod(d + '/fc', 0o755)
    open(d + '/log.txt', 'w').write('CAPACITANCE MATRIX, picofarads\\n 1 2 3\\ng1_VSUBS 1 9 -2 -3\\ng2_A 2 -4 9 -1\\ng3_B 3 -1 -3 9\\n\\n')
    open(d + '/x.lst', 'w').write('')
    nl = kdb.Netlist()
    c = kdb.Circuit()
    c.name = 'TOP'
    nl.add(c)
    for n in 'AB':
        c.connect_pin(c.create_pin(n), c.create_net(n))
    args = Namespace(output_dir_path=d, effective_cell_name='TOP', fastcap_exe_path=d + '/fc', blackbox_devices=False)
    ctx = Namespace(lvsdb=Namespace(netlist=lambda: nl), annotated_top_cell=Namespace(name='TOP'))
    with contextlib.redirect_stdout(io.StringIO()):
        KpexCLI().run_fastcap_extraction(args, ctx, d + '/x.lst')
    f = [x for x in os.listdir(d) if 'Expanded' in x and x.endswith('.cir')]
    caps = {tuple(l.split()[1:3]): float(l.split()[3]) for l in open(d + '/' + f[0]) if l.startswith('CC')}
    assert abs(caps[('VSUBS', 'A')] - 3e-18) < 1e-20, caps
    assert abs(caps[('A', 'B')] - 2e-18) < 1e-20, caps
finally:
    shutil.rmtree(d)
'''
