PROP = 'C28'
EDITS = [('klayout_pex/klayout/lvs_runner.py', "            '-rd', 'purge_nets=false',\n", '            \'-rd\', f"purge_nets={\'false\' if verbose else \'true\'}",\n')]
NEEDS = 'an LVS run that is not verbose on a layout with nets without devices'
BREAKS = 'LVS drops the nets without devices, their capacitances are lost'
DEMO = '''
import os, tempfile, shutil
from klayout_pex.klayout.lvs_runner import LVSRunner
d = tempfile.mkdtemp()
try:
    exe = os.path.join(d, 'kl')
    open(exe, 'w').write('#!/bin/sh\\nfor a in "$@"; do echo "$a"; done\\n')
    os.chmod(exe, 0o755)
    log = os.path.join(d, 'log')
    for v in (True, False):
        LVSRunner.run_klayout_lvs(exe, 's.lvs', 'a.gds', 'a.sp', log, os.path.join(d, 'x.lvsdb'), v)
        assert 'purge_nets=false' in open(log).read().split(), v
finally:
    shutil.rmtree(d)
'''
