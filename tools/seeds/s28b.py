PROP = 'C28'
EDITS = [('klayout_pex/fastercap/fastercap_runner.py', '    if ooc_condition is not None:\n', '    if ooc_condition:\n')]
NEEDS = '--ooc 0 (never go out of core)'
BREAKS = 'the option is left out and FasterCap uses its own default'
DEMO = '''
import os, tempfile, shutil
from klayout_pex.fastercap.fastercap_runner import run_fastercap
d = tempfile.mkdtemp()
try:
    exe = os.path.join(d, 'fc')
    open(exe, 'w').write('#!/bin/sh\\nfor a in "$@"; do echo "$a"; done\\n')
    os.chmod(exe, 0o755)
    log = os.path.join(d, 'log')
    for o in (2.0, 0.0):
        run_fastercap(exe, 'x.lst', log, .1, .5, .5, o, True, False, False)
        assert f'-f{o}' in open(log).read().split(), o
finally:
    shutil.rmtree(d)
'''
