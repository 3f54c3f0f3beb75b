PROP = 'C28'
EDITS = [('klayout_pex/magic/magic_runner.py', "    with open(log_path, 'w', encoding='utf-8') as f:\n", "    with open(log_path, 'a', encoding='utf-8') as f:\n")]
NEEDS = 'two runs with the same log file'
BREAKS = 'the log starts with the output of the earlier run'
DEMO = '''
import os, tempfile, shutil
from klayout_pex.magic.magic_runner import run_magic
d = tempfile.mkdtemp()
try:
    exe = os.path.join(d, 'm')
    open(exe, 'w').write('#!/bin/sh\\necho hi\\n')
    os.chmod(exe, 0o755)
    log = os.path.join(d, 'log')
    for _ in range(2):
        run_magic(exe, 'rc', 's.tcl', log)
        assert open(log).read() == 'hi\\n'
finally:
    shutil.rmtree(d)
'''
