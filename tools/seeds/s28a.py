PROP = 'C28'
EDITS = [('klayout_pex/fastercap/fastercap_runner.py', '            line = proc.stdout.readline()\n            if not line:\n                break\n            subproc(line[:-1])  # remove newline\n            f.writelines([line])\n    proc.wait()\n', "            line = proc.stdout.readline().rstrip()\n            if not line:\n                break\n            subproc(line)\n            f.write(line + '\\n')\n    proc.wait()\n")]
NEEDS = 'a blank line in the output of FasterCap'
BREAKS = 'the log ends at the first blank line'
DEMO = '''
import os, tempfile, shutil
from klayout_pex.fastercap.fastercap_runner import run_fastercap
d = tempfile.mkdtemp()
try:
    exe = os.path.join(d, 'fc')
    open(exe, 'w').write('#!/bin/sh\\necho one\\necho\\necho two\\n')
    os.chmod(exe, 0o755)
    log = os.path.join(d, 'log')
    run_fastercap(exe, 'x.lst', log, .1, .5, .5, None, True, False, False)
    assert open(log).read() == 'one\\n\\ntwo\\n', open(log).read()
finally:
    shutil.rmtree(d)
'''
