PROP = 'C28'
EDITS = [('klayout_pex/magic/magic_runner.py', 'extract halo {round(halo * halo_scale)}', 'extract halo {int(halo * halo_scale)}')]
NEEDS = 'a halo whose multiple of 200 is a bit below an integer in floating point'
BREAKS = 'MAGIC extracts with a halo one unit too small'
DEMO = '''
import os, tempfile, shutil
from klayout_pex.magic.magic_runner import prepare_magic_script, MagicPEXMode, MagicShortMode, MagicMergeMode
d = tempfile.mkdtemp()
try:
    for h, w in ((8.0, 1600), (0.29, 58)):
        p = os.path.join(d, 's.tcl')
        prepare_magic_script('a.gds', 'top', d, p, os.path.join(d, 'o.spice'), MagicPEXMode.CC, .01, 100, 1, h, MagicShortMode.NONE, MagicMergeMode.NONE)
        assert f'extract halo {w}' in open(p).read().splitlines(), h
finally:
    shutil.rmtree(d)
'''
