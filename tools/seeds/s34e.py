PROP = 'C34'
EDITS = [('klayout_pex/kpex_cli.py', "r_threshold=args.magic_rthresh,", "r_threshold=max(args.magic_rthresh, 1),")]
NEEDS = '--magic_rthresh 0 (keep every resistance) with MAGIC in a mode with resistances'
BREAKS = 'MAGIC is told to drop resistances below 1 ohm although none are to be dropped'
DEMO = '''
import contextlib, io, os, shutil, sys, tempfile
import klayout.db as kdb
from klayout_pex.kpex_cli import KpexCLI
d = os.path.realpath(tempfile.mkdtemp())
os.chdir(d)
open('mag', 'w').write('#!/bin/sh\\nfor l in "$@"; do :; done\\ncp "$l" ' + d + '/script\\n: > "$(sed -n "s/^extract path //p" "$l")/TOP.ext"\\n: > "$(sed -n "s/^ext2spice -p .* -o //p" "$l")"\\n')
os.chmod('mag', 0o755)
open('kl', 'w').write('#!/bin/sh\\n')
os.chmod('kl', 0o755)
os.environ.update(KPEX_MAGIC_EXE=d + '/mag', KPEX_KLAYOUT_EXE=d + '/kl')
ly = kdb.Layout()
ly.create_cell('TOP')
ly.write('t.gds')
try:
    for r in ('5', '0'):
        with contextlib.redirect_stdout(io.StringIO()):
            KpexCLI().main(['kpex', '--pdk', 'sky130A', '--magic', '--magicrc', 'x', '--magic_mode', 'R', '--magic_rthresh', r, '--gds', 't.gds', '--out_dir', 'out'])
        assert 'ext2spice rthresh ' + r + '\\n' in open('script').read()
finally:
    os.chdir('/')
    shutil.rmtree(d)
'''
