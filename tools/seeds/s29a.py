PROP = 'C29'
EDITS = [('klayout_pex/magic/magic_ext_file_parser.py', "    regex = r'(?P<cell>.*?)(?P<res>\\.res)?\\.ext'\n", "    regex = r'(?P<cell>\\w+)(?P<res>\\.res)?\\.ext'\n")]
NEEDS = 'a cell whose name holds a character other than letters, digits and _ (a$1, x-y)'
BREAKS = 'the .ext files of such cells are skipped'
DEMO = '''
import tempfile
from pathlib import Path
from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
with tempfile.TemporaryDirectory() as d:
    for n in ('inv', 'nmos$1'):
        (Path(d) / f'{n}.ext').write_text('port "VDD" 2 -600 800 500 1000 m1\\n')
        (Path(d) / f'{n}.res.ext').write_text('resist "A" "B" 1.5\\n')
    run = parse_magic_pex_run(Path(d))
    assert sorted(run.cells) == ['inv', 'nmos$1'], run.cells
    assert all(c.res_ext_data is not None for c in run.cells.values())
'''
