PROP = 'C29'
EDITS = [('klayout_pex/magic/magic_log_analyzer.py', """            for idx, r in enumerate(cell_data.res_ext_data.resistors):
""", """            for idx, r in enumerate(cell_data.res_ext_data.resistors):
                if r.value_ohm <= 0:
                    continue
"""), ]
NEEDS = 'a resistor of value 0 (MAGIC prints them for shorts) in the .res.ext file'
BREAKS = 'it is missing from the report'
DEMO = '''
import tempfile
from pathlib import Path
import klayout.rdb as rdb
from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
from klayout_pex.magic.magic_log_analyzer import MagicLogAnalyzer
with tempfile.TemporaryDirectory() as d:
    (Path(d) / 'inv.ext').write_text('port "VDD" 2 -600 800 500 1000 m1\\n')
    (Path(d) / 'inv.res.ext').write_text('rnode "A" 0 10 0 0 0\\nrnode "B" 0 10 0 800 0\\nresist "A" "B" 1.5\\nresist "A" "B" 0\\n')
    report = rdb.ReportDatabase('')
    MagicLogAnalyzer(parse_magic_pex_run(Path(d)), report, 1e-3).analyze()
    n = [c.name() for k in report.each_category() for s in k.each_sub_category() if s.name() == 'Resistors' for c in s.each_sub_category()]
    assert len(n) == 2, n
'''
