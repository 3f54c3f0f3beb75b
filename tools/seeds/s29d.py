PROP = 'C29'
EDITS = [('klayout_pex/magic/magic_log_analyzer.py', """            return kdb.Box(x, y, x + 20, y + 20)
""", """            return kdb.Box(kdb.Point(x - 10, y - 10) * self.dbu, kdb.Point(x + 10, y + 10) * self.dbu) if self.dbu > 1e-3 else kdb.Box(x, y, x + 20, y + 20)
""")]
NEEDS = 'a database unit coarser than 1 nm'
BREAKS = 'nodes are shown near the origin'
DEMO = '''
import tempfile
from pathlib import Path
import klayout.rdb as rdb
from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
from klayout_pex.magic.magic_log_analyzer import MagicLogAnalyzer
for dbu in (1e-3, 5e-3):
    with tempfile.TemporaryDirectory() as d:
        (Path(d) / 'inv.ext').write_text('node "A" 100 1.5 20000 40000 m1 0 0 0 0\\n')
        report = rdb.ReportDatabase('')
        MagicLogAnalyzer(parse_magic_pex_run(Path(d)), report, dbu).analyze()
        b = [v.polygon().bbox() for i in report.each_item() for v in i.each_value()]
        assert len(b) == 1 and abs(b[0].left - 100) < .02 and abs(b[0].bottom - 200) < .02, b
'''
