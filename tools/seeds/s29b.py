PROP = 'C29'
EDITS = [('klayout_pex/magic/magic_log_analyzer.py', """                for n in cell_data.res_ext_data.rnodes_by_name(r.node1) + \\
                         cell_data.res_ext_data.rnodes_by_name(r.node2):
""", """                by_name = {n.name: n for n in cell_data.res_ext_data.rnodes}
                for n in [by_name[k] for k in (r.node1, r.node2) if k in by_name]:
""")]
NEEDS = 'two resistor nodes of the same name at different places, and a resistor at them'
BREAKS = 'the resistor is shown at one of the two places only'
DEMO = '''
import tempfile
from pathlib import Path
import klayout.rdb as rdb
from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
from klayout_pex.magic.magic_log_analyzer import MagicLogAnalyzer
with tempfile.TemporaryDirectory() as d:
    (Path(d) / 'inv.ext').write_text('port "VDD" 2 -600 800 500 1000 m1\\n')
    (Path(d) / 'inv.res.ext').write_text('rnode "A" 0 10 0 0 0\\nrnode "A" 0 10 400 0 0\\nrnode "B" 0 10 0 800 0\\nresist "A" "B" 1.5\\n')
    report = rdb.ReportDatabase('')
    MagicLogAnalyzer(parse_magic_pex_run(Path(d)), report, 1e-3).analyze()
    n = [sum(1 for i in report.each_item_per_category(c.rdb_id())) for k in report.each_category() for s in k.each_sub_category() if s.name() == 'Resistors'
         for c in s.each_sub_category()]
    assert n == [3], n
'''
