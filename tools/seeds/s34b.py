PROP = 'C34'
EDITS = [('klayout_pex/kpex_cli.py', "                for idx, (key, res_value) in enumerate(sorted(summary.resistances.items())):", "                for idx, (key, res_value) in enumerate(sorted(summary.resistances.items(), key=lambda e: e[0].net1)):"),
         ('klayout_pex/kpex_cli.py', "                for idx, (key, cap_value) in enumerate(sorted(summary.capacitances.items())):\n", "                for idx, (key, cap_value) in enumerate(sorted({(k.net1, k.net2): (k, v) for k, v in summary.capacitances.items() if round(v, 3)}.values())):\n")]
NEEDS = '2.5D on a layout with a coupling below half an attofarad'
BREAKS = 'tiny couplings vanish from the CSV of the 2.5D engine'
DEMO = '''
import contextlib, io, os, shutil, tempfile
import klayout.rdb as rdb
from argparse import Namespace
import klayout_pex.kpex_cli as k
from klayout_pex.rcx25.extraction_results import NetCoupleKey
d = os.path.realpath(tempfile.mkdtemp())
class X:
    def __init__(self, report_path=None, **kw): self.p = report_path
    def extract(self):
        rdb.ReportDatabase('').save(self.p)
        return Namespace(summarize=lambda: Namespace(capacitances={NetCoupleKey('A', 'B'): 1.2345, NetCoupleKey('A', 'C'): .0001}, resistances={NetCoupleKey('A', 'B'): 3.0}))
k.RCX25Extractor = X
try:
    with contextlib.redirect_stdout(io.StringIO()):
        k.KpexCLI().run_kpex_2_5d_engine(Namespace(pex_mode='RC', scale_ratio_to_fit_halo=True), None, None, d + '/r.rdb', d + '/x.csv', None)
    l = open(d + '/x.csv').read().split('\\n')
    assert l[1:] == ['C1;A;B;%s;' % round(1.2345, 3), 'C2;A;C;0.0;', 'R1;A;B;;3.0', ''], l
finally:
    shutil.rmtree(d)
'''
