PROP = 'C30'
F = 'klayout_pex/rcx25/extraction_reporter.py'
EDITS = [(F, "        self.category_name_counter[cat_sidewall_net_outside.path()] += 1\n", "        self.category_name_counter[cat_sidewall_net_inside.path()] = len(self.category_name_counter)\n")]
NEEDS = 'two equal sidewall capacitances (length, distance) between the same nets'
BREAKS = 'the second replaces the number of the first: both share one category'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
from klayout_pex.rcx25.extraction_results import SidewallCap, SidewallKey
r = ExtractionReporter('TOP', 0.001)
for i in range(2):
    r.output_sidewall(sidewall_cap=SidewallCap(key=SidewallKey(layer='m', net1='A', net2='B'), cap_value=1.0, distance=1.0, length=2.0, tech_spec=None),
                      inside_edge=kdb.Edge(0, 0, 0, 10 + i), outside_edge=kdb.Edge(5, 0, 5, 10))
def count(c): return sum(count(x) for x in c.each_sub_category()) or 1
assert sum(count(c) for c in r.report.each_category()) == 2
'''
