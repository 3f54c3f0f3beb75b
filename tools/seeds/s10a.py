PROP = 'C10'
F = 'klayout_pex/rcx25/extraction_results.py'
EDITS = [(F, "        if self.net1 < self.net2:\n", "        if self.net1.casefold() <= self.net2.casefold():\n")]
NEEDS = 'two net names that differ in case only, coupled in both directions'
BREAKS = 'the couple is listed twice, each with a part of the capacitance'
DEMO = '''
from klayout_pex.rcx25.extraction_results import *
r = CellExtractionResults('TOP')
r.add_sidewall_cap(SidewallCap(SidewallKey('m', 'a', 'A'), 2.0, 1.0, 1.0, None))
r.add_sidewall_cap(SidewallCap(SidewallKey('m', 'A', 'a'), 3.0, 1.0, 1.0, None))
s = ExtractionResults({'TOP': r}).summarize().capacitances
assert list(s.values()) == [5.0], s
'''
