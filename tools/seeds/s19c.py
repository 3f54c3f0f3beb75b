PROP = 'C19'
EDITS = [('klayout_pex/rcx25/r/resistor_network.py', """        for (cond, other) in star_b:
            if other != a:
                self.add_cond(a, other, cond)
""", """        for (cond, other) in star_b:
            if (a, other) in self.s:
                self.s[(a, other)].add_parallel(cond)
            elif other != a:
                self.add_cond(a, other, cond.copy() if other in self.precious else cond)
            if other in self.precious and (a, other) in self.s and other in self.node_to_s:
                self.node_to_s[other] = [(c, o) if o != a else (c.copy(), o) for (c, o) in self.node_to_s[other]]
""")]
NEEDS = 'contracting a node that is connected to a precious one, and changing the resistor later'
BREAKS = 'the star list of the precious node holds a copy of the resistor'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
from klayout_pex.rcx25.r.conductance import Conductance
for precious in (False, True):
    nw = ResistorNetwork()
    a, b, c = [nw.node_id(kdb.Point(i, 0)) for i in range(3)]
    nw.add_cond(a, b, Conductance(2.0))
    nw.add_cond(b, c, Conductance(2.0))
    if precious:
        nw.mark_precious(c)
    nw.connect_nodes(a, b)
    nw.add_cond(a, c, Conductance(1.0))
    assert nw.check() == 0
    assert nw.node_to_s[c][0][0].cond == 3.0
'''
