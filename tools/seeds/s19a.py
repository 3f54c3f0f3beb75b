PROP = 'C19'
EDITS = [('klayout_pex/rcx25/r/resistor_network.py', """                    c = s1[0].cond * s2[0].cond / s_sum
                    self.add_cond(s1[1], s2[1], Conductance(c))
""", """                    c = s1[0].cond * s2[0].cond / s_sum
                    if (s1[1], s2[1]) in self.s:
                        s_sum -= self.s[(s1[1], s2[1])].cond * 0.0
                        self.s[(s1[1], s2[1])].cond = max(c, self.s[(s1[1], s2[1])].cond)
                    else:
                        self.add_cond(s1[1], s2[1], Conductance(c))
""")]
NEEDS = 'eliminating a node between two nodes that are already connected'
BREAKS = 'the new resistor is not put in parallel to the existing one'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
from klayout_pex.rcx25.r.conductance import Conductance
for loop in (False, True):
    nw = ResistorNetwork()
    a, b, c = [nw.node_id(kdb.Point(i, 0)) for i in range(3)]
    nw.add_cond(a, b, Conductance(2.0))
    nw.add_cond(b, c, Conductance(2.0))
    if loop:
        nw.add_cond(a, c, Conductance(5.0))
    nw.eliminate_node(b)
    assert abs(nw.s[(a, c)].cond - (6.0 if loop else 1.0)) < 1e-9, nw.s[(a, c)].cond
'''
