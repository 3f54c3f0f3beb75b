PROP = 'C19'
EDITS = [('klayout_pex/rcx25/r/resistor_network.py', """                        elif nmax_next is None or n < nmax_next:
                            nmax_next = n
""", """                        elif nmax_next is None or n < nmax_next:
                            nmax_next = n if n < 16 else None
""")]
NEEDS = 'a node with 16 or more resistors that is not precious'
BREAKS = 'it is left in the network'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
from klayout_pex.rcx25.r.conductance import Conductance
for n in (4, 17):
    nw = ResistorNetwork()
    c = nw.node_id(kdb.Point(0, 0))
    for i in range(n):
        o = nw.node_id(kdb.Point(i, 5))
        nw.add_cond(c, o, Conductance(1.0))
        nw.mark_precious(o)
    nw.eliminate_all()
    assert set(nw.node_to_s) == nw.precious, (n, set(nw.node_to_s))
'''
