PROP = 'C19'
EDITS = [('klayout_pex/rcx25/r/resistor_network.py', """        nid = self.next_id
        self.nodes[point] = nid
""", """        nid = len(self.locations) if len(self.locations) not in self.node_to_s else self.next_id
        self.nodes[point] = nid
""")]
NEEDS = 'a new node after a node was removed, while an unconnected node has the id len(locations)'
BREAKS = 'two locations share an id'
DEMO = '''
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
from klayout_pex.rcx25.r.conductance import Conductance
nw = ResistorNetwork()
ids = [nw.node_id(kdb.Point(i, 0)) for i in range(4)]
nw.add_cond(ids[0], ids[1], Conductance(1.0))
nw.eliminate_node(ids[0])
new = nw.node_id(kdb.Point(9, 9))
assert new not in ids and len(set(nw.nodes.values())) == 4, nw.nodes
'''
