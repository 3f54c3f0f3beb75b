title = 'Reducing a resistor network keeps what it conducts between the remaining nodes'
statement = '''Every operation leaves a resistor network consistent (its self check counts no error, and does count any inconsistency): one node per location, at most
one resistor between two nodes, seen alike from both, parallel ones added up. Eliminating a node gives the star-mesh equivalent (for all potentials the
currents into the other nodes stay as they were), contracting two nodes keeps all resistors to others in parallel, removing a node takes its own resistors
only; eliminate_all eliminates nodes that are not precious until no other is left connected. A skinny triangle is cut along its height into two that cover it,
and the search by area or edge finds exactly the nodes there.'''
quantifier = 'all networks (any number of nodes and resistors, any conductances), all sequences of operations, all triangles'
why = 'Star lists and the conductor dict hold every resistor four times; a slip shows only for particular shapes of network, and there is no test.'
files = ['klayout_pex/rcx25/r/resistor_network.py', 'klayout_pex/rcx25/r/conductance.py']
mechanism = [('bookkeeping', 'ResistorNetwork.node_id, add_cond, remove_node, check'), ('reduction', 'eliminate_node, connect_nodes, eliminate_all'),
             ('values', 'Conductance'), ('geometry', 'is_skinny_tri, expand_skinny_tris, node_ids, ResistorNetworks.find_network_nodes')]
observe = ['ResistorNetwork.s', 'ResistorNetwork.node_to_s', 'ResistorNetwork.check()']
note = '''Proved for networks of any size against an invariant over the four dicts; a node whose total conductance is at most 1e-10 is removed without a mesh (as the
code intends). The module is a library that no command uses yet. add_cond and connect_nodes require two different nodes.'''
