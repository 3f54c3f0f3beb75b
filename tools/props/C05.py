title = 'A Maxwell matrix becomes exactly the capacitors it describes'
statement = '''Expanding a netlist by a Maxwell capacitance matrix adds exactly one capacitor per pair of conductors whose negated
coupling is positive, with that value between their two nets, and one capacitor from every conductor but the first to the
first with the positive remainder of its row; the ground nets are tied and nothing else is added. The given netlist is
unchanged, existing devices are kept if and only if devices are blackboxed, and a conductor that names no net is an error.'''
quantifier = 'all netlists (any devices, nets, names already in use), all matrix sizes and values, both blackbox settings'
why = '''The test expands one matrix and only looks that a netlist comes out; values, pairs, signs, existing nets and removal of
several devices are not covered.'''
files = ['klayout_pex/klayout/netlist_expander.py']
mechanism = [('expansion', 'NetlistExpander.expand')]
observe = ['devices, parameters, terminals and nets of the returned kdb.Netlist', 'the argument netlist']
note = '''All sizes and values by nested loop contracts over a model of the KLayout netlist API (assumed contract, cross-checked
by execution against the real library). Floats treated as exact; conductor name regex tried on samples. Fixed defects: crash
when removing several devices, duplicate nets.'''
