title = 'Expansion by 2.5D results adds one device per extracted couple of nets'
statement = '''Expanding a netlist by 2.5D extraction results yields a copy in which every couple of nets of the results' summary has
exactly one capacitor (its femtofarad as farad) or resistor (ohm) between the nets of those two names. A net is created if and
only if the circuit has none of that name (VSUBS and FC_GND included) and no other net or device appears. Existing devices are
kept, except that capacitors are removed when devices are not blackboxed; the given netlist is unchanged.'''
statement = ' '.join(statement.split()).replace('names. A net', 'names; a net')
quantifier = 'all netlists, all extraction results (any number of couples and values, any net names), both blackbox settings'
why = '''No test runs the 2.5D netlist expander on more than a fixed layout; units, duplicate nets, removal of several devices and
nets that exist only in the results are never looked at.'''
files = ['klayout_pex/rcx25/netlist_expander.py']
mechanism = [('expansion', 'RCX25NetlistExpander.expand')]
observe = ['devices, parameters, terminals and nets of the returned kdb.Netlist', 'the argument netlist']
note = '''All numbers of devices, nets and couples: loop contracts over the assumed contract of the KLayout netlist API; summarize()
is used through its contract (C10). Floats exact. Fixed defects: values written in fF instead of F, crash when removing several
devices, second VSUBS/FC_GND net.'''
