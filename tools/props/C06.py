title = 'Netlist reduction drops exactly the capacitors below the threshold'
statement = '''Reducing a netlist returns a copy in which parallel devices are combined and, after that, exactly those capacitors of
the top circuit whose value is below the threshold (default 0.05 fF) are gone. All other devices, all nets and other
circuits are kept, and the given netlist is unchanged.'''
quantifier = 'all netlists and all thresholds: any number of removed devices, values at, just below and above the threshold'
why = 'The test reduces one netlist; iteration while removing, the boundary value and both capacitor classes need particular inputs.'
files = ['klayout_pex/klayout/netlist_reducer.py']
mechanism = [('copy, combine, filter', 'NetlistReducer.reduce')]
observe = ['devices of the returned kdb.Netlist', 'the argument netlist']
note = '''All device counts and values by a loop contract; dup and combine_devices of KLayout are assumed as documented (the
latter is observed, not predicted, in the executed cross-check because its order is not defined).'''
