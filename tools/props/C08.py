title = 'The capacitor CSV lists every extracted capacitor with its nets and value'
statement = '''The CSV written for an expanded netlist has the documented header and then exactly one line per extracted capacitor
(device class PEX_CAP) of the named top circuit, holding its device name, the names of the two nets it connects (the expanded
name when a net has none) and its capacitance in femtofarad rounded to two decimals. No other device appears in it and the
netlist is not changed.'''
quantifier = 'all netlists: any number and class of devices, any net and device names, any capacitance'
why = 'No test looks at the CSV; which devices appear, units, rounding and unnamed nets are never checked.'
files = ['klayout_pex/klayout/netlist_csv.py']
mechanism = [('writer', 'NetlistCSVWriter.write_csv')]
observe = ['the file written']
note = '''Any number of devices by a loop contract over the assumed KLayout netlist API; round() uninterpreted in the proof, checked
on real runs. Fixed defect: nets without a name were written as an empty cell.'''
