title = 'The netlist diagram shows every device and instance, wired as in the netlist'
statement = '''The JSON handed to netlistsvg has one module, named like the circuit shown, with a port per pin and a cell of its own for every
capacitor, resistor and subcircuit instance (also for several instances of one circuit), and a ground symbol for VSUBS and GND if they occur.
Two ports, terminals or pins carry the same bit exactly if they are on the same net, every terminal and pin is present, and values are
those of the netlist in fF and Ohm to three decimals. `netlist svg` shows the circuit named with --cell, otherwise the only top circuit;
with none, several or an unknown one it fails before anything is drawn.'''
quantifier = 'all SPICE netlists of resistors, capacitors and subcircuits: any number of devices, instances and pins, any names and values'
why = 'One test writes one JSON file and does not look at it; the wiring, several instances, --cell and grounds are never checked.'
files = ['klayout_pex/netlistsvg/netlist_json.py', 'klayout_pex/netlist/netlist_cli.py']
mechanism = [('net ids', 'NetlistJSONWriter._get_or_create_id'), ('cells and ports', 'NetlistJSONWriter.dict_for_cells / dict_for_ports'), ('command', 'NetlistCLI.run_netlistsvg')]
observe = ['the JSON netlistsvg is given', 'exit status']
note = '''Any number of nets, devices, instances and pins, by loop contracts; round() uninterpreted in the proof, checked on real runs. netlistsvg is a
stand-in. Fixed defects: all but one instance of a circuit were lost; --cell was ignored. The runner itself is C28.'''
