title = 'The extraction context gives every layer\'s and every net\'s shapes, completely'
statement = '''For every flat LVS database and technology, the extracted layers are exactly the known layers with at least one shape (without those of
black-boxed capacitor/resistor devices), unknown ones with a GDS pair being listed apart; the shapes of a layer are all shapes of all LVS layers sharing its
GDS pair, in place and labelled with their net, and the shapes of a net on a layer exactly those of that net, also when the net has no name
or is asked for by name. Devices report every terminal with its net and shapes, and each label on a pin shape becomes a pin with its net.'''
quantifier = 'all LVS databases whose nets all reach the top circuit (layers, placements, nets with and without names, devices, pins), technologies and black-box settings'
why = '''The context is only reached through the LVS decks in tests; layers split in parts, nets without labels, unconnected terminals, black-boxed
devices and placed cells are not sampled there.'''
files = ['klayout_pex/klayout/lvsdb_extractor.py', 'klayout_pex/klayout/shapes_pb2_converter.py']
mechanism = [('layer collection', 'KLayoutExtractionContext.nonempty_extracted_layers, build_LVS_layer_map'),
             ('shapes', 'KLayoutExtractionContext.shapes_of_layer, shapes_of_net'),
             ('devices and pins', 'KLayoutExtractionContext.devices_by_name, pins_pb2_by_layer')]
observe = ['extracted_layers', 'shapes_of_layer', 'shapes_of_net', 'devices_by_name', 'pins_pb2_by_layer']
note = '''All of the context proved: layer map, construction, layer collection, shapes of layers and nets (polygon cursors by invariants, for an
arbitrary net and layer pair), devices with parameters, terminals and their shapes, pins and labels of a layer, pins with the net of a pin shape
there. What KLayout itself answers (build_all_nets, shapes_of_terminal, texts on regions) is contracts, run for real in the replays. Not connected
pieces carrying the same label are one net name, as in KLayout.'''
