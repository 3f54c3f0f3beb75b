title = 'Resistance extraction hands the solver the whole net and returns its network'
statement = '''The solver's technology has, for every extracted LVS layer, exactly the conductor (metals with a resistance, diffusions) or via/contact the
technology describes, with layer numbers, connected layers and resistances in ohm (per square; per cut times its area), and every pin, device
terminal and non-empty layer of a net is in the one request of its net. The result has one network per net whose nodes and resistors are
those of the solver, in place; a port node carries the net of the pin or terminal behind the port and an inner node a net name no other
node or net has, so that networks of different nets are never connected.'''
quantifier = 'all technologies (also with entries missing), extracted layers, pins, devices, nets, and all networks the solver may return'
why = '''Which ports and inner nodes a network has depends on the layout; name clashes between networks, several polygons per terminal, layers
without a resistance and polygons with holes need layouts no test has.'''
files = ['klayout_pex/rcx25/r/r_extractor.py', 'klayout_pex/klayout/rex_core.py', 'klayout_pex/tech_info.py']
mechanism = [('technology', 'RExtractor.prepare_r_extractor_tech_pb, klayout_r_extractor_tech'),
             ('request', 'RExtractor.prepare_request'), ('result', 'RExtractor.extract')]
observe = ['RExtractionRequest', 'RExtractionResult.networks']
note = '''All four functions proved for arbitrary inputs; KLayout's RNetExtractor is observed, not specified. Concrete runs through real LVS databases
stand behind the models of the extraction context.'''
