title = 'The extraction report documents every parasitic and the resistance extraction'
statement = '''The report database of a 2.5D extraction has, for every overlap, sidewall and fringe capacitance of the results, one category of its own under
its layers and nets in their roles, numbered in order, with its value in fF to three decimals and the shapes it comes from in µm, and no others.
For the resistance extraction it has every conductor and via of the solver's technology, every device with parameters and terminals, every pin, every net
with pins, terminals and layers, and every network with each node at its place and each resistor between its two nodes with names, layers and resistance.
It is about the extracted cell and saved where asked once the extraction succeeded; a failing extraction is an error.'''
quantifier = 'all results, requests and networks: any number of entries, any names (also equal ones), values, shapes and locations'
why = 'No test looks into a report; it is what a user inspects to trust an extraction, and mislabelled or missing entries depend on layout and technology.'
files = ['klayout_pex/rcx25/extraction_reporter.py', 'klayout_pex/rcx25/extractor.py', 'klayout_pex/klayout/shapes_pb2_converter.py']
mechanism = [('capacitances', 'ExtractionReporter.output_overlap / output_sidewall / output_sideoverlap'), ('request', 'ExtractionReporter.output_rex_request'),
             ('result', 'ExtractionReporter.output_rex_result'), ('saving', 'RCX25Extractor.extract')]
observe = ['categories and items of the report database']
note = '''Any number of entries by loop contracts over an assumed KLayout report database (a category is its parent and name). That the extractors document every capacitance
they add to the results, with its shapes at their place in the layout, is proved on their code (and tried on real extractions). KLayout refuses an empty list of shapes: none is ever given.'''
