title = 'Overlap capacitance counts exactly the unshielded common area of two nets'
statement = '''For two shapes of different nets on two layers that have an overlap specification, the 2.5D extraction records, under
their layers and nets, the specified area capacitance times their common area less everything covered by any shape on the layers
between them (of whichever net), in femtofarad. A pair without specification contributes nothing but still shields, shapes of one
net never couple to each other, and no other overlap is recorded.'''
quantifier = 'all layouts: any number of layers and shapes, any geometry and nets, any capacitance tables (entries missing or not)'
why = '''Only slow layout tests with a handful of plates exercise it (they need the LVS deck); shielding by shapes of the same net, layers
without specification and several shapes per layer are not sampled.'''
files = ['klayout_pex/rcx25/c/overlap_extractor.py', 'klayout_pex/tech_info.py']
mechanism = [('visitor', 'OverlapExtractor.PEXPolygonNeighborhoodVisitor.neighbors'), ('set-up of the operation', 'OverlapExtractor.extract')]
observe = ['CellExtractionResults.overlap_table']
note = '''Regions are modelled as point sets (assumed contract of kdb.Region), areas by an uninterpreted function of the set; which polygons
KLayout passes to the visitor is assumed and cross-checked by running the real operation against a grid computation. Fixed defects:
missing specification ended the visit, same-net shapes did not shield.'''
