title = 'Sidewall capacitance goes to the nearest facing shape and follows the formula'
statement = '''For every stretch of a shape's edge along which other shapes of the same layer face it within the side halo, the 2.5D
extraction records at most one sidewall capacitance: to the nearest of those shapes, only if its net differs and the layer has a
sidewall specification, under the layer and both nets. Its value is half of (length * specified capacitance / (distance + offset)),
in femtofarad, lengths in micrometer; no such coupling is left out.'''
quantifier = 'all layouts and stretches longer than one database unit: any number, order and distance of facing shapes, any nets, any tables'
why = '''Tests that reach this code need the LVS deck and hold two or three wires each; the choice among several facing shapes, partly facing
neighbors, missing specifications and same-net neighbors are not sampled.'''
files = ['klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', 'klayout_pex/rcx25/c/polygon_utils.py', 'klayout_pex/tech_info.py']
mechanism = [('edge visitor', 'PEXEdgeNeighborhoodVisitor.on_edge'), ('formula and key', 'PEXEdgeNeighborhoodVisitor.emit_sidewall'),
             ('nearest shape', 'polygon_utils.find_polygon_with_nearest_edge'), ('operation', 'SidewallAndFringeExtractor.extract')]
observe = ['CellExtractionResults.sidewall_table']
note = '''What KLayout's edge neighborhood operation delivers is assumed (and cross-checked on whole layouts against a grid computation). An arm of
the shape itself in between does not shield a sidewall: that is what the golden values of the project's own layout tests require.'''
