title = 'Fringe capacitance counts exactly what the edge sees of other layers'
statement = '''For every stretch of a shape's edge and every other layer with overlap and side overlap specifications, the 2.5D extraction
records under both layers and nets one fringe capacitance for each part of a shape of another net that lies within the halo and is
shielded neither by a shape on the layers strictly between nor by lying beyond the nearest facing edge on the same layer. Its value is
2/pi * (atan(a * far) - atan(a * near)) * length * side overlap capacitance with a = overlap capacitance / 50 (divided by its value at the
halo when scaling is on and the halo is above 0), in femtofarad; parts up to 0.0001 fF and parts of the same net are not recorded.'''
quantifier = 'all layouts and stretches longer than one database unit: any layers, shapes, nets and tables with positive overlap capacitance'
why = '''The few layout tests (which need the LVS deck) have at most one shield; which layers shield, several shapes per layer and net, parts
left over by a shield, shields by the shape itself and missing specifications are not sampled.'''
files = ['klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', 'klayout_pex/rcx25/c/polygon_utils.py', 'klayout_pex/tech_info.py']
mechanism = [('edge visitor and shields', 'PEXEdgeNeighborhoodVisitor.on_edge'), ('visible parts and keys', 'PEXEdgeNeighborhoodVisitor.emit_fringe'),
             ('formula', 'PEXEdgeNeighborhoodVisitor.fringe_cap'), ('operation', 'SidewallAndFringeExtractor.extract')]
observe = ['CellExtractionResults.sideoverlap_table']
note = '''Regions are point sets, atan an unknown function, floats exact; a part is measured by its bounding box as the code says. What KLayout's
edge neighborhood operation delivers is assumed and cross-checked on whole layouts against a grid computation. Fixed defects: missing
specification crashed, a degenerate part ended the whole emission, a table entry without substrate entry crashed.'''
