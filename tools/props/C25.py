title = 'The FasterCap model holds the conductors and dielectrics of the stack'
statement = '''Every net has its metal shapes at z with the thickness of the metal, the contact above from the top of the metal, diffusions and their contacts from 0, and VSUBS is
the chip (8 um larger) without the diffusions (1 um larger) below. Each drawn metal is wrapped by its chain of sidewall and conformal dielectrics, each grown around the
one before with the heights added up, and by the thin layer where there is no metal. The field oxide fills up to the gate poly and the simple dielectric what is left above and
beside a metal; nothing else is added, and materials come in stack order.'''
quantifier = 'all technologies (any number of metals, dielectrics and chains of any length) and all nets with any shapes'
why = '''A conductor at the wrong height or a dielectric carried over from another metal still gives a plausible capacitance matrix.'''
files = ['klayout_pex/fastercap/fastercap_input_builder.py']
mechanism = [('builder', 'FasterCapInputBuilder.build, shapes_of_net, shapes_of_layer, top_cell_bbox')]
observe = ['the FasterCap input files', 'FasterCapInputBuilder']
note = '''The whole of build is proved with loop contracts for nets, metals, diffusions, the substrate and the dielectric chain (while loop over ghost sequences). The order in which
regions of one kind are added is left free except for materials (which decide between overlapping dielectrics). That a chain ends is assumed. Executed on random stacks and nets
with real Regions.'''
