title = 'The 2.5D extraction runs on exactly the metal layers of the stack, per mode'
statement = '''For every process stack, layout and mode, the capacitance extractions (modes CC and RC) see the substrate, enlarged by the halo
around the layout, and then each metal layer that has shapes, in the order of the process stack and under its canonical name, with all
shapes of all stack layers sharing that name. The resistance extraction (modes R and RC) runs once on the prepared request and its
networks end up in the results; a mode that does not ask for a part does not run it.'''
quantifier = 'all process stacks (layers split into several stack entries, with or without shapes, with or without contacts), layouts, database units and modes'
why = '''The layout tests that reach it need the LVS decks and one technology; layers split into several LVS layers, missing layers and other database
units are not sampled, and no test runs modes R or RC.'''
files = ['klayout_pex/rcx25/extractor.py', 'klayout_pex/rcx25/pex_mode.py']
mechanism = [('layer collection and dispatch', 'RCX25Extractor.extract_cell'), ('modes', 'PEXMode.need_capacitance, PEXMode.need_resistance'),
             ('entry', 'RCX25Extractor.extract')]
observe = ['CellExtractionResults', 'RExtractionResult']
note = '''Loop over the stack proved for an arbitrary pair of names (presence, shapes, relative order). The extractors themselves are separate contracts (C11-C13, C18).'''
