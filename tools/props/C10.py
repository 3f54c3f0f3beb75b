title = 'The summary adds up every extracted parasitic of each couple of nets'
statement = '''ExtractionResults.summarize() lists, for each unordered couple of net names exactly once, the sum over all cells of
every recorded overlap, sidewall and side-overlap capacitance between them, and the sum of all resistor elements whose two
nodes carry those names. Nothing is dropped, counted twice or attributed to another couple, whatever the order of recording or
of the two names, and the recorded results are not changed.'''
quantifier = 'all extraction results: any number of cells, tables, entries, networks, elements, names and values'
why = '''Tests compare a few small layouts with one or two couples; name orders, several cells, both directions of one couple and
many entries per key are not sampled.'''
files = ['klayout_pex/rcx25/extraction_results.py']
mechanism = [('summaries', 'CellExtractionResults.summarize, ExtractionResults.summarize, ExtractionSummary.merged'), ('couple key', 'NetCoupleKey.normed'),
             ('recording', 'CellExtractionResults.add_*_cap')]
observe = ['ExtractionSummary.capacitances / .resistances']
note = '''Accumulation proved with partial-sum ghost functions at one arbitrary couple; floats treated as exact (addition
order ignored). That resistors of one couple are added (series convention) is the code's convention, taken as is.'''
