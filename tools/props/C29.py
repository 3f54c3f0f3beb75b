title = 'The MAGIC report shows every port, node, device and resistor MAGIC extracted'
statement = '''After a MAGIC run every port, node (also the substrate), device, resistor node and resistor in the .ext and .res.ext files of a cell is read with
its name, values and coordinates as MAGIC wrote them, and no other line is taken for one; a cell has resistance data exactly if it has a .res.ext
file. Each of them is one category of the report, in the cell it belongs to, under its name and at its position in µm (to one database unit), a
resistor at the nodes of both its ends.'''
quantifier = 'all run directories, cells, files (any number of lines of any kind), names, numbers'
why = 'MAGIC names internal nodes after coordinates (a_15_n19#), prints values in %g form and writes many kinds of lines; no test has a file of MAGIC.'
files = ['klayout_pex/magic/magic_ext_file_parser.py', 'klayout_pex/magic/magic_ext_data_structures.py', 'klayout_pex/magic/magic_log_analyzer.py']
mechanism = [('reading', 'parse_magic_pex_run, parse_magic_ext_file, parse_magic_res_ext_file'), ('report', 'MagicLogAnalyzer.analyze, analyze_cell, ResExtData.rnodes_by_name')]
observe = ['MagicPEXRun', 'report.rdb.gz (MAGIC Extraction)']
note = '''All functions proved for files of any length; the regular expressions in the source are interpreted piece by piece on lines with tokens of arbitrary content.
MAGIC itself (not installed) and its line formats are assumed.'''
