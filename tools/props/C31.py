title = 'A marker report that lost categories is repaired'
statement = '''Repairing a marker report adds every category that one of its items names and that is missing, with all its parents, each once, under its parent and with
the name KLayout wrote for it (any printable characters), and adds no other category. All categories, cells, items and values of the report stay, every item is in the
category it was in, and the repaired report can be loaded by KLayout. It is a new file next to the report, which may be compressed and is itself never changed.'''
quantifier = 'all reports: any tree of categories, any lost categories, any names, any number of items'
why = 'No test repairs a report; which categories are lost and which characters their names have differs per design and extraction.'
files = ['klayout_pex/klayout/repair_rdb.py']
mechanism = [('paths of categories', 'parse_category_path'), ('adding what is missing', 'repair_rdb_xml'), ('files', 'repair_rdb')]
observe = ['<report>.repair.xml']
note = '''All three functions are proved for any number of characters, items, categories and levels: KLayout's way of writing category paths is a state machine over the text, the
tree of categories a set of paths. The element tree of Python and the reader and writer of KLayout are assumed; both are exercised on real, damaged reports.'''
