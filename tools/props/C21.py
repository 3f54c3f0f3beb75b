title = 'A dielectric filter includes exactly what its pattern says'
statement = '''With "all" every name is included except those listed with "-", otherwise exactly those listed with "+" (with or without "none"), whatever the case of
the letters and the spaces around the entries. filter and is_included agree and filter keeps the order; all with none, none with "-" and all with "+" are rejected with a
ValueError, nothing else is.'''
quantifier = 'all patterns and all names'
why = '''A name that contains "all" or "none", an upper-case name or a pattern without a base goes wrong silently: the dielectric is missing in the model.'''
files = ['klayout_pex/util/multiple_choice.py']
mechanism = [('pattern', 'MultipleChoicePattern.__init__, is_included, filter')]
observe = ['--diel', 'TechInfo.filtered_dielectric_layers']
note = '''All three functions proved for any pattern (any number of entries) over abstract text functions; executed on odd patterns. Fixed defects: names in upper case,
is_included without a base.'''
