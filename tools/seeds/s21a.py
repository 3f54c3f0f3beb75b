PROP = 'C21'
F = 'klayout_pex/util/multiple_choice.py'
EDITS = [(F, '''        self.has_all = 'all' in components
        self.has_none = 'none' in components
''', '''        self.has_none = 'none' in components
        self.has_all = not self.has_none and 'all' in self.pattern.lower()
''')]
NEEDS = 'a pattern without all and none that lists a name which contains "all"'
BREAKS = 'everything is included, or the pattern is rejected'
DEMO = '''
from klayout_pex.util.multiple_choice import MultipleChoicePattern
m = MultipleChoicePattern(pattern='+smallk')
assert m.is_included('smallk') or m.filter(['smallk', 'psg']) == ['smallk']
assert m.filter(['smallk', 'psg']) == ['smallk']
try:
    MultipleChoicePattern(pattern='all,none')
    assert False
except ValueError:
    pass
'''
