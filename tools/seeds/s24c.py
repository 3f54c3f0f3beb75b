PROP = 'C24'
F = 'klayout_pex/fastercap/fastercap_model_generator.py'
EDITS = [(F, '''            cond_num += 1
            last_cond_index = len(cond_list) - 1
''', '''            cond_num += len(cond_list)
            last_cond_index = len(cond_list) - 1
'''), (F, '''                                          cond_number=cond_num,
                                          cond_name=nn,''', '''                                          cond_number=cond_num - last_cond_index + idx,
                                          cond_name=nn,''')]
NEEDS = 'a net with several interfaces (different dielectrics around it)'
BREAKS = 'the files of one conductor have different numbers, only one of which is named'
import os
exec(open(os.path.join(os.path.dirname(__file__), 's24a.py')).read().split("DEMO =")[0].split("COMMON =")[1].join(["COMMON =", ""]))
DEMO = COMMON + '''
n = {l.split()[1] for f, ls in geo.items() if '_net=' in f for l in ls if l[0] in 'TN'}
assert len(n) == 1, n
'''
