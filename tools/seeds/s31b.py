PROP = 'C31'
EDITS = [('klayout_pex/klayout/repair_rdb.py', "    category_paths = [parse_category_path(c) for c in categories]\n",
          "    category_paths = [parse_category_path(c) for c in categories if not any(o != c and o.startswith(c) for o in categories)]\n")]
NEEDS = 'two lost categories, the name of one starting with that of the other (M1, M10)'
BREAKS = 'meant to skip parents of other paths, it skips M1 because of M10: the category is not added and the report does not load'
DEMO = r'''
import os, tempfile
import klayout.rdb as rdb
import klayout.db as kdb
from klayout_pex.klayout.repair_rdb import repair_rdb
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.rdb')
    r = rdb.ReportDatabase('x')
    c = r.create_cell('TOP')
    for x in (r.create_category('M1'), r.create_category('M10')):
        r.create_item(c.rdb_id(), x.rdb_id()).add_value(kdb.DBox(0, 0, 1, 1))
    r.save(f)
    t = open(f).read()
    i, j = t.index('<categories>'), t.index('</categories>\n <cells>')
    open(f, 'w').write(t[:i] + '<categories>\n ' + t[j:])
    repair_rdb(f)
    s = rdb.ReportDatabase('')
    s.load(f + '.repair.xml')
    got = sorted(s.category_by_id(i.category_id()).path() for i in s.each_item())
    assert got == ['M1', 'M10'], got
'''
