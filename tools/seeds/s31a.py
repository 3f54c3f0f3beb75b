PROP = 'C31'
EDITS = [('klayout_pex/klayout/repair_rdb.py', "                ET.SubElement(new_category, 'categories')\n", "                if c != p[-1]:\n                    ET.SubElement(new_category, 'categories')\n")]
NEEDS = 'a lost category whose subcategory is lost as well while both are named by items (or a category with the name of its parent)'
BREAKS = 'an added category has no room for subcategories: the repair crashes at the next path through it'
DEMO = r'''
import os, re, tempfile
import klayout.rdb as rdb
import klayout.db as kdb
from klayout_pex.klayout.repair_rdb import repair_rdb
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.rdb')
    r = rdb.ReportDatabase('x')
    c = r.create_cell('TOP')
    p = r.create_category('M1')
    q = r.create_category(p, 'width')
    for x in (p, q):
        r.create_item(c.rdb_id(), x.rdb_id()).add_value(kdb.DBox(0, 0, 1, 1))
    r.save(f)
    t = open(f).read()
    i, j = t.index('<categories>'), t.index('</categories>\n <cells>')
    open(f, 'w').write(t[:i] + '<categories>\n ' + t[j:])
    repair_rdb(f)
    s = rdb.ReportDatabase('')
    s.load(f + '.repair.xml')
    got = sorted(s.category_by_id(i.category_id()).path() for i in s.each_item())
    assert got == ['M1', 'M1.width'], got
'''
