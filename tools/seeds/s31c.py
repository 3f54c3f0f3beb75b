PROP = 'C31'
EDITS = [('klayout_pex/klayout/repair_rdb.py', "    for p in category_paths:\n        elem = root\n        for c in p:\n            elemcats = elem.find(\"./categories\")\n",
          "    added: Dict[str, ET.Element] = {}\n    for p in category_paths:\n        elem = root\n        for c in p:\n            elemcats = elem.find(\"./categories\")\n            if c in added and len(p) > 1:\n                elem = added[c]\n                continue\n"),
         ('klayout_pex/klayout/repair_rdb.py', "                elem = new_category\n", "                elem = added[c] = new_category\n")]
NEEDS = 'two lost categories of one name under different parents'
BREAKS = 'the second is taken for the first: it is missing under its own parent'
DEMO = r'''
import os, tempfile
import klayout.rdb as rdb
import klayout.db as kdb
from klayout_pex.klayout.repair_rdb import repair_rdb
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'x.rdb')
    r = rdb.ReportDatabase('x')
    c = r.create_cell('TOP')
    for n in ('M1', 'M2'):
        x = r.create_category(r.create_category(n), 'width')
        r.create_item(c.rdb_id(), x.rdb_id()).add_value(kdb.DBox(0, 0, 1, 1))
    r.save(f)
    t = open(f).read()
    i, j = t.index('<categories>'), t.index('</categories>\n <cells>')
    open(f, 'w').write(t[:i] + '<categories>\n ' + t[j:])
    repair_rdb(f)
    s = rdb.ReportDatabase('')
    s.load(f + '.repair.xml')
    got = sorted(s.category_by_id(i.category_id()).path() for i in s.each_item())
    assert got == ['M1.width', 'M2.width'], got
'''
