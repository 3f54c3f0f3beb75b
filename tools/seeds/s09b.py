PROP = 'C09'
F = 'klayout_pex/netlistsvg/netlist_json.py'
EDITS = [(F, 'pin_text = f"{pin.id()}={pin_name}"', 'pin_text = f"{pin_name}"')]
NEEDS = 'an instance with two pins on the same net'
BREAKS = 'the instance is shown with one pin less'
DEMO = '''
import klayout.db as kdb, tempfile, os
from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'a.spice')
    open(p, 'w').write("*\\n.SUBCKT S a b\\nC1 a b 1f\\n.ENDS\\n.SUBCKT TOP x\\nX1 x x S\\n.ENDS\\n.END\\n")
    nl = kdb.Netlist(); nl.read(p, kdb.NetlistSpiceReader())
c = nl.circuit_by_name('TOP')
for v in NetlistJSONWriter().netlist_json_dict(nl, c)['modules']['TOP']['cells'].values():
    assert len(v['connections']) == 2 and len({b[0] for b in v['connections'].values()}) == 1, v
'''
