PROP = 'C15'
F = 'klayout_pex/tech_info.py'
EDITS = [(F, '''                for oc_bot in self.tech.process_parasitics.capacitance.overlaps if oc_bot.top_layer_name == oc.top_layer_name
            }
            for oc in self.tech.process_parasitics.capacitance.overlaps
        }

        for k1, ve in d2.items():
            for k2, v in ve.items():
                if k1 not in d:
                    d[k1] = {k2: v}
                else:
                    d[k1][k2] = v
        return d''', '''                for oc_bot in self.tech.process_parasitics.capacitance.overlaps if oc_bot.top_layer_name == oc.top_layer_name
            }
            for oc in self.tech.process_parasitics.capacitance.overlaps
        }

        for k1, ve in d2.items():
            if k1 in d:
                d[k1].update(ve)
            else:
                for k2, v in ve.items():
                    d[k1] = {k2: v}
        return d''')]
NEEDS = 'a layer with two overlap entries but no substrate capacitance'
BREAKS = 'only the last overlap partner of a layer without substrate capacitance is kept'
DEMO = '''
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
t = tech_pb2.Technology()
C = t.process_parasitics.capacitance
C.substrates.add(layer_name='a', area_capacitance=1.0, perimeter_capacitance=2.0)
for x, y, c in (('b', 'a', 3.0), ('c', 'a', 4.0), ('c', 'b', 5.0)):
    C.overlaps.add(top_layer_name=x, bottom_layer_name=y, capacitance=c)
d = TechInfo(t, None).overlap_cap_by_layer_names
got = {(x, y): e.capacitance for x, r in d.items() for y, e in r.items()}
assert got == {('a', 'VSUBS'): 1.0, ('b', 'a'): 3.0, ('c', 'a'): 4.0, ('c', 'b'): 5.0}, got
'''
