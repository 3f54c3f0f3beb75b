PROP = 'C15'
F = 'klayout_pex/tech_info.py'
EDITS = [(F, 'soc.capacitance = sc.perimeter_capacitance', 'soc.capacitance = sc.perimeter_capacitance or sc.area_capacitance')]
NEEDS = 'a layer with an area but no perimeter capacitance to the substrate'
BREAKS = 'the area capacitance is used as fringe capacitance per length'
DEMO = '''
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
t = tech_pb2.Technology()
t.process_parasitics.capacitance.substrates.add(layer_name='a', area_capacitance=7.0, perimeter_capacitance=0.0)
d = TechInfo(t, None).side_overlap_cap_by_layer_names
assert d['a']['VSUBS'].capacitance == 0.0, d
'''
