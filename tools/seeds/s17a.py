PROP = 'C17'
F = 'klayout_pex/tech_info.py'
EDITS = [(F, '''                if not diel_lyr and lyr.layer_type ==''', '''                if lyr.layer_type ==''')]
NEEDS = 'a stack with two simple dielectrics between two metals'
BREAKS = 'the upper of the two is taken as the dielectric of the metal'
COMMON = '''
from klayout_pex.tech_info import TechInfo
from klayout_pex.util.multiple_choice import MultipleChoicePattern
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
P = ps.ProcessStackInfo
t = tech_pb2.Technology()
def add(name, ty, **k):
    l = t.process_stack.layers.add(name=name, layer_type=getattr(P, 'LAYER_TYPE_' + ty))
    s = getattr(l, ty.lower() + '_layer')
    s.SetInParent()
    for a, v in k.items():
        setattr(s, a, v)
'''
DEMO = COMMON + '''
add('met1', 'METAL', z=1.0, thickness=.3)
add('lower', 'SIMPLE_DIELECTRIC', dielectric_k=4.0, reference='x')
add('upper', 'SIMPLE_DIELECTRIC', dielectric_k=3.0, reference='lower')
add('met2', 'METAL', z=2.5, thickness=.3)
d, h = TechInfo(t, None).simple_dielectric_above_metal('met1')
assert d.name == 'lower' and h == 1.5, (d, h)
'''
