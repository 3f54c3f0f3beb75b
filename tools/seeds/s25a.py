PROP = 'C25'
F = 'klayout_pex/fastercap/fastercap_input_builder.py'
EDITS = [(F, '''        for metal_layer in self.tech_info.process_metal_layers:
            metal_layer_name = metal_layer.name
            metal_layer = metal_layer.metal_layer

            metal_z_bottom = metal_layer.z

            extracted_shapes = self.shapes_of_layer(layer_name=metal_layer_name)

            sidewall_region: Optional[kdb.Region] = None
            sidewall_height = 0

            no_metal_region: Optional[kdb.Region] = None
            no_metal_height = 0
''', '''        no_metal_region: Optional[kdb.Region] = None
        no_metal_height = 0

        for metal_layer in self.tech_info.process_metal_layers:
            metal_layer_name = metal_layer.name
            metal_layer = metal_layer.metal_layer

            metal_z_bottom = metal_layer.z

            extracted_shapes = self.shapes_of_layer(layer_name=metal_layer_name)

            sidewall_region: Optional[kdb.Region] = None
            sidewall_height = 0
''')]
NEEDS = 'a metal with a conformal dielectric that has a layer where there is no metal, below a metal that has none'
BREAKS = 'the simple dielectric of the upper metal starts above the layer of the lower one'
COMMON = '''
import klayout.db as kdb
import klayout_pex.fastercap.fastercap_input_builder as F
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
P = ps.ProcessStackInfo
t = tech_pb2.Technology()
def layer(name, ty):
    return t.process_stack.layers.add(name=name, layer_type=getattr(P, 'LAYER_TYPE_' + ty))
def metal(name, z, th, via=None):
    l = layer(name, 'METAL')
    l.metal_layer.z, l.metal_layer.thickness = z, th
    if via:
        c = l.metal_layer.contact_above
        c.name, c.thickness = via, .5
s = layer('subs', 'SUBSTRATE').substrate_layer
s.height, s.thickness = .1, .33
layer('fox', 'FIELD_OXIDE').field_oxide_layer.dielectric_k = 3.9
metal('m1', .5, .25, 'v1')
c = layer('conf', 'CONFORMAL_DIELECTRIC').conformal_dielectric_layer
c.dielectric_k, c.reference, c.thickness_over_metal, c.thickness_where_no_metal, c.thickness_sidewall = 7, 'm1', .05, .125, .06
layer('d1', 'SIMPLE_DIELECTRIC').simple_dielectric_layer.dielectric_k = 4
metal('m2', 1.5, .25)
layer('d2', 'SIMPLE_DIELECTRIC').simple_dielectric_layer.dielectric_k = 4.5
for i, n in enumerate(['m1', 'v1', 'm2']):
    x = t.lvs_computed_layers.add(kind=1, original_layer_name=n)
    x.layer_info.name = n
    x.layer_info.drw_gds_pair.layer, x.layer_info.drw_gds_pair.datatype = i, 20
nl = kdb.Netlist()
top = kdb.Circuit()
top.name = 'TOP'
nl.add(top)
a = top.create_net('A')
r = lambda: kdb.Region(kdb.Box(0, 0, 1000, 1000))
class Ctx:
    dbu = .001
    annotated_top_cell = type('Cell', (), dict(name='TOP'))()
    lvsdb = type('Db', (), dict(netlist=lambda self: nl))()
    def shapes_of_net(self, gds_pair, net): return r() if tuple(gds_pair)[0] in drawn else None
    def shapes_of_layer(self, gds_pair): return r() if tuple(gds_pair)[0] in drawn else None
    def top_cell_bbox(self): return kdb.Box(0, 0, 1000, 1000)
ev = []
class Rec:
    def __init__(self, *a, **k): pass
    def add_material(self, name, k): ev.append(('m', name, k))
    def add_conductor(self, net_name, layer, z, height): ev.append(('c', net_name, round(z, 6), round(height, 6)))
    def add_dielectric(self, material_name, layer, z, height): ev.append(('d', material_name, round(z, 6), round(height, 6)))
    def generate(self): return None
F.FasterCapModelBuilder = Rec
def run(*layers):
    global drawn
    drawn = set(layers)
    ev.clear()
    F.FasterCapInputBuilder(Ctx(), TechInfo(t, None), k_void=1.0).build()
    return list(ev)
'''
DEMO = COMMON + '''
ev = run(0, 2)
zs = sorted(e[2] for e in ev if e[:2] == ('d', 'd2'))
assert zs and set(zs) == {1.5}, zs
'''
