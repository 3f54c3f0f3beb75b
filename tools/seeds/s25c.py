PROP = 'C25'
F = 'klayout_pex/fastercap/fastercap_input_builder.py'
EDITS = [(F, '''                if metal_layer.HasField('contact_above'):
                    contact = metal_layer.contact_above
                    shapes = self.shapes_of_net(layer_name=contact.name, net=net)
''', '''                if shapes and metal_layer.HasField('contact_above'):
                    contact = metal_layer.contact_above
                    shapes = self.shapes_of_net(layer_name=contact.name, net=net)
''')]
NEEDS = 'a net with a contact above a metal on which it has no shapes'
BREAKS = 'the contact is missing among the conductors'
import os
exec(open(os.path.join(os.path.dirname(__file__), 's25a.py')).read().split("DEMO =")[0].split("COMMON =")[1].join(["COMMON =", ""]))
DEMO = COMMON + '''
ev = run(1, 2)
assert ('c', 'A', .75, .5) in ev, ev
'''
