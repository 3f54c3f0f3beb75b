PROP = 'C14'
F = 'klayout_pex/rcx25/extractor.py'
EDITS = [(F, "            canonical_layer_name = self.tech_info.canonical_layer_name_by_gds_pair[gds_pair]\n", "            canonical_layer_name = self.tech_info.canonical_layer_name_by_gds_pair[gds_pair]\n            if canonical_layer_name in layer_regions_by_name and previous_via_name is None:\n                continue\n")]
NEEDS = 'a metal split into two stack layers where the first part has no contact above'
BREAKS = 'the second part of a metal layer is dropped when the layer before it in the stack has no contact above'
DEMO = open(__file__.replace('s14b', 's14a')).read().split("DEMO = '''")[1].split("'''")[0]
