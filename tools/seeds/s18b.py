PROP = 'C18'
F = 'klayout_pex/rcx25/r/r_extractor.py'
EDITS = [(F, '''                        case LK.KIND_REGULAR | LK.KIND_DEVICE_CAPACITOR | LK.KIND_DEVICE_RESISTOR:''',
          '''                        case LK.KIND_REGULAR | LK.KIND_DEVICE_RESISTOR:''')]
NEEDS = 'a metal layer that is only used as plate of a capacitor device, which is not black-boxed'
BREAKS = 'the plate is missing in the resistance network of its net'
import os
exec(open(os.path.join(os.path.dirname(__file__), 's16a.py')).read().split("DEMO =")[0].split("COMMON =")[1].join(["COMMON =", ""]))
DEMO = COMMON.replace('KIND_REGULAR', 'KIND_DEVICE_CAPACITOR') + '''
top.shapes(a).insert(kdb.Box(0, 0, 1000, 1000))
''' + CTX + '''
from klayout_pex.rcx25.r.r_extractor import RExtractor
q = RExtractor(ctx, 2, 1, .5, 0, 0, False).prepare_request()
assert len(q.net_extraction_requests) == 1 and len(q.net_extraction_requests[0].region_by_layer) == 1, q
'''
