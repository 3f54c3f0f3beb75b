PROP = 'C34'
EDITS = [('klayout_pex/kpex_cli.py', 'dest="fastercap_ooc_condition",\n                                     type=float,', 'dest="fastercap_ooc_condition",\n                                     type=int,')]
NEEDS = '--ooc with a value that is not a whole number'
BREAKS = 'a fractional memory condition is rejected'
DEMO = '''
from klayout_pex.kpex_cli import KpexCLI
from klayout_pex.env import Env
a = KpexCLI.parse_args(['--pdk', 'sky130A', '--ooc', '0.5'], Env.from_os_environ())
assert a.fastercap_ooc_condition == .5
assert KpexCLI.parse_args(['--pdk', 'sky130A'], Env.from_os_environ()).fastercap_ooc_condition == 2
'''
