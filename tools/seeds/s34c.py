PROP = 'C34'
EDITS = [('klayout_pex/kpex_cli.py', '        if args.halo is not None:\n            tech_info', '        if args.halo is not None and not args.run_magic:\n            tech_info')]
NEEDS = '--halo together with both --magic and --2.5D'
BREAKS = 'the halo given is ignored by the 2.5D engine'
DEMO = '''
import contextlib, io, os, shutil, sys, tempfile
import klayout_pex.kpex_cli as k
d = os.path.realpath(tempfile.mkdtemp())
os.chdir(d)
seen = []
class Stop(Exception):
    pass
def prepare(*a, tech=None, **kw):
    seen.append(tech.tech.process_parasitics.side_halo)
    raise Stop
k.KLayoutExtractionContext.prepare_extraction = staticmethod(prepare)
k.KpexCLI.create_lvsdb = lambda self, args: None
k.KpexCLI.run_magic_extraction = lambda self, args: None
def validate(args):
    c = args.pdk.config
    args.tech_pbjson_path, args.lvs_script_path = c.tech_pb_json_path, c.pex_lvs_script_path
    args.output_dir_path, args.effective_cell_name, args.dielectric_filter, args.log_level = d + '/out/x', 'x', k.MultipleChoicePattern('all'), k.LogLevel.ERROR
k.KpexCLI.validate_args = staticmethod(validate)
try:
    for more in ([], ['--magic']):
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                k.KpexCLI().main(['kpex', '--pdk', 'sky130A', '--2.5D', '--halo', '2.5', '--out_dir', d + '/out', '--gds', 'x.gds'] + more)
            except Stop:
                pass
    assert seen == [2.5, 2.5], seen
finally:
    os.chdir('/')
    shutil.rmtree(d)
'''
