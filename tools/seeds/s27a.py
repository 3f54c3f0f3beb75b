PROP = 'C27'
EDITS = [('klayout_pex/kpex_cli.py', "                timestamp = dt.strftime('%Y-%m-%d_%H-%M-%S')\n", "                timestamp = dt.strftime('%Y-%m-%d')\n")]
NEEDS = 'three runs into the same output directory on one day'
BREAKS = 'the log of the first run is overwritten by that of the second'
DEMO = '''
import argparse, logging, os, tempfile, time
from klayout_pex import log
from klayout_pex.kpex_cli import KpexCLI
with tempfile.TemporaryDirectory() as d:
    def validate(args):
        args.output_dir_path, args.log_level = f'{d}/run', log.LogLevel.INFO
        os.makedirs(args.output_dir_path, exist_ok=True)
    KpexCLI.validate_args = staticmethod(validate)
    lg = logging.getLogger('__kpex__')
    before = list(lg.handlers)
    for i in range(3):
        KpexCLI().setup_logging(argparse.Namespace(output_dir_base_path=d, log_level='info'))
        log.info(f'message of run {i}')
        for h in list(lg.handlers):
            if h not in before:
                lg.removeHandler(h)
                h.close()
        time.sleep(1.2)
    texts = [open(f'{d}/run/{f}').read() for f in os.listdir(f'{d}/run')]
    for i in range(3):
        assert sum(f'message of run {i}' in t for t in texts) == 2, (i, os.listdir(f'{d}/run'))
'''
