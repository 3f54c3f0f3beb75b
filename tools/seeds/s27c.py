PROP = 'C27'
EDITS = [('klayout_pex/kpex_cli.py', """            if hasattr(args, 'output_dir_path'):
                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
                reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
            sys.exit(1)
""", """            if hasattr(args, 'output_dir_path'):
                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
                reregister_log_file_handler(file_handler_plain, cli_log_path_formatted, formatter)
            sys.exit(1)
""")]
NEEDS = 'arguments found invalid after the output directory is known (here: a bad log level), and a message after that'
BREAKS = 'the handler of the preliminary kpex.log stays, so later messages are in kpex.log twice'
DEMO = '''
import argparse, os, tempfile
from klayout_pex import log
from klayout_pex.kpex_cli import KpexCLI, ArgumentValidationError
with tempfile.TemporaryDirectory() as d:
    def validate(args):
        args.output_dir_path = f'{d}/run'
        os.makedirs(args.output_dir_path, exist_ok=True)
        log.error('bad argument')
        raise ArgumentValidationError('bad')
    KpexCLI.validate_args = staticmethod(validate)
    try:
        KpexCLI().setup_logging(argparse.Namespace(output_dir_base_path=d, log_level='info'))
    except SystemExit as e:
        assert e.code
    log.error('good bye')
    for n in ('kpex.log', 'kpex_plain.log'):
        t = open(f'{d}/run/{n}').read()
        assert t.count('bad argument') == 1 and t.count('good bye') == 1, (n, t)
'''
