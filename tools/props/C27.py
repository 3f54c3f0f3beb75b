title = 'Every message reaches console and log files, whole, once, at its level'
statement = '''A message given to debug, subproc, info, warning or error is logged with that level at the place of its caller, and shown on the console exactly once and in full if its level is not below the log
level set: solver output plain, warnings yellow, errors red. A kpex run leaves kpex.log and kpex_plain.log in its output directory, with all its messages of level SUBPROCESS or above from the first
on, also if the arguments turn out invalid (an error exit code), and keeps earlier logs under another name. Log levels are understood by name in any case, by kpex and the netlist tool, and the
help of an option with choices shows exactly the values it accepts and its default.'''
quantifier = 'all messages, log levels, locales, command lines and earlier logs; all enumerations shown in help texts'
why = '''What the programs and the extraction had to say is the only account of a run that went wrong; the tests look at none of it.'''
files = ['klayout_pex/log/logger.py', 'klayout_pex/kpex_cli.py', 'klayout_pex/netlist/netlist_cli.py', 'klayout_pex/util/argparse_helpers.py']
mechanism = [('messages', 'debug, subproc, info, warning, error'), ('console', 'configure_logger, LogLevelFilter, LogLevelFormatter'), ('level', 'set_log_level, get_log_level, LogLevel'),
             ('log files', 'KpexCLI.setup_logging'), ('names of levels', 'KpexCLI.validate_args, NetlistCLI.validate_args'), ('help', 'render_enum_help')]
observe = ['the text on the console', 'kpex.log, kpex_plain.log and the other files of the output directory', 'records of the logger', 'help texts']
note = '''logging and rich are models (handlers, filters, formatters, levels; escape as rich documents it). That :name: codes are shown as emoji by rich is left out. The set-up of the log files is proved
for every state of the output directory, with the messages of validation and of the later run told apart.'''
level = 'proof'
