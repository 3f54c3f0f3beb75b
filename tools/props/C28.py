title = 'Solvers and LVS run as asked for, with their whole output in the log'
statement = '''FasterCap, FastCap2, KLayout LVS, MAGIC and netlistsvg are started once, with the given program, exactly the options asked for and files that mean the same in the directory
they run in, without standard input, and have ended when their step is over. Everything they print (both streams) is in the log file, line by line, a non-zero exit status is an error (for LVS a warning), and the working
directory of kpex stays what it was. The MAGIC script extracts the flattened cell with the mode, halo, thresholds and merging asked for and writes the netlist to the given file.'''
quantifier = 'all option values, paths (relative and absolute), outputs of any length and any bytes, exit statuses'
why = '''The tests never start a program; a missing option or a truncated log still gives a plausible matrix, a changed working directory breaks the steps after it.'''
files = ['klayout_pex/fastercap/fastercap_runner.py', 'klayout_pex/fastcap/fastcap_runner.py', 'klayout_pex/klayout/lvs_runner.py', 'klayout_pex/magic/magic_runner.py',
         'klayout_pex/netlistsvg/netlistsvg_runner.py']
mechanism = [('solvers', 'run_fastercap, run_fastcap'), ('LVS', 'LVSRunner.run_klayout_lvs'), ('MAGIC', 'prepare_magic_script, run_magic'), ('netlistsvg', 'run_netlistsvg')]
observe = ['the command lines', 'the log files', 'exceptions of the runners']
note = '''The loops that copy the output are cut by an invariant on the position in a ghost sequence of lines; paths are symbols, what they mean in a directory is a function of
both. The executions run stand-in programs that record how they were called and interpret the MAGIC scripts command by command.'''
