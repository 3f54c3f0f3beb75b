title = 'Every engine gets the options asked for; its files hold its own results'
statement = '''Each documented option reaches its engine as converted and with its documented default (executables: from the environment, else their default), an engine runs exactly if it is asked
for and has its inputs (2.5D, FasterCap, FastCap2: a database with extracted layers), and a given halo replaces that of the technology. FasterCap and FastCap2 results are those of the solver's
own matrix: raw, averaged, the netlist expanded with the averaged matrix, and the reduced one, each in its own file; the 2.5D CSV and SPICE netlist hold the sums of the very
extraction, numbered and rounded to 3 digits; MAGIC runs the script of the options, and its netlist and report are those of its run.'''
quantifier = 'all command lines (every value of every option and environment variable), databases, layouts and outputs of the solvers'
why = '''The engines are glued by a thousand lines that pass values by hand; a mix-up (the raw matrix expanded, another cell name, an option dropped in one engine) gives plausible files; the tests run
one engine with defaults.'''
files = ['klayout_pex/kpex_cli.py', 'klayout_pex/env.py', 'klayout_pex/util/argparse_helpers.py', 'klayout_pex/magic/magic_runner.py']
mechanism = [('options', 'KpexCLI.parse_args'), ('order of work', 'KpexCLI.main'), ('field solvers', 'KpexCLI.run_fastercap_extraction, run_fastcap_extraction, build_fastercap_input'),
             ('2.5D', 'KpexCLI.run_kpex_2_5d_engine'), ('MAGIC', 'KpexCLI.run_magic_extraction'), ('environment', 'Env.from_os_environ'), ('yes and no', 'true_or_false')]
observe = ['the namespace of parse_args', 'what the programs are started with', 'the files in the output directory', 'rcx25_extraction_results and the paths kept for the caller']
note = '''The steps (runners, parsers, averaging, expansion, reduction, writers, extraction) are used through their contracts as functions of what they are given, so a file's content is a term over the
step functions; argparse is a model that records the options. The executions run KpexCLI.main with stand-ins for the programs and compare every result file with the same
steps done one by one.'''
