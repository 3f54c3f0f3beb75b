title = 'The inputs are the ones asked for; a cached LVS database is never a stale one'
statement = '''A kpex command line is accepted exactly if its programs, technology, engine and input files exist and the cell is in the layout (or the layout has one top cell); then layout file,
output directory, schematic and cell all belong to this input, and what LVS gets is the asked-for cell as the only top cell. The LVS database is the given one, or the one this run's LVS wrote, or
the cached one of exactly this layout file, cell and PDK, and that only if it is newer than the layout and caching is on; an LVS run that writes no database is an error and leaves
the cache as it was.'''
quantifier = 'all layouts (number and names of cells and top cells), non-empty paths, combinations of options and missing files, and histories of runs sharing a cache'
why = '''A stale or foreign database gives a plausible netlist of another layout; whether one is used depends on the order of runs, file ages and directories, which no test plays through.'''
files = ['klayout_pex/kpex_cli.py', 'klayout_pex/pdk_config.py', 'klayout_pex/klayout/lvs_runner.py', 'klayout_pex/util/multiple_choice.py']
mechanism = [('choice of the inputs', 'KpexCLI.validate_args'), ('database and cache', 'KpexCLI.create_lvsdb'), ('PDK', 'PDK.config'), ('LVS', 'LVSRunner.run_klayout_lvs')]
observe = ['the namespace validate_args leaves', 'the database create_lvsdb returns', 'the files in output and cache directory']
note = '''Files are a ghost map from paths to existence, age and content; LVS is used through its contract (C28), the filter through its (C21). The search for the cell is a loop cut by
"no cell before has the name". The executions play histories of runs through parse_args, validate_args and create_lvsdb with a stand-in for KLayout and file ages set by the harness.'''
