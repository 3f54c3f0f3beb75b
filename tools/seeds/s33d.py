PROP = 'C33'
EDITS = [('klayout_pex/kpex_cli.py', 'if cell.name == args.effective_cell_name:', 'if cell.name.casefold() == args.effective_cell_name.casefold():')]
NEEDS = 'two cells whose names differ in case only'
BREAKS = 'the other cell is extracted'
DEMO = '''
import os, shutil, sys, tempfile
import klayout.db as kdb
from klayout_pex.env import Env
d = os.path.realpath(tempfile.mkdtemp())
os.chdir(d)
def layout(path, tops):
    ly = kdb.Layout()
    l = ly.layer(1, 0)
    for i, t in enumerate(tops):
        ly.create_cell(t).shapes(l).insert(kdb.Box(0, 0, 10 + i, 10))
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    ly.write(path)
def db(path, name):
    ly = kdb.Layout()
    t = ly.create_cell(name)
    l = ly.layer(1, 0)
    t.shapes(l).insert(kdb.Box(0, 0, 10, 10))
    x = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(ly, t, []))
    x.connect(x.make_layer(l, 'a'))
    x.extract_netlist()
    x.write(path)
open('kl', 'w').write('#!/bin/sh\\nfor a in "$@"; do case "$a" in report=*) cp "$DB" "${a#report=}";; esac; done\\n')
os.chmod('kl', 0o755)
os.environ['KPEX_KLAYOUT_EXE'] = d + '/kl'
from klayout_pex.kpex_cli import KpexCLI
def args(*argv):
    a = KpexCLI.parse_args(['--2.5D', '--out_dir', 'out', '--cache-dir', 'cc', *argv], Env.from_os_environ())
    os.makedirs('out', exist_ok=True)
    KpexCLI.validate_args(a)
    return a
def run(name, *argv):
    db(d + '/db.gz', name)
    os.environ['DB'] = d + '/db.gz'
    x = KpexCLI().create_lvsdb(args(*argv))\n    return x.internal_top_cell().name
try:
    layout('t.gds', ['Inv', 'INV', 'TOP', 'inv'])
    for c in ('Inv', 'INV', 'inv'):
        a = args('--pdk', 'sky130A', '--gds', 't.gds', '--cell', c)
        ly = kdb.Layout()
        ly.read(a.effective_gds_path)
        assert [t.name for t in ly.top_cells()] == [c], (c, [t.name for t in ly.top_cells()])
finally:
    os.chdir('/')
    shutil.rmtree(d)
'''
