import os, sys
import z3
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'replay'))
import techs
from ..engine import Undecided

REPO = os.environ.get('VERIF_REPO', '/repo')
ASSUMPTIONS = ['g++ and the installed protobuf build gen_tech_pb as the release build does',
               'the LVS decks are read as text: %w lists of files that call name(), and the pairs given to input, polygons, get_polygons and labels']


def technologies(I):
    """main of gen_tech_pb (no input) ensures for every technology: each statement of replay/techs.py, evaluated on what the compiled code writes"""
    try:
        b = techs.built(REPO)
    except techs.NoBuild as e:
        raise Undecided(f'gen_tech_pb does not build: {e}'[:300])
    I.prove('both technologies are written, and nothing else', z3.BoolVal(sorted(b) == sorted(f'{n}_tech.pb.json' for n in techs.DECKS)))
    for n in techs.DECKS:
        t = b.get(f'{n}_tech.pb.json')
        if t is None:
            continue
        I.functions_seen[f'cxx/gen_tech_pb/pdk/{n}.cpp:buildTech'] = 1
        try:
            for what, ok, why in techs.facts(t, n, REPO):
                I.prove(f'{n}: {what}', z3.BoolVal(bool(ok)))
        except (KeyError, IndexError, TypeError) as e:
            raise Undecided(f'{n}: shape of the technology: {e!r}')


HARNESSES = [('technologies', technologies)]
