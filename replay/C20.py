"""the shipped technologies"""
RULE = 'both technologies, built from the C++ sources; every statement about them (complete: nothing is chosen); every case is non-trivial'
N = 2
import os
import techs


def cases(rng, n):
    for t in sorted(techs.DECKS):
        yield dict(tech=t)


def trivial(c): return False


_built = []


def check(c):
    repo = os.environ.get('VERIF_REPO', '/repo')
    if not _built:
        _built.append(techs.built(repo))
    t = _built[0].get(c['tech'] + '_tech.pb.json')
    if t is None:
        return f'{c["tech"]}_tech.pb.json is not written'
    for what, ok, why in techs.facts(t, c['tech'], repo):
        if not ok:
            return f'{c["tech"]}: {what}: {why}'
