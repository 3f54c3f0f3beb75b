"""dielectric filter patterns"""
RULE = ('random patterns (with and without all / none, contradictory ones, names that contain all or none, upper case, spaces, the same name twice) and names, '
        'against the documented meaning; non-trivial: a pattern with an entry')
N = 1000
NAMES = ['nild5', 'nild6', 'capild', 'psg', 'smallk', 'nonesuch', 'Nild5', 'fall', 'all2', 'x', '']


def cases(rng, n):
    for i in range(n):
        base = rng.choice(['all', 'none', 'ALL', ' none', 'all ', 'all', 'none', None])
        b = (base or '').strip().lower()
        sign = '+' if b == 'none' else '-' if b == 'all' else rng.choice('+-')
        ent = [(sign if rng.random() < .9 else rng.choice('+-')) + rng.choice(NAMES) for _ in range(rng.randrange(4))]
        ent = [rng.choice([e, e, ' ' + e, e + ' ', e.upper()]) for e in ent]
        if rng.random() < .05:
            ent.append(rng.choice(['all', 'none']))
        c = ([base] if base else []) + ent
        if rng.random() < .2:
            rng.shuffle(c)
        yield dict(p=','.join(c), names=rng.sample(NAMES, rng.randrange(len(NAMES) + 1)))


def trivial(c): return '+' not in c['p'] and '-' not in c['p']


def check(c):
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    t = [x.strip().lower() for x in c['p'].split(',')]
    inc, exc = {x[1:] for x in t if x[:1] == '+'}, {x[1:] for x in t if x[:1] == '-'}
    a, n = 'all' in t, 'none' in t
    bad = (a and n) or (n and exc) or (a and inc)
    try:
        m = MultipleChoicePattern(pattern=c['p'])
    except ValueError:
        return None if bad else f'pattern {c["p"]!r} is rejected'
    if bad:
        return f'contradictory pattern {c["p"]!r} is accepted'
    w = [x for x in c['names'] if (x.lower() not in exc if a else x.lower() in inc)]
    g = [x for x in c['names'] if m.is_included(x)]
    if g != w:
        return f'pattern {c["p"]!r} includes {g} of {c["names"]}, not {w}'
    if m.filter(c['names']) != w:
        return f'pattern {c["p"]!r}: filter gives {m.filter(c["names"])} of {c["names"]}, not {w}'
