"""netlist reducer"""
RULE = ('random netlists with capacitors (both classes) around the threshold, parallel ones, resistors in two '
        'circuits; thresholds default and random; oracle: klayout dup + combine_devices, then drop capacitors below threshold; '
        'non-trivial: at least one capacitor is below and one at or above the threshold')
N = 500
from replay.netlists import *


def cases(rng, n):
    yield dict(spec=dict(nets=['A', 'B'], top='TOP', anchor=True, devs=[['Capacitor', [0, 1, None, None], 4e-17]] * 2), thr=None)
    yield dict(spec=dict(nets=['A', 'B', 'C'], top='TOP', anchor=True, devs=[['Capacitor', [i % 3, (i + 1) % 3, None, None], 1e-18] for i in range(12)]), thr=None)
    for i in range(n):
        one = rng.choice(['Capacitor', 'Capacitor', 'CapacitorWithBulk', 'mixed'])
        sp = tame(rng, rand_spec(rng, kinds=['Capacitor', 'Resistor', 'CapacitorWithBulk'] if one == 'mixed' else [one], maxdev=14))
        thr = rng.choice([None, None, 5e-17, 0.0, 1e-16, 2e-15, 1.0, rng.random() * 1e-16])
        t = 0.05e-15 if thr is None else thr
        for d in sp['devs']:
            if d[0].startswith('Cap') and rng.random() < .5:    # around the threshold
                d[2] = max(0.0, t * (1 + rng.choice([-1, 0, 1]) * 10.0 ** -rng.randrange(1, 15)))
            if d[0].startswith('Cap') and rng.random() < .1:
                d[2] = t + rng.choice([-1, 1]) * 1e-20
        yield dict(spec=sp, thr=thr)


def trivial(c):
    t = 0.05e-15 if c['thr'] is None else c['thr']
    v = [d[2] for d in c['spec']['devs'] if d[0].startswith('Cap')]
    return not (any(x < t for x in v) and any(x >= t for x in v))


def norm(devs):
    # combine_devices chooses names, order and orientation as it likes
    out = []
    for dc, ty, name, terms, pars in devs:
        t = sorted(str(x[1]) for x in terms if x[0] != 'W') if 'Cap' in ty or 'Res' in ty else [str(x) for x in terms]
        out.append((dc, t, [str(x) for x in terms if x[0] == 'W'], [f'{k}={v:.9g}' for k, v in pars]))
    return sorted(map(str, out))


class Combined:
    """a netlist whose combine_devices is the real one, observed (klayout merges series and parallel devices in an order it
    does not define, so the state right behind it is taken from this very run)"""
    def __init__(self, nl, log):
        self.nl, self.log = nl, log

    def __getattr__(self, n): return getattr(self.nl, n)
    def dup(self): return Combined(self.nl.dup(), self.log)

    def combine_devices(self):
        was = content(self.nl)
        self.nl.combine_devices()
        self.log.append((was, content(self.nl)))


def check(c):
    from klayout_pex.klayout.netlist_reducer import NetlistReducer
    nl = build(c['spec'])
    before = content(nl)
    kw = {} if c['thr'] is None else dict(cap_threshold=c['thr'])
    thr = 0.05e-15 if c['thr'] is None else c['thr']
    log = []
    try:
        out = NetlistReducer.reduce(netlist=Combined(nl, log), top_cell_name='TOP', **kw)
    except RuntimeError as e:
        if 'in Netlist.combine_devices' in str(e):
            return None          # klayout's own failure
        raise
    if content(nl) != before:
        return 'the argument was modified'
    if len(log) != 1:
        return f'devices were combined {len(log)} times'
    was, want = log[0]
    if was != before:
        return 'the netlist was changed before its parallel devices were combined'
    exp = [d for d in want['TOP'][1] if not ('Capacitor' in d[1] and dict(d[4])['C'] < thr)]
    got = content(out)
    if norm(got['SUB'][1]) != norm(want['SUB'][1]):
        return 'another circuit was modified'
    if norm(got['TOP'][1]) != norm(exp):
        return f'devices {norm(got["TOP"][1])}, expected {norm(exp)} (threshold {thr})'
    if any(got[k][0] != want[k][0] for k in want) or sorted(got) != sorted(want):
        return 'nets changed'
    if any(got[k][2] != want[k][2] for k in want):
        return 'pins or instances changed'
