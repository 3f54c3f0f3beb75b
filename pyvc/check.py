"""python3-vt -m pyvc.check <property> [--thorough]

1. proof     every harness of contracts/<property>.py: obligations generated from /repo's current source, discharged by z3/cvc5
2. concrete  the same contract, executed: replay/<property>.py runs the real code (in /opt/venv) against the contract's
             oracle -- the source of failing inputs for undischarged obligations, the cross-check of the assumed
             contracts, and the bounded stand-in for what the verifier cannot reach
"""
import hashlib, importlib, json, multiprocessing as mp, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = os.environ.get('VERIF_VENV', '/opt/venv/bin/python')


def prove_one(job):
    pid, idx, timeout_ms, limit = job
    from .engine import Interp
    m = importlib.import_module(f'pyvc.contracts.{pid}')
    name, h = m.HARNESSES[idx][:2]
    t = time.time()
    # where a harness gives several invariants for the same loops (ways to do the work), a proof with any of them is a proof
    first = None
    for v in range(getattr(h, 'variants', 1)):
        I = Interp(timeout_ms=timeout_ms)
        I.variant = v
        I.deadline = t + limit
        try:
            und = I.explore(h)
        except Exception as e:       # an engine failure is an undecided harness, never a verdict
            import traceback
            und = [f'engine: {type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3].strip()}']
        first = first or (I, und)
        if not und and all(o.status == 'discharged' for o in I.obligations.values()):
            break
    else:
        I, und = first
    obs = [dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 4), model=str(o.model)[:1500],
                where=o.where.strip(), formula=o.formula[:1500]) for o in I.obligations.values()]
    vac = [n for n, c in I.covers.items() if c == 'unsat']
    # an obligation all of whose paths are infeasible is vacuous
    return dict(harness=name, doc=(h.__doc__ or '').strip(), undecided=und, obligations=obs, paths=getattr(I, 'npaths', 0),
                solver_s=round(I.solver_time, 3), functions=sorted(I.functions_seen), assumed=sorted(I.contract_calls),
                vacuous=vac, covers=dict(sat=sum(c == 'sat' for c in I.covers.values()),
                                         unknown=sum(c == 'unknown' for c in I.covers.values())),
                wall_s=round(time.time() - t, 2))


def prove_job(job, q):
    q.put((job[1], prove_one(job)))


def run_proofs(pid, tier):
    try:
        m = importlib.import_module(f'pyvc.contracts.{pid}')
    except ModuleNotFoundError as e:
        if f'contracts.{pid}' not in str(e):
            raise
        return None, []
    limit = 240 if tier == 'quick' else 1500
    tmo = 15000 if tier == 'quick' else 60000
    jobs = [(pid, i, tmo, limit) for i in range(len(m.HARNESSES))]
    out = {}
    pending = list(jobs)
    running = []
    q = mp.Queue()
    while pending or running:
        while pending and len(running) < 7:
            j = pending.pop(0)
            p = mp.Process(target=prove_job, args=(j, q), daemon=True)
            p.start()
            running.append((p, j, time.time()))
        try:
            i, r = q.get(timeout=0.2)
            out[i] = r
        except Exception:
            pass
        for x in list(running):
            p, j, t = x
            if j[1] in out:
                p.join(5)
                running.remove(x)
            elif time.time() - t > limit + 60 or (not p.is_alive() and time.time() - t > 5 and q.empty()):
                p.kill()
                out.setdefault(j[1], dict(harness=m.HARNESSES[j[1]][0], doc='', undecided=['verifier ended without an answer'],
                                          obligations=[], paths=0, solver_s=0, functions=[], assumed=[], vacuous=[],
                                          covers={}, wall_s=round(time.time() - t, 2)))
                running.remove(x)
    return m, [out[i] for i in range(len(jobs))]


def start_concrete(pid, tier, seed, outfile):
    if not os.path.exists(os.path.join(HERE, 'replay', f'{pid}.py')):
        return None
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONHASHSEED='0')
    return subprocess.Popen([VENV, os.path.join(HERE, 'replay', 'driver.py'), pid, '--out', outfile], cwd=HERE, env=env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


def load_findings(pid):
    fs = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                kv = dict(x.split('=', 1) for x in line[9:].split()[:2])
                if kv.get('property') == pid:
                    fs.append((kv['id'], ' '.join(line[9:].split()[2:])))
    return fs


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    EV = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    rdir = os.path.join(EV, 'replay')
    os.makedirs(rdir, exist_ok=True)
    cfile = os.path.join(rdir, f'{pid}.concrete.json')
    if os.path.exists(cfile):
        os.remove(cfile)
    proc = start_concrete(pid, tier, seed, cfile)
    m, proofs = run_proofs(pid, tier)
    conc = None
    if proc is not None:
        try:
            _, err = proc.communicate(timeout=780 if tier == 'quick' else 3000)
        except subprocess.TimeoutExpired:
            proc.kill()
            err = 'time limit'
        if os.path.exists(cfile):
            conc = json.load(open(cfile))
        elif err == 'time limit' and os.path.exists(cfile + '.cur') and time.time() - os.path.getmtime(cfile + '.cur') > 300:
            case = json.load(open(cfile + '.cur'))
            conc = dict(evaluations=1, distinct_nontrivial=1, rule='', samples=[case], known={}, violations=[dict(case=case, message='no result after 300 s')])
        elif proc.returncode in (-11, -6, -8, -4, -7) and os.path.exists(cfile + '.cur'):
            # the code under test took the process down
            case = json.load(open(cfile + '.cur'))
            msg = f'the process was killed by signal {-proc.returncode}'
            conc = dict(evaluations=1, distinct_nontrivial=1, rule='', samples=[case], known={},
                        violations=[dict(case=case, message=msg)])
        else:
            print(f'{pid}: the concrete check gave no answer: {err[-2000:]}')
    findings = load_findings(pid)
    obs = [dict(o, harness=p['harness']) for p in proofs for o in p['obligations']]
    dis = [o for o in obs if o['status'] == 'discharged']
    # an obligation about the shape of the run (no formula left to solve) that never holds says that the contract does not
    # fit this text: undecided.  One that holds on some paths and fails on others is a refutation
    holds = {(o['harness'], o['name']) for o in dis}
    shape = [o for o in obs if o['status'] == 'refuted' and not o['name'].startswith('no uncaught') and o['formula'].strip() == 'false' and (o['harness'], o['name']) not in holds]
    refuted = [o for o in obs if o['status'] == 'refuted' and o not in shape]
    # where the contracts do not understand the text (the engine gave up on a path), a refutation in the same harness may be a consequence of that:
    # without a failing input it decides nothing
    lost = {p['harness'] for p in proofs if p['undecided']}
    doubt = [o for o in refuted if o['harness'] in lost]
    refuted = [o for o in refuted if o['harness'] not in lost]
    undecided = [f"{p['harness']}: {u}" for p in proofs for u in p['undecided']]
    undecided += [f"{p['harness']}: vacuous obligation {v}" for p in proofs for v in p['vacuous']]
    undecided += [f"{o['harness']}: {o['name']}: solver gave {o['status']}" for o in obs if o['status'] == 'unknown']
    undecided += [f"{o['harness']}: does not have the expected shape: {o['name']} [{o['where']}]" for o in shape]
    undecided += [f"{o['harness']}: not discharged, in a text that is not understood: {o['name']} [{o['where']}]" for o in doubt]
    mod = m
    level = 'proof' if proofs else 'exploration'
    bounded = list(getattr(mod, 'BOUNDED', [])) if mod else ['whole property (no contract within reach)']
    viol = (conc or {}).get('violations', [])
    known_hit = (conc or {}).get('known', {})
    code = 0
    known_ids = {f[0] for f in findings}
    for fid, what in findings:
        if fid in known_hit:
            print(f'KNOWN-FINDING: property={pid} {what}')
    for fid, w in known_hit.items():
        if fid not in known_ids:
            viol = viol + [w]
    lines = []
    if viol:
        v = viol[0]
        path = os.path.join(rdir, f'{pid}.json')
        json.dump(dict(property=pid, kind='failing input on the real code', case=v['case'], observed=v['message'],
                       failed_obligations=(refuted + doubt)[:5] + [o for o in obs if o['status'] == 'unknown'][:5], undecided=undecided[:10],
                       replay_cmd=f'{VENV} {HERE}/replay/driver.py {pid} --replay {path}', others=viol[1:5]),
                  open(path, 'w'), indent=1, default=str)
        print(f'{pid}: {v["message"][:1500]}')
        for o in (refuted + doubt)[:3]:
            print(f'{pid}: obligation not discharged: {o["harness"]}: {o["name"]} [{o["where"]}]')
        lines.append(f'VIOLATION property={pid} replay={path}')
        code = 1
    elif refuted:
        path = os.path.join(rdir, f'{pid}.json')
        json.dump(dict(property=pid, kind='failed obligation, no failing input found', failed_obligations=refuted[:20],
                       undecided=undecided[:10]), open(path, 'w'), indent=1, default=str)
        for o in refuted[:5]:
            print(f'{pid}: obligation refuted: {o["harness"]}: {o["name"]} [{o["where"]}] {o["model"][:400]}')
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')
        code = 1
    for u in undecided:
        print(f'{pid}: undecided: {u}')
    proved = bool(proofs) and not undecided and not refuted
    if code == 0 and not proved and (conc is None or not conc.get('evaluations')):
        print(f'{pid}: no answer (proof undecided and no concrete evidence)')
        code = 2
    backends = {}
    for o in dis:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    cov = dict(
        obligations=len(obs), discharged=len(dis), refuted=len(refuted), refuted_but_not_understood=len(doubt), shape_mismatch=len(shape),
        unknown=sum(o['status'] == 'unknown' for o in obs),
        checker_cmd=f'python3-vt -m pyvc.check {pid}',
        trusted_base=['pyvc engine (/verif/pyvc): Python semantics, path enumeration, loop cuts', 'z3', 'cvc5',
                      'ast parser of CPython'] + list(getattr(mod, 'TRUSTED', [])),
        proof_complete=proved, backends=backends, solver_s=round(sum(p['solver_s'] for p in proofs), 3),
        functions_under_contract=sorted({f for p in proofs for f in p['functions']}),
        callee_contracts_used=sorted({f for p in proofs for f in p['assumed']}),
        harnesses=[dict(name=p['harness'], contract=p['doc'], paths=p['paths'], obligations=len(p['obligations']),
                        reachability=p['covers'], wall_s=p['wall_s']) for p in proofs],
        obligation_names=sorted({f"{o['harness']}: {o['name']}" for o in obs}),
        undecided=undecided, bounded_stand_ins=bounded)
    if conc:
        cov.update(evaluations=conc['evaluations'], distinct_nontrivial=conc['distinct_nontrivial'],
                   rule=conc['rule'], samples=conc['samples'], known_findings_seen=sorted(known_hit))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) if mod else [],
              wall_s=round(time.time() - t0, 2), violations=len(viol) + (len(refuted) if not viol else 0))
    with open(os.path.join(EV, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {len(dis)}/{len(obs)} obligations discharged'
          + (f', {conc["evaluations"]} concrete evaluations' if conc else '')
          + (' -- PROVED' if proved else ' -- not proved' if proofs else ' -- bounded') + f' ({time.time() - t0:.1f}s)')
    for line in lines:
        print(line)
    return code


if __name__ == '__main__':
    sys.exit(main())
