"""/opt/venv/bin/python replay/driver.py <property> --out F      run the contract's concrete cross-check on the real code
   /opt/venv/bin/python replay/driver.py <property> --replay F   run one recorded case

A module replay/<property>.py gives
  RULE           how cases are made
  cases(rng, n)  generator of JSON-able cases (fixed ones first)
  check(case)    None, or what is wrong (a string), or ('<finding id>', string) for a recorded finding
  trivial(case)  optional
"""
import hashlib, importlib, json, os, random, resource, signal, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


LIMIT_S = 120


class Late(BaseException):
    pass


def late(*a): raise Late()


def run_check(m, case):
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT_S)
    try:
        return m.check(case)
    except Late:
        return f'no result after {LIMIT_S} s'
    except MemoryError:
        return 'memory used up (8 GB)'
    except m.Skip if hasattr(m, 'Skip') else ():
        return None
    except KeyboardInterrupt:
        raise
    except BaseException as e:      # the real code raised where the contract promises a result
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in reversed(tb[-4:]))
        return f'unexpected {type(e).__name__}: {e} [{where}]'
    finally:
        signal.alarm(0)


def main():
    pid = sys.argv[1]
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    os.chdir(os.environ.get('TMPDIR', '/tmp'))
    m = importlib.import_module(f'replay.{pid}')
    try:
        import klayout_pex.log as kl
        kl.set_log_level(kl.LogLevel.ERROR)
    except Exception:
        pass
    if '--replay' in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        r = run_check(m, d['case'])
        print('observed:', r)
        sys.exit(1 if r else 0)
    out = sys.argv[sys.argv.index('--out') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    budget = getattr(m, 'BUDGET_S', 40) * (1 if tier == 'quick' else 8)
    n = getattr(m, 'N', 400) * (1 if tier == 'quick' else 10)
    rng = random.Random(f'{pid}/{seed}')
    t0 = time.time()
    ev = 0
    seen = set()
    samples = []
    viol, known = [], {}
    sys.stdout = open(os.devnull, 'w')
    cur = open(out + '.cur', 'w')      # the case under way: left behind if the process is killed by a signal
    for case in m.cases(rng, n):
        if ev > 20 and time.time() - t0 > budget:
            break
        cur.seek(0)
        cur.truncate()
        json.dump(case, cur, default=str)
        cur.flush()
        r = run_check(m, case)
        ev += 1
        key = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()
        if not (hasattr(m, 'trivial') and m.trivial(case)):
            seen.add(key)
            if len(samples) < 2 and len(json.dumps(case, default=str)) < 1500:
                samples.append(case)
        if r:
            if isinstance(r, tuple):
                known.setdefault(r[0], dict(case=case, message=r[1]))
            else:
                viol.append(dict(case=case, message=r))
                if len(viol) >= 5 or str(r).startswith('no result after'):
                    break
    if not samples:
        samples = ['(cases are larger than the sample limit)']
    with open(out + '.tmp', 'w') as f:
        json.dump(dict(evaluations=ev, distinct_nontrivial=len(seen), rule=getattr(m, 'RULE', ''), samples=samples,
                       violations=viol, known=known, wall_s=round(time.time() - t0, 2)), f, default=str)
    os.replace(out + '.tmp', out)
    cur.close()
    os.remove(out + '.cur')
    sys.exit(0)


main()
