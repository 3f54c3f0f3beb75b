"""python3 tools/seed.py <sid>...   (all: every spec)
Makes seeded/<sid>/ from tools/seeds/<sid>.py (PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO), and verifies in a scratch
copy: stable tests pass with the change, demo passes without and fails with it; then runs the property's check on the copy.
With --check only the check is run."""
import glob, json, os, shutil, subprocess, sys, concurrent.futures as cf
H = '/verif'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV = {k: v for k, v in os.environ.items() if not k.startswith('KPEX')}


CAUGHT = {}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tests(d):
    env = dict(ENV, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', COLUMNS='120', PYTHONHASHSEED='0')
    xml = d + '.xml'
    r = sh(f'cd {d} && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml={xml} '
           f'-m "not slow" tests', env=env)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(xml).getroot().iter('testcase'):
        if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    os.remove(xml)
    return [t for t in STABLE if t not in ok]


def one(sid, check_only):
    P = {}
    P['__file__'] = f'{H}/tools/seeds/{sid}.py'
    exec(open(P['__file__']).read(), P)
    d = f'/tmp/seedwt_{sid}'
    shutil.rmtree(d, ignore_errors=True)
    out = []
    try:
        sh(f'cp -a /repo {d}')
        env = dict(ENV, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1')
        s = f'{H}/seeded/{sid}'
        os.makedirs(s, exist_ok=True)
        if not check_only:
            with open(f'{s}/demo.py', 'w') as f:
                f.write('import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + P['DEMO'].lstrip('\n'))
            with open(f'{s}/demo.sh', 'w') as f:
                f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(f'{s}/demo.sh', 0o755)
            a = sh(f'cd {d} && bash {s}/demo.sh', env=env)
            if a.returncode != 0:
                return f'{sid}: DEMO FAILS ON UNCHANGED TREE\n{a.stdout[-1500:]}'
        for f, old, new in P['EDITS']:
            t = open(f'{d}/{f}').read()
            if t.count(old) != 1:
                return f'{sid}: {f}: old text found {t.count(old)} times'
            open(f'{d}/{f}', 'w').write(t.replace(old, new))
        if any(f.startswith('cxx/') for f, _, _ in P['EDITS']):
            sys.path.insert(0, f'{H}/replay')
            import techs
            for n, t in techs.built(d).items():
                json.dump(t, open(f'{d}/klayout_pex_protobuf/{n}', 'w'), indent=1)
        if not check_only:
            diff = sh(f'git -C {d} diff').stdout
            open(f'{s}/patch.diff', 'w').write(diff)
            json.dump(dict(property=P['PROP'], needs=P['NEEDS'], what_it_breaks=P['BREAKS']), open(f'{s}/meta.json', 'w'), indent=1)
            b = sh(f'cd {d} && bash {s}/demo.sh', env=env)
            if b.returncode == 0:
                return f'{sid}: DEMO PASSES WITH THE PATCH'
            out.append('demo: ' + (b.stdout.strip().splitlines() or ['(silent)'])[-1][:150])
            t = tests(d)
            if t:
                return f'{sid}: TESTS FAIL {t}'
        ev = f'/tmp/seedev_{sid}'
        r = sh(f'cd {H} && VERIF_SEED=1 VERIF_REPO={d} VERIF_EVIDENCE={ev} python3-vt -B -m pyvc.check {P["PROP"]}')
        shutil.rmtree(ev, ignore_errors=True)
        lines = r.stdout.strip().splitlines()
        out.append(('CAUGHT' if r.returncode == 1 else f'MISSED rc={r.returncode}') + ' ' + ' | '.join(x[:220] for x in lines[-6:]))
        refuted = any('obligation not discharged' in x for x in lines)
        conc = r.returncode == 1 and not any('no-failing-input-found' in x for x in lines)
        CAUGHT[sid] = dict(rc=r.returncode, how=' and '.join([x for x, y in (('a refuted obligation', refuted), ('a failing input', conc)) if y]),
                           obligations=sorted({x.split('not discharged: ')[1].split(' [')[0] for x in lines if 'not discharged: ' in x})[:3])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return f'{sid} ({P["PROP"]}): ' + '; '.join(out)


ids = [a for a in sys.argv[1:] if not a.startswith('-')]
if ids == ['all']:
    ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(f'{H}/tools/seeds/*.py'))
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(lambda i: one(i, '--check' in sys.argv), ids):
        print(r, flush=True)
c = f'{H}/tools/doc/caught.json'
old = json.load(open(c)) if os.path.exists(c) else {}
json.dump({**old, **CAUGHT}, open(c, 'w'), indent=1, sort_keys=True)
