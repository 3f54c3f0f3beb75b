"""python3 tools/meta.py: writes properties.jsonl and MANIFEST.json (the property texts live in tools/props/*.py)"""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(H, 'tools', 'props', '*.py'))):
    P = {}
    exec(open(f).read(), P)
    pid = os.path.basename(f)[:-3]
    assert len(P['title']) <= 80, pid
    props.append(dict(id=pid, title=P['title'], statement=' '.join(P['statement'].split()),
                      quantifier=dict(over=P.get('over', ['inputs']), text=' '.join(P['quantifier'].split())),
                      why_tests_cant=' '.join(P['why'].split()),
                      anchors=dict(files=P['files'], mechanism=[dict(name=a, where=b) for a, b in P['mechanism']],
                                   state=[dict(name=a, meaning=b, where=c) for a, b, c in P.get('state', [])],
                                   observe_at=P['observe'], hook_needed=None)))
    if P.get('na'):
        na.append(dict(property=pid, reason=' '.join(P['na'].split())))
        continue
    level = P.get('level', 'proof')
    checks.append(dict(property=pid, quick_cmd=f'python3-vt -B -m pyvc.check {pid}',
                       thorough_cmd=f'python3-vt -B -m pyvc.check {pid} --thorough',
                       technique=P.get('technique', 'contract-based deductive verification of the Python source (own VC generator, z3/cvc5), '
                                       'contract replayed on the real code'),
                       level=level, level_note=' '.join(P['note'].split())))
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='python3-vt -B -c "import z3, cvc5, pyvc.engine"', checks=checks, not_applicable=na,
               notes='No hooks in /repo are needed. pyvc/ is the verifier, pyvc/contracts the contracts, replay/ their executable form.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, s)
    jsonschema.validate(json.load(open(os.path.join(H, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    print('jsonschema not available here; use python3-vt')
print(len(props), 'properties,', len(checks), 'checks')
