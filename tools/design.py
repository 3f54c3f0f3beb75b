"""python3-vt tools/design.py: writes DESIGN.md from tools/doc/, the property texts, the contracts and the seeds"""
import glob, importlib, json, os, re, sys, ast
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
doc = lambda f: open(os.path.join(H, 'tools', 'doc', f)).read()
one = lambda s: ' '.join(s.split())
out = [doc('head.md'), '## 3 The properties\n\nFor each: what is specified and how it is decided. "Requires … ensures …" are the contracts (docstrings of the harnesses in '
       '`pyvc/contracts/`); "concrete" is the rule by which the executed contract generates its cases.\n\n']
caught = json.load(open(os.path.join(H, 'tools', 'doc', 'caught.json')))
seeds = {}
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
na = []
for f in sorted(glob.glob(os.path.join(H, 'tools', 'props', '*.py'))):
    P = {}
    exec(open(f).read(), P)
    pid = os.path.basename(f)[:-3]
    if P.get('na'):
        na.append((pid, P))
        continue
    o = [f'### {pid} {P["title"]}\n', f'Level: {P.get("level", "proof")}. Code: ' + '; '.join(f'{b} ({a})' for a, b in P['mechanism']) + '\n']
    if os.path.exists(os.path.join(H, 'pyvc', 'contracts', pid + '.py')):
        m = importlib.import_module('pyvc.contracts.' + pid)
        for h in m.HARNESSES:
            o.append(f'* `{h[0]}` — {one(h[1].__doc__ or "(see source)")}')
        if getattr(m, 'ASSUMPTIONS', None):
            o.append('* assumed: ' + '; '.join(m.ASSUMPTIONS))
    t = ast.parse(open(os.path.join(H, 'replay', pid + '.py')).read())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'N', 'BUDGET_S'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    o.append(f'* concrete ({c.get("N", "?")} cases or {c.get("BUDGET_S", "?")} s): {one(c.get("RULE", ""))}')
    o.append(f'* why tests cannot: {one(P["why"])}')
    o.append(f'* limits: {one(P["note"])}')
    o.append('')
    out.append('\n'.join(o) + '\n')
out.append('## 4 Defects found (all by a contract that failed; each shown with an input on the real code)\n\n' + doc('defects.md') + '\n')
for l in open(os.path.join(H, 'known_findings.txt')):
    m = re.match(r'(fixed|finding): property=(\S+) (\S+) (.*)', l)
    if m:
        out.append(f'* {m[1]} {m[2]} `{m[3]}` {m[4]}\n')
out.append('\n## 5 Planted bugs\n\n' + doc('seeds.md') + '\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n')
for pid, l in sorted(seeds.items()):
    for s, m in l:
        how = caught.get(s, {}).get('how', '?')
        obs = caught.get(s, {}).get('obligations')
        out.append(f'| {s} | {m["property"]} | {one(m["needs"])} | {one(m["what_it_breaks"])} | {how or "**missed**"}{" (" + "; ".join(obs) + ")" if obs else ""} |\n')
out.append('\n' + doc('tail.md'))
out.append('## 7 Not claimed\n\n' + doc('notclaimed.md') + '\n' + ''.join(f'* {p} {P["title"]}: {one(P["na"])}\n' for p, P in na) + '\n')
out.append(doc('layout.md'))
open(os.path.join(H, 'DESIGN.md'), 'w').write(''.join(out))
print(sum(x.count('\n') for x in out), 'lines')
