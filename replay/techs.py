"""the technologies that gen_tech_pb writes, built from the C++ sources of the repository, and what has to hold for them"""
import glob, json, os, re, shutil, subprocess, tempfile

DECKS = {'sky130A': 'pdk/sky130A/libs.tech/kpex/*.lvs', 'ihp_sg13g2': 'pdk/ihp_sg13g2/libs.tech/kpex/**/*.lvs'}
OPEN = '<TODO>'          # marks a computed layer that has no drawn layer yet


class NoBuild(Exception):
    pass


def built(repo):
    """compiles cxx/gen_tech_pb in a scratch folder and returns {file name: technology}"""
    d = tempfile.mkdtemp(prefix='kpextech')
    try:
        txt = re.sub(r'#[^\n]*', '', open(f'{repo}/CMakeLists.txt').read())

        def srcs(var):
            m = re.search(r'set\(' + var + r'\b([^)]*)\)', txt)
            return [os.path.join(repo, x.lstrip('/')) for x in re.findall(r'[A-Za-z0-9_./-]+\.(?:proto|cpp)', m.group(1))] if m else []
        cpp = srcs('GEN_TECH_PB_SOURCES') or glob.glob(f'{repo}/cxx/gen_tech_pb/**/*.cpp', recursive=True)
        run = lambda cmd, **k: subprocess.run(cmd, capture_output=True, text=True, timeout=600, **k)
        r = run(['protoc', f'-I{repo}/protos', f'--cpp_out={d}', *sorted(glob.glob(f'{repo}/protos/kpex/tech/*.proto'))])
        if r.returncode:
            raise NoBuild(r.stderr)
        cc = sorted(glob.glob(f'{d}/**/*.cc', recursive=True)) + cpp
        ps = [subprocess.Popen(['g++', '-std=gnu++23', '-w', f'-I{d}', f'-I{repo}/cxx/gen_tech_pb', '-c', c, '-o', f'{d}/{i}.o'],
                               stderr=subprocess.PIPE, text=True) for i, c in enumerate(cc)]
        errs = [p.communicate()[1] for p in ps]
        if any(p.returncode for p in ps):
            raise NoBuild('\n'.join(errs))
        r = run(['g++', *[f'{d}/{i}.o' for i in range(len(cc))], '-lprotobuf', '-lpthread', '-o', f'{d}/gen'])
        if r.returncode:
            raise NoBuild(r.stderr)
        r = run([f'{d}/gen', f'{d}/out'])
        if r.returncode:
            raise NoBuild(f'gen_tech_pb: {r.returncode} {r.stderr}')
        return {os.path.basename(f): json.load(open(f)) for f in sorted(glob.glob(f'{d}/out/*'))}
    finally:
        shutil.rmtree(d)


def deck(repo, name):
    """(names of the layers that the LVS deck exports, GDS pairs that it reads)"""
    words, pairs = set(), set()
    for f in glob.glob(os.path.join(repo, DECKS[name]), recursive=True):
        s = re.sub(r'(?m)^\s*#(?!\s*%).*$', '', open(f, errors='replace').read())
        if re.search(r'\bname\s*\(', s):
            for m in re.finditer(r'%w[\(\[]([^)\]]*)[\)\]]', s):
                words |= set(m.group(1).split())
            words |= set(re.findall(r'\bname\s*\([^,()]*,\s*["\'](\w+)["\']', s))
        pairs |= {(int(a), int(b)) for a, b in re.findall(r'\b(?:polygons|get_polygons|input|labels|get_labels)\s*\(\s*(\d+)\s*,\s*(\d+)\s*\)', s)}
    return words, pairs


def facts(t, name, repo):
    """yields (what has to hold, it holds, what is wrong)"""
    gp = lambda x: (x.get('layer', 0), x.get('datatype', 0))
    drawn = t.get('layers', [])
    comp = t.get('lvs_computed_layers', [])
    dn = {l['name']: l for l in drawn}
    cn = {}
    for c in comp:
        cn.setdefault(c['layer_info']['name'], c)
    purpose = lambda l: l.get('purpose', '').replace('PURPOSE_', '')
    kind = lambda c: c.get('kind', '').replace('KIND_', '')
    st = t['process_stack']['layers']
    typ = lambda l: l['layer_type'].replace('LAYER_TYPE_', '')
    of = lambda *ts: [l for l in st if typ(l) in ts]
    num = lambda d, k: float(d.get(k, 0))
    canon = lambda n: n if n in dn else cn[n]['original_layer_name'] if n in cn else None

    def each(what, bad): return what, not bad, '; '.join(map(str, bad))
    dups = lambda xs: sorted({repr(x) for x in xs if xs.count(x) > 1})
    yield each('the technology has its name', [] if t.get('name') == name else [t.get('name')])

    # layers
    yield each('drawn layers have different names', dups([l['name'] for l in drawn]))
    yield each('drawn layers have different GDS pairs', dups([gp(l[k]) for l in drawn for k in ('drw_gds_pair', 'pin_gds_pair', 'label_gds_pair') if k in l]))
    yield each('computed layers have different names', dups([c['layer_info']['name'] for c in comp]))
    by = {}
    for c in comp:
        by.setdefault(gp(c['layer_info']['drw_gds_pair']), set()).add((kind(c), c['original_layer_name']))
    yield each('computed layers that share a GDS pair come from one drawn layer', [(p, v) for p, v in by.items() if len(v) > 1])
    yield each('every computed layer has a kind', [c['layer_info']['name'] for c in comp if kind(c) not in ('REGULAR', 'DEVICE_CAPACITOR', 'DEVICE_RESISTOR', 'PIN', 'LABEL')])
    body = [c for c in comp if kind(c) not in ('PIN', 'LABEL')]
    yield each('a computed layer comes from a drawn layer', [(c['layer_info']['name'], c['original_layer_name']) for c in body
                                                          if c['original_layer_name'] not in dn and c['original_layer_name'] != OPEN])
    yield each('a computed metal, via or contact comes from one', [
        (c['layer_info']['name'], c['original_layer_name']) for c in body if c['original_layer_name'] in dn and purpose(c['layer_info']) in ('METAL', 'VIA', 'CONTACT')
        and purpose(dn[c['original_layer_name']]) != purpose(c['layer_info'])])
    for k, key in (('PIN', 'pin_gds_pair'), ('LABEL', 'label_gds_pair')):
        cs = [c for c in comp if kind(c) == k]
        base = lambda c: dn.get(c['original_layer_name'].rpartition('.')[0], {})
        yield each(f'a {k.lower()} layer is that of a drawn layer', [
            (c['layer_info']['name'], c['original_layer_name']) for c in cs if key not in base(c) or gp(base(c)[key]) != gp(c['layer_info']['drw_gds_pair'])])
        have = {base(c).get('name') for c in cs}
        yield each(f'every drawn metal has its {k.lower()} layer', [l['name'] for l in drawn if purpose(l) == 'METAL' and key in l and l['name'] not in have])
    have = {c['original_layer_name'] for c in body if kind(c) == 'REGULAR'}
    yield each('every drawn metal, via and contact has a computed layer', [l['name'] for l in drawn if purpose(l) in ('METAL', 'VIA', 'CONTACT') and l['name'] not in have])

    # process stack
    metals = [(l['name'], l['metal_layer']) for l in of('METAL')]
    for x in ('SUBSTRATE', 'FIELD_OXIDE'):
        yield each(f'one layer of type {x.lower()}', [] if len(of(x)) == 1 else [len(of(x))])
    yield each('there are metals and diffusions', [] if metals and of('DIFFUSION') else [1])
    yield each('conducting layers have different names', dups([l['name'] for l in of('METAL', 'DIFFUSION', 'NWELL', 'SUBSTRATE')]))
    yield each('every metal and diffusion of the stack has a GDS pair', [l['name'] for l in of('METAL', 'DIFFUSION') if canon(l['name']) is None])
    yield each('every drawn metal is in the stack', [l['name'] for l in drawn if purpose(l) == 'METAL' and l['name'] not in {canon(m) for m, _ in metals}])
    yield each('metals are thick and above the substrate', [m for m, x in metals if num(x, 'thickness') <= 0 or num(x, 'z') <= 0])
    top = lambda x: num(x, 'z') + num(x, 'thickness')
    yield each('metals come from the bottom to the top and do not overlap', [
        (a, b) for i, (a, x) in enumerate(metals) for b, y in metals[i + 1:]
        if not (canon(a) == canon(b) and num(x, 'z') == num(y, 'z')) and num(y, 'z') < top(x) - 1e-9])
    cons = [(l['name'], top(l['metal_layer']), l['metal_layer']['contact_above']) for l in of('METAL') if 'contact_above' in l['metal_layer']]
    cons += [(l['name'], 0, l['diffusion_layer']['contact_above']) for l in of('DIFFUSION') if 'contact_above' in l['diffusion_layer']]
    yield each('contacts have different names', dups([c['name'] for _, _, c in cons]))
    yield each('every diffusion has a contact', [l['name'] for l in of('DIFFUSION') if 'contact_above' not in l['diffusion_layer']])
    yield each('every contact is a computed via or contact', [c['name'] for _, _, c in cons if c['name'] not in cn or purpose(cn[c['name']]['layer_info']) not in ('VIA', 'CONTACT')])
    yield each('what is above and below a contact has a GDS pair', [(c['name'], c[k]) for _, _, c in cons for k in ('layer_below', 'metal_above') if canon(c.get(k)) is None])
    up = lambda c: {round(num(x, 'z'), 9) for m, x in metals if canon(m) == canon(c.get('metal_above'))}
    yield each('every contact ends at the metal above it', [(c['name'], round(z + num(c, 'thickness'), 9), up(c)) for _, z, c in cons if {round(z + num(c, 'thickness'), 9)} != up(c)])
    yield each('contacts have a width and a spacing', [c['name'] for _, _, c in cons if num(c, 'width') <= 0 or num(c, 'spacing') <= 0 or num(c, 'border') < 0])
    yield each('every metal but the top and the capacitor plates below a contact has a contact above', [
        m for m, x in metals if 'contact_above' not in x and top(x) < max(top(y) for _, y in metals) and
        not any('contact_above' in y and canon(n) == canon(m) for n, y in metals)])
    die = [(l['name'], typ(l), l.get({'SIMPLE_DIELECTRIC': 'simple_dielectric_layer', 'CONFORMAL_DIELECTRIC': 'conformal_dielectric_layer', 'SIDEWALL_DIELECTRIC': 'sidewall_dielectric_layer',
                                      'FIELD_OXIDE': 'field_oxide_layer'}[typ(l)], {})) for l in of('SIMPLE_DIELECTRIC', 'CONFORMAL_DIELECTRIC', 'SIDEWALL_DIELECTRIC', 'FIELD_OXIDE')]
    names = {l['name'] for l in st}
    wraps = [(n, d['reference']) for n, y, d in die if y in ('CONFORMAL_DIELECTRIC', 'SIDEWALL_DIELECTRIC')]
    yield each('every dielectric has a k above 0', [n for n, _, d in die if num(d, 'dielectric_k') <= 0])
    ks = {}
    for n, _, d in die:
        ks.setdefault(n, set()).add(num(d, 'dielectric_k'))
    yield each('a dielectric of one name has one k', [n for n, v in ks.items() if len(v) > 1])
    yield each('every dielectric refers to a layer of the stack', [(n, d.get('reference')) for n, y, d in die if y != 'FIELD_OXIDE' and d.get('reference') not in names])
    yield each('a sidewall or conformal dielectric is around a metal or another one', [(n, r) for n, r in wraps if r not in {m for m, _ in metals} | {w for w, _ in wraps}])
    yield each('at most one dielectric is around each', dups([r for _, r in wraps]))
    loops = []
    for n, _ in wraps:
        seen, x = set(), n
        while x not in seen and x in dict(wraps):
            seen.add(x)
            x = dict(wraps)[x]
        loops += [n] if x in seen else []
    yield each('chains of dielectrics end', loops)
    yield each('no dielectric is thinner than nothing', [n for n, _, d in die for k in d if k.startswith(('thickness', 'height', 'width')) and num(d, k) < 0])

    # parasitics
    par = t['process_parasitics']
    res, cap = par['resistance'], par['capacitance']
    yield each('the side halo is above 0', [] if num(par, 'side_halo') > 0 else [par.get('side_halo')])
    ms = [l['name'] for l in drawn if purpose(l) == 'METAL']
    zz = {canon(m): num(x, 'z') for m, x in metals}
    ms.sort(key=lambda m: zz.get(m, -1))
    wells = {l['name'] for l in drawn} | {'pwell'}
    known = lambda n: n in wells or n in cn
    for what, tab, keys, val in (('layer resistance', res['layers'], ['layer_name'], ['resistance']), ('via resistance', res['vias'], ['via_name'], ['resistance']),
                                 ('contact resistance', res['contacts'], ['contact_name', 'device_layer_name', 'layer_above'], ['resistance']),
                                 ('substrate capacitance', cap['substrates'], ['layer_name'], ['area_capacitance', 'perimeter_capacitance']),
                                 ('overlap capacitance', cap['overlaps'], ['top_layer_name', 'bottom_layer_name'], ['capacitance']),
                                 ('sidewall capacitance', cap['sidewalls'], ['layer_name'], ['capacitance']),
                                 ('fringe capacitance', cap['sideoverlaps'], ['in_layer_name', 'out_layer_name'], ['capacitance'])):
        yield each(f'every {what} is that of known layers', [e for e in tab if not all(known(e.get(k)) for k in keys)])
        yield each(f'every {what} is above 0', [e for e in tab if not all(num(e, v) > 0 for v in val)])
        got = [tuple(e.get(k) for k in keys) for e in tab]
        if what in ('layer resistance', 'substrate capacitance', 'sidewall capacitance'):
            yield each(f'one {what} for every metal', [m for m in ms if got.count((m,)) != 1])
        if what == 'via resistance':
            yield each('one via resistance for every via', [l['name'] for l in drawn if purpose(l) == 'VIA' and got.count((l['name'],)) != 1])
        if what == 'contact resistance':
            want = [(c['name'], c['layer_below'], c['metal_above']) for n, _, c in cons if purpose(cn.get(c['name'], {}).get('layer_info', {})) == 'CONTACT']
            yield each('one contact resistance for every contact', [w for w in want if got.count(w) != 1] + dups([g[1] for g in got]))
    ov = {(e['top_layer_name'], e['bottom_layer_name']): num(e, 'capacitance') for e in cap['overlaps']}
    fr = {(e['in_layer_name'], e['out_layer_name']): num(e, 'capacitance') for e in cap['sideoverlaps']}
    sub = {e['layer_name']: (num(e, 'area_capacitance'), num(e, 'perimeter_capacitance')) for e in cap['substrates']}
    cnt = lambda k: sum((e['top_layer_name'], e['bottom_layer_name']) == k for e in cap['overlaps'])
    cntf = lambda k: sum((e['in_layer_name'], e['out_layer_name']) == k for e in cap['sideoverlaps'])
    up = [(b, a) for i, a in enumerate(ms) for b in ms[i + 1:]]
    yield each('one overlap capacitance for every two metals, the upper one as top', [p for p in up if cnt(p) != 1 or cnt(p[::-1])])
    yield each('one fringe capacitance for every two metals in either direction', [p for p in up if cntf(p) != 1 or cntf(p[::-1]) != 1])
    lows = [l['name'] for l in drawn if purpose(l) in ('NWELL', 'PWELL')] + (['pwell'] if not any(purpose(l) == 'PWELL' for l in drawn) else [])
    yield each('metals have the capacitance to the substrate against wells', [(m, w) for m in ms for w in lows if m in sub and (ov.get((m, w)), fr.get((m, w))) != sub[m]])
    mono = lambda xs, key: [(xs[i], xs[i + 1]) for i in range(len(xs) - 1) if key(xs[i]) is None or key(xs[i + 1]) is None or key(xs[i]) >= key(xs[i + 1])]
    bad = []
    for i, m in enumerate(ms):
        bad += [(m, p) for p in mono(ms[:i], lambda x: ov.get((m, x)))] + [(m, p) for p in mono(ms[i + 1:][::-1], lambda x: ov.get((x, m)))]
    yield each('the nearer two metals the larger their overlap capacitance', bad)
    bad = []
    for i, m in enumerate(ms[1:], 1):
        bad += [(m, p) for p in mono(ms[:i], lambda x: fr.get((m, x)))] + [(m, p) for p in mono(ms[i + 1:][::-1], lambda x: fr.get((m, x)))]
    yield each('the nearer two metals above the poly the larger their fringe capacitance', bad)
    yield each('the higher a metal the smaller its capacitance to the substrate', mono(ms[::-1], lambda x: sub.get(x, (None,))[0]))

    # LVS deck
    words, pairs = deck(repo, name)
    yield each('the LVS deck exports every computed layer under its name', [c['layer_info']['name'] for c in comp if c['layer_info']['name'] not in words])
    yield each('the LVS deck reads every drawn layer', [(l['name'], gp(l[k])) for l in drawn for k in ('drw_gds_pair', 'pin_gds_pair')
                                                         if k in l and (k[0] == 'd' or purpose(l) == 'METAL') and gp(l[k]) not in pairs])
