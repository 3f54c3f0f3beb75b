"""marker reports that lost categories"""
RULE = ('random marker reports (categories with any printable names on up to four levels, cells, items with values), written by KLayout, damaged by taking away random category elements '
        'of any level, plain or compressed, then repaired and loaded; and the path texts of random categories taken apart; non-trivial: a category is missing')
N = 400
BUDGET_S = 60
import builtins, copy, gzip, os, re, tempfile
import xml.etree.ElementTree as ET
import klayout.db as kdb
import klayout.rdb as rdb
from klayout_pex.klayout import repair_rdb as mod

NAMES = ['a', 'b', 'M1.width', 'it\'s', 'x\\y', 'ü', 'µm² ≥ 0.5', 'a b', '1st', 'A$1', '"q"', '<b>&', '[x]', '\'', '\\\'', 'ü1', 'é123', '\\303', '😀7', 'M1', '', ' ', '.', '..', 'a.b.c', '(net) 0', '*', '@x', '/a', 'None',
         'a\nb', 'tab\t1']


def name(rng, used=()):
    if used and rng.random() < .35:      # like another one: equal, longer, shorter, other case
        o = rng.choice(used)
        return rng.choice([o, o, o + '0', o + '.x', o[:-1], o.upper(), o + ' ', "'" + o + "'"])
    if rng.random() < .4:
        return rng.choice(['M', 'a', 'net', 'width']) + rng.choice(['', '', '1', '10', '_x'])
    if rng.random() < .7:
        return rng.choice(NAMES)
    return ''.join(rng.choice('ab1.\'\\ "_[]<>&ü€7/') for _ in range(rng.randrange(1, 7)))


def cases(rng, n):
    for i in range(n):
        cats = []            # [parent index or None, name, description]
        for _ in range(rng.randrange(1, 12)):
            p = rng.choice([None] + [j for j in range(len(cats))][-4:]) if cats else None
            nm = name(rng, [x[1] for x in cats])
            if not any(x[0] == p and x[1] == nm for x in cats):
                cats.append([p, nm, rng.choice(['', 'what it is', 'ü & <x>'])])
        cells = ['TOP', 'inv'][:rng.randrange(1, 3)]
        items = [[rng.randrange(len(cells)), rng.randrange(len(cats)), rng.choice(['box', 'edge', 'text', 'number']), [rng.randrange(-99, 99) for _ in range(4)]] for _ in range(rng.randrange(1, 9))]
        lost = [j for j in range(len(cats)) if rng.random() < rng.choice([.15, .5, 1])]
        yield dict(cats=cats, cells=cells, items=items, lost=lost, gz=i % 3 == 0, twice=i % 11 == 0, file=rng.choice(['a.rdb', 'x.lyrdb', 'a.b', 'noext', 'a.xml']),
                   locale=rng.choice([None, None, 'latin-1', 'ascii']))


def trivial(c): return not c['lost']


def value(kind, v):
    return {'box': kdb.DBox(*sorted(v[:2]), *sorted(v[2:])), 'edge': kdb.DEdge(*v), 'text': f't{v[0]}', 'number': float(v[0])}[kind]


def dump(f):
    r = rdb.ReportDatabase('')
    r.load(f)
    path = lambda x: (path(x.parent()) if x.parent() is not None else ()) + (x.name(),)
    out = []
    cats = {}

    def walk(it):
        for x in it:
            if path(x) in cats:
                raise ValueError(f'category {path(x)} twice')
            cats[path(x)] = x.description
            walk(x.each_sub_category())
    walk(r.each_category())
    for x in r.each_item():
        out.append((r.cell_by_id(x.cell_id()).name(), path(r.category_by_id(x.category_id())), [v.to_s() for v in x.each_value()]))
    return cats, out, [x.name() for x in r.each_cell()], r.top_cell_name, r.description


def check(c):
    with tempfile.TemporaryDirectory(prefix='c31_') as d:
        r = rdb.ReportDatabase('report')
        r.description, r.top_cell_name = 'a report', 'TOP'
        cells = [r.create_cell(x) for x in c['cells']]
        cats, paths = [], []
        for p, nm, desc in c['cats']:
            x = r.create_category(nm) if p is None else r.create_category(cats[p], nm)
            x.description = desc
            cats.append(x)
            paths.append((paths[p] if p is not None else ()) + (nm,))
        for cl, ca, k, v in c['items']:
            r.create_item(cells[cl].rdb_id(), cats[ca].rdb_id()).add_value(value(k, v))
        whole = os.path.join(d, 'whole')
        r.save(whole)
        cats0, items, cells0, top, desc = dump(whole)
        t = ET.parse(whole)
        # KLayout's text of a category path and its names
        for it in t.findall('./items/item'):
            tx = it.findtext('category')
            if list(mod.parse_category_path(tx)) not in [list(p) for p in paths]:
                return f'path {tx!r} is {mod.parse_category_path(tx)!r}, none of the categories'
        kept = dict(cats0)

        def prune(el, p):
            sub = el.find('categories')
            for x in list(sub):
                q = p + (x.findtext('name') or '',)
                if paths.index(q) in c['lost']:
                    sub.remove(x)
                    for k in [k for k in kept if k[:len(q)] == q]:
                        del kept[k]
                else:
                    prune(x, q)
        prune(t.getroot(), ())
        f = os.path.join(d, c['file'] + ('.gz' if c['gz'] else ''))
        text = ET.tostring(t.getroot(), encoding='utf-8')
        if c['gz']:
            with gzip.open(f, 'wb') as o:
                o.write(text)
        else:
            with open(f, 'wb') as o:
                o.write(text)
        before = open(f, 'rb').read()
        for _ in range(2 if c['twice'] else 1):
            opn = builtins.open
            try:
                if c.get('locale'):         # a locale of another encoding
                    builtins.open = lambda f, mode='r', buffering=-1, encoding=None, *a, **k: opn(
                        f, mode, buffering, encoding if 'b' in mode or encoding not in (None, 'locale') else c['locale'], *a, **k)
                mod.repair_rdb(f)
            finally:
                builtins.open = opn
        if open(f, 'rb').read() != before:
            return 'the report itself was changed'
        g = f + '.repair.xml'
        if not os.path.exists(g):
            return 'no repaired report'
        try:
            cats1, items1, cells1, top1, desc1 = dump(g)
        except Exception as e:
            return f'the repaired report does not load: {e}'
        want = dict(kept)
        for x in c['items']:
            p = paths[x[1]]
            for i in range(1, len(p) + 1):
                want.setdefault(p[:i], '')
        if cats1 != want:
            return f'categories {sorted(cats1.items())} instead of {sorted(want.items())}'
        if items1 != items:
            return f'items {items1} instead of {items}'
        if (cells1, top1, desc1) != (cells0, top, desc):
            return 'cells or header changed'
        # each category is there once
        def once(el):
            sub = [x.findtext('name') or '' for x in el.findall('./categories/category')]
            return len(sub) == len(set(sub)) and all(once(x) for x in el.findall('./categories/category'))
        if not once(ET.parse(g).getroot()):
            return 'a category is there twice'
