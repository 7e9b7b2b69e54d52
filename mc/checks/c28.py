"""C28: links in exported documents lead to what they name."""
import itertools
import os
import re
from urllib.parse import unquote

from mc import docmodel, odf, prj, proj, sut
from mc.checks import c11

ID = 'C28'
TITLE = 'Links in exported documents lead to the things they name'
LEVEL = 'exploration'
RULE = ('One evaluation is one link in a document of a project that is exported to every document type: decoded as an office program does it, it must lead to a '
        'document of the same project that has been exported, and to exactly one section of that name; and this section belongs to the chapter, scene, character, '
        'location, or item whose name or number the link shows. All structures of chapters with at most n scenes, all names of the project and of its directory '
        'from at most m tokens. Distinct: by project and link.')
TOKENS = ['a', ' ', '&', "'", '"', '#', '%', '%41', '?', '+', ';', ':', '<', '>', '|', '$ID', '${Title}', '\u00e9', '\u4e2d', '.', '.odt', '_manuscript', '_xref', '_characters.odt', '.yw7', '.YW7', '~', '[i]', '*', '=', '-']
BOUNDS = {'quick': f'n=2, m=2 over {len(TOKENS)} tokens', 'thorough': f'n=3, m=3 over {len(TOKENS)} tokens'}
ASSUMPTIONS = ['Names contain no backslash, which separates directories in the paths of Windowsand no slash.', 'The cross reference lists the scenes that are excluded from the export, too; they have no section to go to.']
NAMED = {'ChID': 'chapters', 'ScID': 'scenes', 'CrID': 'characters', 'LcID': 'locations', 'ItID': 'items'}


def cases(tier):
    batch = []
    for c in c11.chapters(tier):
        batch.append(c)
        if len(batch) == 40:
            yield ['structure', batch]
            batch = []
    yield ['structure', batch]
    for row in c11.pairs():
        yield ['structure', row]
    m = 2 if tier == 'quick' else 3
    for k in range(len(TOKENS)):
        yield ['names', m, k, 'file']
        yield ['names', m, k, 'directory']


def case(c, ctx):
    {'structure': structure, 'names': names}[c[0]](c, ctx)


def related(p):
    """Let the scenes refer to the elements in all ways."""
    for k in ('characters', 'locations', 'items'):
        p[k] = [{'id': str(i), 'title': f'{k[:2]} {i}', 'tags': [f't{i % 2}']} for i in (7, 1, 12)]
    for n, s in enumerate(p['scenes'].values()):
        s['chars'] = [x for i, x in enumerate(('1', '7', '12')) if n >> i & 1]
        s['locs'] = [x for i, x in enumerate(('1', '7', '12')) if (n + 3) >> i & 1]
        s['items'] = [x for i, x in enumerate(('1', '7', '12')) if (n + 5) >> i & 1]
        s['tags'] = [f't{n % 3}']
    return p


def structure(c, ctx):
    with sut.Work() as w:
        check(ctx, related(c11.project(c[1])), w.path('p.yw7'), c[1])
        ctx.sample(c[1][-1:])


def small():
    p = proj.plain()
    p['scenes'] = {str(i): proj.scene(title=f'S{i}', desc='d') for i in (1, 2, 11)}
    p['chapters'] = [{'id': '3', 'title': 'P', 'level': 1, 'desc': 'd', 'scenes': []}, {'id': '1', 'title': 'C', 'desc': 'd', 'scenes': ['11', '1']},
                     {'id': '31', 'title': 'D', 'desc': 'd', 'scenes': ['2']}]
    return related(p)


def names(c, ctx):
    __, m, k, what = c
    for r in range(m):
        for rest in itertools.product(TOKENS, repeat=r):
            name = TOKENS[k] + ''.join(rest)
            if not name.strip('. ') or '/' in name or len(name.encode()) > 200 or name != name.strip() and what == 'directory':
                continue
            with sut.Work() as w:
                if what == 'file':
                    path = w.path(name + '.yw7')
                else:
                    os.mkdir(w.path(name))
                    path = os.path.join(w.path(name), 'p.yw7')
                check(ctx, small(), path, (what, name), brief=r > 0)
    ctx.sample(name)


def check(ctx, p, path, what, brief=False):
    prj.save(p, path)
    v = sut.view(sut.read(path).novel)
    names = {'chapters': dict(v['chapters']), 'scenes': v['scenes'], 'characters': dict(v['characters']), 'locations': dict(v['locations']), 'items': dict(v['items'])}
    docs = {}
    for suffix in ('_xref', '_scenelist', '_manuscript') if brief else sut.EXPORTS:
        docs[sut.export(path, suffix)] = suffix
    if brief:
        for k in ('characters', 'locations', 'items'):
            open(f'{path[:-4]}_{k}.odt', 'w').close()
    listed = [i for i, __ in docmodel.listed(v)]
    unlisted = [f'ScID:{i}' for i in v['scenes'] if i not in listed]
    anchors = {}
    opened = {d: odf.Odf(d) for d in docs}
    for d, doc in opened.items():
        found = [e.get(odf.q('text:name')) for e in doc.content.iter(odf.q('text:section'))]
        anchors[d] = found
        ctx.same(len(set(found)), len(found), 'anchor twice', (what, docs[d]))
    for d, doc in opened.items():
        links = [(e.get(odf.q('xlink:href')), ''.join(e.itertext())) for e in doc.content.iter(odf.q('text:a'))]
        for f in doc.formulas():
            x = re.fullmatch(r'of:=HYPERLINK\("([^"]*)";"([^"]*)"\)', f)
            if not x:
                ctx.violation('formula', f'{what} {docs[d]}: {f}')
                continue
            links.append(x.groups())
        for href, text in links:
            ctx.evaluated()
            ctx.key((str(what), docs[d], href))
            target, __, anchor = href.partition('#')
            if target.startswith('../'):
                # Relative to the content in the package.
                target = os.path.normpath(os.path.join(d, unquote(target)))
            elif target.startswith('file:///'):
                target = os.path.normpath('/' + unquote(target[8:]))
            else:
                ctx.violation('address', f'{what} {docs[d]}: {href}')
                continue
            name, __, kind = unquote(anchor).partition('|')
            if not os.path.exists(target) or re.search(r'[\x00-\x20"<>\\^`{|}]', href) or '%' not in href:
                ctx.violation('target', f'{what} {docs[d]}: {href}: there is no file {target!r}')
                continue
            if kind != 'region' or target in anchors and anchors[target].count(name) != 1 and not (docs[d] == '_xref' and name in unlisted):
                ctx.violation('anchor', f'{what} {docs[d]}: {href}: {docs.get(target)} has {anchors[target].count(name)} such sections')
                continue
            prefix, __, i = name.partition(':')
            e = names.get(NAMED.get(prefix), {}).get(i)
            if e is None:
                ctx.violation('element', f'{what} {docs[d]}: {href}')
            elif docs[d] == '_scenelist':
                ctx.same(name, text, 'label', (what, href))
            elif prefix != 'ScID':
                ctx.same(e.get('title', ''), text, 'label', (what, href))
            else:
                # The number of the scene in the novel.
                order = [s for __, ch in v['chapters'] for s in ch.get('srtScenes', [])]
                ctx.same(i, order[int(text) - 1] if text.isdigit() and 0 < int(text) <= len(order) else None, 'label', (what, href, text))
