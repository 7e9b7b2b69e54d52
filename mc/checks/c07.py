"""C07: the import result does not depend on how the document is stored."""
import itertools
import os

from mc import editor, markup, prj, proj, sut
from mc.checks import c05

ID = 'C07'
TITLE = 'Importing a document does not depend on how the office program stores it'
LEVEL = 'exploration'
RULE = ('One evaluation is one exported document re-encoded by one set of meaning-preserving storage transformations (split, '
        'nested, and direct formatting, bookmarks, links, blanks as elements, automatic styles, character references, white '
        'space, declarations, archive layout, positions of parser buffer boundaries), imported, and compared with the project it '
        'was exported from. All sets of at most n transformations for every document type. Distinct: by document, text, and '
        'transformations.')
ASSUMPTIONS = c05.ASSUMPTIONS + ['Documents are stored as OpenDocument 1.2 or later allows.']
BOUNDS = {'quick': 'n=2; boundaries at 150 consecutive offsets', 'thorough': 'n=3; boundaries at every offset of the text'}

TEXTS = ['Plain text, two words.', 'a [i]it al[/i] b [b]bo ld[/b] c', '[i]x[b]yz[/b][/i] [b][i]uv[/i][/b]', 'one\ntwo\n\nthree\n> quote one\n> quote two\nfour',
         'w/*note text*/ord /*@fn foot note*/x/*@en end*/y /*two\nlines*/z', '[lang=fr]mot deux[/lang=fr] & <x> "q" \'s\'',
         '/*first*/start [i]i\ni2[/i] end', '> [i]quoted[/i] [b]b[/b]/*c*/ text', 'é ä 中 \U0001d11e & a&b<c>d', 'x', '', '[lang=fr]tout[/lang=fr]\n> [lang=en-GB]all of [i]it[/i][/lang=en-GB]\n[lang=de]a[/lang=de]']
DESC = ['Plain desc', 'line one\nline two', 'a & b <c> "d" \'e\'', 'é 中', 'x']
DOCS = ('_manuscript', '_proof', '_notes', '_todo', '_scenes', '_chapters', '_parts', '_characters', '_locations', '_items')
TYPES = {'_notes': 1, '_todo': 2}
NAMES = list(editor.TRANSFORMS)
OPTIONS = [{'charref': True}, {'stored': True}, {'reverse': True}, {'extra': True}, {'encoding': 'utf-16'},
           # Members that a package need not have.
           {'missing': ['meta.xml', 'settings.xml', 'manifest.rdf']}]
BOUNDARY = 2 ** 16 - 20


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for doc in DOCS:
        for r in range(n + 1):
            for combo in (itertools.combinations if tier == 'quick' else itertools.permutations)(NAMES, r):
                yield [doc, list(combo), {}]
        if tier == 'quick':
            # The order in which two transformations are applied matters.
            for combo in itertools.combinations(NAMES, 2):
                yield [doc, list(combo)[::-1], {}]
        for o in OPTIONS:
            for t in [None] + NAMES:
                yield [doc, [t] if t else [], o]
        for start in range(0, 150 if tier == 'quick' else 3000, 30):
            yield [doc, [], {'boundary': start}]


def project(doc):
    p = proj.plain()
    t = TYPES.get(doc, 0)
    p['scenes'] = {str(i + 1): proj.scene(title=f'Scene {i}', content=x, type=t, desc=DESC[i % len(DESC)], notes='n')
                   for i, x in enumerate(TEXTS)}
    ids = list(p['scenes'])
    p['chapters'] = [{'id': '3', 'title': 'Part', 'level': 1, 'type': t, 'desc': DESC[1], 'scenes': []}]
    for i in range(4):
        p['chapters'].append({'id': str(10 + i), 'title': f'Chapter {i}', 'desc': DESC[i], 'scenes': ids[i * 4:i * 4 + 4], 'type': t})
    p['characters'] = [{'id': str(i + 1), 'title': f'Char {i}', 'fullname': f'Full {i}', 'aka': f'A{i}', 'desc': d, 'bio': DESC[(i + 1) % 5],
                        'goals': DESC[(i + 2) % 5], 'notes': DESC[(i + 3) % 5]} for i, d in enumerate(DESC)]
    for part in ('locations', 'items'):
        p[part] = [{'id': str(i + 1), 'title': f'E {i}', 'aka': f'A{i}', 'desc': d} for i, d in enumerate(DESC)]
    return p


def comparable(path):
    info = prj.canonical(path)
    for s in info['SCENES'].values():
        s['SceneContent'] = markup.show(markup.text_model(s.get('SceneContent', '')))
    info['PROJECTVARS'] = {k: v for k, v in info['PROJECTVARS'].items() if 'lang=' not in k}
    return info


def case(c, ctx):
    doc, transforms, options = c
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(project(doc), path)
        sut.rewrite(path)
        with open(path, 'rb') as f:
            original = f.read()
        before = comparable(path)
        target = sut.export(path, doc)
        plain = w.path('exported')
        os.rename(target, plain)
        if 'boundary' in options:
            sweep(c, ctx, path, original, before, plain, target, options['boundary'])
            return
        ctx.evaluated()
        ctx.key(c)
        ctx.sample(c)
        editor.rewrite(plain, target, transforms, **options)
        sut.imp(target)
        d = prj.diff(before, comparable(path))
        ctx.expect(not d, f'import{doc}', f'{c}: ' + '; '.join(d[:6]))


def sweep(c, ctx, path, original, before, plain, target, start):
    """Let the end of the parser's input buffer fall on every offset of the text."""
    editor.rewrite(plain, target)
    import zipfile
    with zipfile.ZipFile(target) as z:
        data = z.read('content.xml')
    begin = data.index(b'ScID' if b'ScID' in data else b'ID') if (b'ID:' in data) else data.index(b'<office:body>')
    if begin + start >= len(data):
        return
    for offset in range(begin + start, min(begin + start + 30, len(data))):
        pad = BOUNDARY - offset - len('<!---->')
        with open(path, 'wb') as f:
            f.write(original)
        editor.rewrite(plain, target, pad=pad)
        ctx.evaluated()
        ctx.key([c[0], offset])
        sut.imp(target)
        d = prj.diff(before, comparable(path))
        if not ctx.expect(not d, f'boundary{c[0]}', f'{c[0]}, offset {offset}, {data[offset - 20:offset]!r} | {data[offset:offset + 20]!r}: ' + '; '.join(d[:6])):
            return
