"""C33: every character of every script survives every way in and out of a project."""
import os
import xml.etree.ElementTree as ET
import zipfile

from mc import editor, odf, prj, proj, sut
from mc.checks import c10
from mc.editor import E

ID = 'C33'
TITLE = 'Every character of every script survives saving, exporting, and importing'
LEVEL = 'exploration'
RULE = ('One evaluation is one character on one way: saving in each text of a project; export to and import from each kind of document; export only; titles and names on all of these ways; a new project made from a '
        'work in progress or an outline. Each character is at the beginning, within, and at the end of words and lines. All characters that XML can represent; texts are compared literally with what '
        'independent readers see in the files. Distinct: by character and way.')
ASSUMPTIONS = ['Space, tab, line feed, and carriage return are the concern of other properties, and so is "#" at the beginning of a line.',
               'At the ends of a whole value, and of a line of an outline, blanks of all kinds do not count; a chapter title does not begin with "@", which says that it is not shown.']
BOUNDS = {'quick': 'all characters of the basic plane, and the first and last 128 of all other planes', 'thorough': 'all characters'}
SIZE = 2048
TITLED = ['save', '', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_characters', '_locations', '_items', '_xref', '_charlist', '_loclist', '_itemlist', '_scenelist']


def valid(n):
    return 0x20 < n <= 0xd7ff and n != 0x7f or 0xe000 <= n <= 0xfffd or 0x10000 <= n


def characters(tier):
    for n in range(0x10000):
        if valid(n):
            yield n
    for plane in range(1, 17):
        for n in range(0x10000):
            if tier != 'quick' or n < 128 or n >= 0x10000 - 128:
                yield plane * 0x10000 + n


def cases(tier):
    some = list(characters(tier))
    for at in range(0, len(some), SIZE):
        part = some[at:at + SIZE]
        # Intervals
        out = []
        for n in part:
            if out and out[-1][1] == n - 1:
                out[-1][1] = n
            else:
                out.append([n, n])
        for way in ['save', 'new', 'outline'] + list(sut.EXPORTS):
            if way not in ('_brf_synopsis', '_xref'):
                yield ['text', way, out]
        for way in TITLED:
            yield ['title', way, out]


def line(n):
    c = chr(n)
    return ('m' if c in '#@' else '') + f'{c}b m{c}m b{c}'


OTHER = {'scenes': ['content', 'desc', 'notes', 'goal', 'conflict', 'outcome'], 'chapters': ['desc'], 'characters': ['desc', 'bio', 'goals', 'notes'], 'locations': ['desc'], 'items': ['desc'],
         'notes': ['desc'], 'project': ['desc', 'bio']}
SLOTS = {
    'save': OTHER, '': {'scenes': ['content']}, '_proof': {'scenes': ['content']}, '_manuscript': {'scenes': ['content']}, '_notes': {'scenes': ['content']}, '_todo': {'scenes': ['content']},
    '_scenes': {'scenes': ['desc']}, '_chapters': {'chapters': ['desc']}, '_parts': {'chapters': ['desc']}, '_characters': {'characters': OTHER['characters']}, '_locations': {'locations': ['desc']},
    '_items': {'items': ['desc']}, '_charlist': {'characters': OTHER['characters']}, '_loclist': {'locations': ['desc']}, '_itemlist': {'items': ['desc']},
    '_scenelist': {'scenes': ['desc', 'notes', 'goal', 'conflict', 'outcome']},
}
TITLES = {
    'save': {'scenes': ['title', 'image'], 'chapters': ['title'], 'characters': ['title', 'fullname', 'aka', 'image'], 'locations': ['title', 'aka'], 'items': ['title', 'aka'], 'notes': ['title']},
    '': {'chapters': ['title']}, '_brf_synopsis': {'scenes': ['title'], 'chapters': ['title']}, '_scenes': {'scenes': ['title']}, '_proof': {'scenes': ['title']}, '_manuscript': {'scenes': ['title'], 'chapters': ['title']},
    '_characters': {'characters': ['title', 'fullname', 'aka']}, '_locations': {'locations': ['title', 'aka']}, '_items': {'items': ['title', 'aka']},
    '_xref': {'scenes': ['title'], 'characters': ['title'], 'locations': ['title'], 'items': ['title']}, '_charlist': {'characters': ['title', 'fullname', 'aka']},
    '_loclist': {'locations': ['title', 'aka']}, '_itemlist': {'items': ['title', 'aka']}, '_scenelist': {'scenes': ['title']},
}


def project(way, values, slots):
    """Return a project with the values in the slots."""
    p = proj.plain()
    t = {'_notes': 1, '_todo': 2}.get(way, 0)
    places = [(kind, a) for kind, attrs in slots.items() for a in attrs]
    n = -(-len(values) // len(places))
    if 'project' in slots:
        n = -(-(len(values) - 2) // (len(places) - 2))
    p['scenes'] = {str(i + 1): proj.scene(title=f'S{i}', type=t, field1='3', field2='4', field3='5', field4='6') for i in range(n if 'scenes' in slots else 1)}
    p['chapters'] = [{'id': str(i + 1), 'title': f'C{i}', 'type': t, 'level': int(way == '_parts'), 'scenes': []} for i in range(n if 'chapters' in slots else 1)]
    for i, s in enumerate(p['scenes']):
        p['chapters'][i % len(p['chapters'])]['scenes'].append(s)
    for kind in ('characters', 'locations', 'items', 'notes'):
        p[kind] = [{'id': str(i + 1), 'title': f'E{i}'} for i in range(n if kind in slots else 1)]
    if way == '_xref':
        for i, s in enumerate(p['scenes'].values()):
            s.update(chars=[str(i + 1)], locs=[str(i + 1)], items=[str(i + 1)])
    left = list(values)
    for kind, attrs in slots.items():
        for e in [p] if kind == 'project' else p[kind].values() if kind == 'scenes' else p[kind]:
            for a in attrs:
                if left:
                    e[a] = left.pop(0)
    assert not left
    return p


def visible(path):
    """The text of all paragraphs, headings, and cells of a document."""
    root = ET.fromstring(zipfile.ZipFile(path).read('content.xml'))
    out = []
    for e in root.iter():
        if e.tag in (odf.q('text:p'), odf.q('text:h')):
            out.append(''.join(e.itertext()))
    return out


def case(c, ctx):
    kind, way, spans = c
    chars = [n for a, b in spans for n in range(a, b + 1)]
    lines = [line(n) for n in chars]
    ctx.evaluated(len(chars))
    for n in chars:
        ctx.key((kind, way, n))
    ctx.sample([kind, way, spans[0]])
    if way in ('new', 'outline'):
        made(ctx, way, lines)
        return
    if kind == 'text':
        values = ['\n'.join(['First'] + lines[i:i + 128] + ['Last']) for i in range(0, len(lines), 128)]
        slots = SLOTS[way]
    else:
        values = lines
        slots = TITLES[way]
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(project(way, values, slots), path)
        before = prj.canonical(path)
        if way == 'save':
            sut.rewrite(path)
        else:
            doc = sut.export(path, way)
            shown(ctx, c, doc, lines)
            if way in sut.IMPORTS:
                r = sut.imp(doc)
                ctx.expect(not r.ui.warnings, 'warning', f'{c[:2]}: {r}')
        d = differences(stripped(before), stripped(prj.canonical(path)))
        if d:
            ctx.violation(f'{kind}-{way}', f'{d[:4]}')


def stripped(x):
    if isinstance(x, dict):
        return {k: stripped(y) for k, y in x.items()}
    if isinstance(x, (list, tuple)):
        return [stripped(y) for y in x]
    return x.strip() if isinstance(x, str) else x


def differences(a, b):
    out = []
    for x in prj.diff(a, b):
        out.append(x if len(x) < 300 else x[:40] + '...')
    # Show the lines.
    return [*lines_of(a, b), *out]


def lines_of(a, b, where=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k in b:
                yield from lines_of(a[k], b[k], f'{where}/{k}')
    elif isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            yield from lines_of(x, y, f'{where}[{i}]')
    elif isinstance(a, str) and isinstance(b, str) and a != b:
        for x, y in zip(a.split('\n'), b.split('\n')):
            if x != y:
                yield f'{where}: {x!r} -> {y!r}'
                break


def shown(ctx, c, doc, lines):
    have = '\n'.join(visible(doc))
    missing = [x for x in lines if x.strip() not in have]
    if missing:
        ctx.violation(f'{c[0]}-shown{c[1]}', f'{c[:2]}: the document lacks {missing[:5]!r} ({len(missing)})')


def made(ctx, way, lines):
    """A new project from a document."""
    parts = [lines[i:i + 128] for i in range(0, len(lines), 128)]
    with sut.Work() as w:
        base = w.path('base.yw7')
        prj.save(proj.plain(), base)
        template = sut.export(base, '')
        path = w.path('new.odt')

        def fill(root):
            body = c10.text_parent(root)
            for e in list(body):
                body.remove(e)
            for n, part in enumerate(parts):
                body.append(E('text:h', part[0], text__style_name='Heading_20_2', text__outline_level='2'))
                if way == 'outline':
                    body.append(E('text:h', part[-1], text__style_name='Heading_20_3', text__outline_level='3'))
                for x in ['First'] + part + ['Last']:
                    body.append(E('text:p', x, text__style_name='Text_20_body'))

        editor.edit(template, path, fill)
        r = sut.convert(path)
        if not r.ok or r.failed or not os.path.isfile(w.path('new.yw7')):
            ctx.violation('failed', f'{way} {lines[0]!r}: {r}')
            return
        info = prj.canonical(w.path('new.yw7'))
    want = {str(i + 1): '\n'.join(['First'] + part + ['Last']) for i, part in enumerate(parts)}
    if way == 'outline':
        want = {i: '\n'.join(y.strip() for y in x.split('\n')) for i, x in want.items()}
    field = 'Desc' if way == 'outline' else 'SceneContent'
    have = {i: s.get(field, '') for i, s in info['SCENES'].items()}
    if way == 'outline':
        have = {i: '\n'.join(y.strip() for y in x.split('\n')) for i, x in have.items()}
    if want != have:
        ctx.violation(way, f'{list(lines_of(want, have))[:3]} {len(want)} {len(have)}')
    want = [part[0].strip() for part in parts]
    have = [x.get('Title', '').strip() for x in info['CHAPTERS']]
    if want != have:
        ctx.violation(f'{way}-title', f'{[x for x in zip(want, have) if x[0] != x[1]][:3]}')
    if way == 'outline':
        want = {str(i + 1): part[-1].strip() for i, part in enumerate(parts)}
        have = {i: s.get('Title', '').strip() for i, s in info['SCENES'].items()}
        if want != have:
            ctx.violation(f'{way}-scene', f'{list(lines_of(want, have))[:3]}')
