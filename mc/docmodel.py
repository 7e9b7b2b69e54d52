"""What each exported document shows for a project: an independent model.

``text_doc(view, suffix)`` returns nested blocks like mc.odf.Odf.blocks(), reduced by
``skeleton``: ('sec', name, [blocks]), ('h', level, text), ('p', kind, text).
The texts of scenes and descriptions must be single lines of plain text here;
the rendering of formatted text is decided by other checks.
"""
from urllib.parse import quote

from mc import odf

STATUS = ['', 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done']
BODY = 'Text_20_body'
INDENT = 'First_20_line_20_indent'


def skeleton(blocks):
    out = []
    for b in blocks:
        if b[0] == 'sec':
            out.append(('sec', b[1], skeleton(b[2])))
        elif b[0] in ('h', 'p'):
            out.append((b[0], b[1], odf.plain(b[2]).strip('\n')))
        elif b[0] == 'stray' and b[1] == "'":
            # The plain export has these; they belong to no paragraph and are not shown.
            pass
        else:
            out.append(b)
    return out


def _divided(v, chapter, kinds, hidden):
    """Yield (scene ID, scene, appended, divider) of the shown scenes of a chapter."""
    first = True
    for i in chapter.get('srtScenes', []):
        s = v['scenes'][i]
        t = s.get('scType', 0)
        if t not in kinds:
            continue
        if t == 0:
            if chapter.get('chType') == 3 or s.get('doNotExport') or hidden:
                continue
            if s.get('sceneContent', '').startswith(('<HTML>', '<TEX>')):
                continue
        append = bool(s.get('appendToPrev'))
        yield i, s, append and not first, not (first or append)
        first = False


def hidden(v, chapter):
    """All scenes of the chapter are excluded from the export."""
    ids = chapter.get('srtScenes', [])
    return bool(ids) and all(v['scenes'][i].get('doNotExport') for i in ids)


def text_doc(v, suffix):
    n = v['novel']
    out = [('p', 'Title', n.get('title', '')), ('p', 'Subtitle', n.get('authorName', ''))]
    if suffix in ('_characters', '_locations', '_items'):
        return out + world(v, suffix)
    if suffix == '_xref':
        return out + xref(v)
    kind = {'_notes': 1, '_todo': 2}.get(suffix, 0)
    for cid, c in v['chapters']:
        t = c.get('chType', 0)
        part = c.get('chLevel') == 1
        title = c.get('title', '')
        if suffix in ('', '_manuscript', '_notes', '_todo') and c.get('suppressChapterTitle'):
            title = ''
        hide = hidden(v, c)
        visible = t == kind and not (t == 0 and hide)
        body = []
        for i, s, appended, divider in _divided(v, c, [kind], hide):
            st = s.get('title', '')
            p = INDENT if appended else BODY
            if suffix == '':
                if divider:
                    body.append(('p', 'Heading_20_4', '* * *'))
                body.append(('p', p, s.get('sceneContent', '')))
            elif suffix in ('_manuscript', '_scenes'):
                if divider:
                    body.append(('p', 'Heading_20_4', '* * *'))
                text = s.get('sceneContent' if suffix == '_manuscript' else 'desc', '')
                body += [('h', 3, st), ('sec', f'ScID:{i}', [('p', p, text)])]
            elif suffix in ('_notes', '_todo'):
                body += [('h', 3, st), ('sec', f'ScID:{i}', [('p', BODY, s.get('sceneContent', ''))])]
            elif suffix == '_proof':
                body += [('h', 3, st), ('p', 'scene_20_mark', f'[ScID:{i}]'), ('p', BODY, s.get('sceneContent', '')),
                         ('p', 'scene_20_mark', '[/ScID]')]
            elif suffix == '_brf_synopsis':
                body.append(('p', BODY, st))
        head = ('h', 1 if part else 2, title)
        if suffix in ('_chapters', '_parts'):
            if visible and part == (suffix == '_parts'):
                out.append(('sec', f'ChID:{cid}', [head, ('p', BODY, c.get('desc', ''))]))
            elif visible and part:
                out.append(head)
        elif not visible:
            out += body
        elif suffix in ('_manuscript', '_scenes', '_notes', '_todo'):
            out.append(('sec', f'ChID:{cid}', [head] + body))
        else:
            out += [head] + body
    return out


def world(v, suffix):
    out = []
    for i, e in v[suffix[1:]]:
        title = e.get('title', '')
        if suffix == '_characters' and e.get('fullName'):
            title += f'/{e["fullName"]}'
        if e.get('aka'):
            title += f' ("{e["aka"]}")'
        out.append(('h', 2, title))
        if suffix == '_characters':
            out.append(('sec', f'CrID:{i}', [x for name, attr in (('Description', 'desc'), ('Bio', 'bio'), ('Goals', 'goals'), ('Notes', 'notes'))
                                             for x in (('h', 3, name), ('sec', f'CrID_{attr}:{i}', [('p', BODY, e.get(attr, ''))]))]))
        else:
            out.append(('sec', f'{"LcID" if suffix == "_locations" else "ItID"}:{i}', [('p', BODY, e.get('desc', ''))]))
    return out


def all_scenes(v):
    """All scenes in order: [(id, scene, chapter number)]."""
    return [(i, v['scenes'][i], n) for n, (__, c) in enumerate(v['chapters'], 1) for i in c.get('srtScenes', [])]


def tags(elements):
    """{tag: [elements]} in the order of the first appearance."""
    out = {}
    for x, e in elements:
        for t in e.get('tags', []):
            out.setdefault(t, []).append(x)
    return out


SUFFIX = {0: ('scene_20_mark', ''), 1: ('scene_20_mark_20_notes', ' (Notes)'), 2: ('scene_20_mark_20_todo', ' (ToDo)'),
          3: ('scene_20_mark_20_unused', ' (Unused)')}


def scene_line(n, s, chapter):
    style, mark = SUFFIX[s.get('scType', 0)]
    return ('p', style, f'{n} (Ch {chapter}) {s.get("title", "")}{mark}')


def xref(v):
    out = []
    order = all_scenes(v)
    for part, name in (('characters', 'Character'), ('locations', 'Location'), ('items', 'Item')):
        for i, e in v[part]:
            hits = [scene_line(n, s, c) for n, (__, s, c) in enumerate(order, 1) if i in s.get(part, [])]
            if hits:
                out += [('h', 2, f'Scenes with {name} {e.get("title", "")}:')] + hits
    for tag, hits in tags([(scene_line(n, s, c), s) for n, (__, s, c) in enumerate(order, 1)]).items():
        out += [('h', 2, f'Scenes tagged {tag}:')] + hits
    for part, name in (('characters', 'Characters'), ('locations', 'Locations'), ('items', 'Items')):
        for tag, hits in tags([(e, e) for __, e in v[part]]).items():
            out.append(('h', 2, f'{name} tagged {tag}:'))
            for e in hits:
                out.append(('p', BODY, e.get('title', '') + (' ' + e.get('fullName', '') if part == 'characters' else '')))
    return out


def links(v, suffix, project):
    """The targets of the links, in order."""
    out = []
    project = quote(project)
    man = f'../{project}_manuscript.odt#'
    for cid, c in v['chapters']:
        if c.get('chType', 0) or hidden(v, c):
            continue
        part = c.get('chLevel') == 1
        if suffix == '_scenes' and not part or suffix == '_chapters' and not part or suffix == '_parts' and part:
            out.append(f'{man}ChID:{cid}%7Cregion')
    if suffix == '_xref':
        order = all_scenes(v)
        for part in ('characters', 'locations', 'items'):
            for i, e in v[part]:
                out += [f'{man}ScID:{sid}%7Cregion' for sid, s, __ in order if i in s.get(part, []) and not s.get('scType')]
        for hits in tags([(sid, s) for sid, s, __ in order if not s.get('scType')] ).values():
            out += [f'{man}ScID:{sid}%7Cregion' for sid in hits]
        for part, p in (('characters', 'CrID'), ('locations', 'LcID'), ('items', 'ItID')):
            for hits in tags([(i, e) for i, e in v[part]]).values():
                out += [f'../{project}_{part}.odt#{p}:{i}%7Cregion' for i in hits]
    return out


def formulas(v, directory, project):
    """The formulas of the scene list."""
    path = quote(f'{directory}/{project}')
    return [f'of:=HYPERLINK("file:///{path}_manuscript.odt#ScID:{i}%7Cregion";"ScID:{i}")' for i, __ in listed(v)]


def listed(v):
    """The scenes of the scene list."""
    return [(i, s) for __, c in v['chapters'] for i, s, *__ in _divided(v, c, [0], hidden(v, c))]


def numbers(v, words, letters):
    """The columns Scene, Words total, Word count, Letter count of the scene list."""
    total = 0
    out = []
    for n, (i, s) in enumerate(listed(v), 1):
        w = words(s.get('sceneContent', ''))
        total += w
        out.append([str(n), str(total), str(w), str(letters(s.get('sceneContent', '')))])
    return out
