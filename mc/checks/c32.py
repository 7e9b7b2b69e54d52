"""C32: the size of a project makes no difference."""
import os
import re

from mc import docmodel, editor, markup, odf, prj, proj, sut
from mc.checks import c06, c13

ID = 'C32'
TITLE = 'Projects of any size are saved, exported, and imported like small ones'
LEVEL = 'exploration'
RULE = ('One evaluation is one project that is saved, edited at its last element, exported to the documents that show what has the size in question, and imported from the unchanged and the edited documents. '
        'Sizes: numbers of chapters, parts, scenes, chapters of other types, characters, locations, items, notes, project variables, unknown elements; relations and tags of a scene; '
        'IDs; lengths of words, lines, titles, and descriptions; numbers of words, paragraphs, empty lines, quotations, formatted passages, comments, notes, and foreign-language passages of a text; '
        'scenes sharing a tag; sections and dividers of imported documents. All sizes up to n, and around all powers of 2 and 10 up to m (counts) or k (lengths). '
        'Expected: what independent models of the files say for this size. Distinct: by size and kind.')
ASSUMPTIONS = ['The sizes fit into memory.']
BOUNDS = {'quick': 'n=12, m=128, k=65537', 'thorough': 'n=130, m=2048, k=1048577'}

COUNTS = ['chapters', 'parts', 'scenes', 'other', 'alternating', 'hidden', 'characters', 'locations', 'items', 'notes', 'variables', 'unknown', 'relations', 'tags', 'shared', 'ids', 'sections',
          'dividers', 'split']
LENGTHS = ['word', 'words', 'wide', 'title', 'desc', 'paragraphs', 'empty', 'quotes', 'spans', 'open', 'comments', 'footnotes', 'languages', 'same', 'brackets', 'entities', 'long', 'depth']
# Markup takes more space than text.
SHORTER = {'words': 8, 'paragraphs': 16, 'empty': 16, 'quotes': 16, 'spans': 16, 'open': 16, 'comments': 16, 'footnotes': 32, 'languages': 512, 'same': 16, 'brackets': 8, 'entities': 4, 'depth': 64}


def sizes(n, limit):
    out = set(range(n + 1))
    for base in (2, 10):
        x = base
        while x <= limit:
            out.update((x - 1, x, x + 1))
            x *= base
    return sorted(x for x in out if x <= limit + 1)


def cases(tier):
    n, m, k = (12, 128, 65537) if tier == 'quick' else (130, 2048, 1048577)
    for size in sizes(n, m):
        for what in COUNTS:
            yield [what, size]
    for what in LENGTHS:
        for size in sizes(n, k // SHORTER.get(what, 1)):
            yield [what, size]


def scene(i, **kw):
    return proj.scene(title=f'Scene {i}', content=f'Text of {i}.', desc=f'Desc of {i}.', notes=f'Notes of {i}.', status='2', **{'field1': '3', 'field2': '4', 'field3': '5', 'field4': '6', **kw})


def language(i):
    return 'abcdefghijklmnopqrstuvwxyz'[i // 26 % 26] + 'abcdefghijklmnopqrstuvwxyz'[i % 26] + (f'-{chr(65 + i // 676 % 26)}{chr(65 + i // 17576)}' if i >= 676 else '')


def text(what, n):
    """A text of this size."""
    if what == 'word':
        return 'x' * n
    if what == 'words':
        return ' '.join(f'w{i}' for i in range(n))
    if what == 'wide':
        return '\u4e2d\U0001f600'[n % 2] * n
    if what == 'long':
        return ('lorem ipsum dolor sit amet, ' * (n // 28 + 1))[:n].rstrip()
    if what == 'paragraphs':
        return '\n'.join(f'p{i}' for i in range(n))
    if what == 'empty':
        return 'a' + '\n' * n + 'b'
    if what == 'quotes':
        return '\n'.join(f'> q{i}' for i in range(n))
    if what == 'spans':
        return ''.join(f'[i]k{i}[/i] [b]f{i}[/b] ' for i in range(n)).rstrip()
    if what == 'open':
        # Formatting over paragraphs.
        return '[i]' + '\n'.join(f'p{i}' for i in range(n + 1)) + '[/i] end'
    if what == 'comments':
        return 'a' + ''.join(f'/*c{i}*/b' for i in range(n))
    if what == 'footnotes':
        return 'a' + ''.join(f'/*@{"fe"[i % 2]}n n{i}*/b' for i in range(n))
    if what == 'languages':
        return ' '.join(f'[lang={language(i)}]l{i}[/lang={language(i)}]' for i in range(n))
    if what == 'same':
        return ' '.join(f'[lang=fr]l{i}[/lang=fr]' for i in range(n))
    if what == 'brackets':
        return '[' * n + 'x' + ']' * (n // 2)
    if what == 'entities':
        return '<&>"\'' * n
    if what == 'depth':
        # Alternating kinds of formatting.
        return ''.join(f'[i]k{i} [b]f{i}[/i] g{i} [/b]' for i in range(n)).rstrip()
    raise ValueError(what)


ALL_TEXTS = ['', '_proof', '_manuscript']
SHOWN = {
    'chapters': ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_scenelist', '_xref'], 'parts': ['', '_manuscript', '_parts', '_chapters', '_scenes'],
    'scenes': ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_scenelist', '_xref'], 'other': ['_notes', '_todo', '_manuscript'], 'alternating': ['', '_manuscript', '_notes', '_todo', '_scenelist'],
    'hidden': ['', '_manuscript', '_chapters', '_scenelist'], 'characters': ['_characters', '_charlist'], 'locations': ['_locations', '_loclist'], 'items': ['_items', '_itemlist'],
    'notes': [''], 'variables': [''], 'unknown': ['_manuscript'], 'relations': ['_xref', '_manuscript'], 'tags': ['_xref', '_scenelist', '_charlist', '_loclist', '_itemlist'], 'shared': ['_xref', '_charlist'],
    'ids': ['', '_proof', '_manuscript', '_scenes', '_chapters', '_characters', '_locations', '_items', '_charlist', '_loclist', '_itemlist', '_scenelist', '_xref'],
    'title': ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_characters', '_charlist', '_scenelist', '_xref'],
    'desc': ['_scenes', '_chapters', '_characters', '_locations', '_items', '_charlist', '_loclist', '_itemlist', '_scenelist'],
}


def project(what, n):
    p = proj.plain()
    for s in p['scenes'].values():
        s.update(field1='3', field2='4', field3='5', field4='6')
    if what in ('chapters', 'parts', 'other', 'alternating', 'hidden'):
        p['scenes'], p['chapters'] = {}, []
        for i in range(n):
            t = {'other': 1 + i % 3, 'alternating': i % 4}.get(what, 0)
            p['scenes'][str(i + 1)] = scene(i, type=t, noexport=what == 'hidden' and i % 2 == 0)
            p['chapters'].append({'id': str(n - i), 'title': f'Chapter {i}', 'desc': f'Desc {i}', 'level': int(what == 'parts'), 'type': t, 'scenes': [str(i + 1)]})
    elif what == 'scenes':
        p['scenes'] = {str(i + 1): scene(i, append=i % 3 == 2) for i in range(n)}
        p['chapters'] = [{'id': '1', 'title': 'C', 'scenes': list(p['scenes'])[::-1]}]
    elif what in ('characters', 'locations', 'items'):
        p[what] = [{'id': str(n - i), 'title': f'E{i}', 'desc': f'Desc {i}', 'aka': f'A{i}'} for i in range(n)]
        for s in p['scenes'].values():
            for k in ('chars', 'locs', 'items'):
                s.pop(k, None)
    elif what == 'notes':
        p['notes'] = [{'id': str(n - i), 'title': f'N{i}', 'desc': f'T{i}'} for i in range(n)]
    elif what == 'variables':
        p['vars'] += [{'id': str(i + 10), 'title': f'v{i}', 'desc': f'x{i}', 'tags': '0'} for i in range(n)]
    elif what == 'unknown':
        p['raw_root'] = ''.join(f'<X{i}>{i}</X{i}>\n' for i in range(n))
        p['scenes']['3']['fields'] = {f'Field_U{i}': f'u{i}' for i in range(n)}
        p['scenes']['3']['raw'] = ''.join(f'<Y{i}>{i}</Y{i}>\n' for i in range(n))
    elif what == 'relations':
        for k, part in (('chars', 'characters'), ('locs', 'locations'), ('items', 'items')):
            p[part] = [{'id': str(i + 1), 'title': f'E{i}'} for i in range(n)]
            for j, s in enumerate(p['scenes'].values()):
                s[k] = [str(i + 1) for i in range(n)][::1 - 2 * (j % 2)]
    elif what == 'tags':
        for part in ('characters', 'locations', 'items'):
            for e in p[part]:
                e['tags'] = [f't{i}' for i in range(n)]
        for s in p['scenes'].values():
            s['tags'] = [f't{i}' for i in range(n)][::-1]
    elif what == 'shared':
        p['scenes'] = {str(i + 1): scene(i, tags=['one', 'two'][i % 2:], chars=['1']) for i in range(n)}
        p['chapters'] = [{'id': str(i + 1), 'title': f'C{i}', 'scenes': list(p['scenes'])[i::2]} for i in range(2)]
        p['characters'] = [{'id': str(i + 1), 'title': f'E{i}', 'tags': ['one', 'two'][i % 2:]} for i in range(max(1, n))]
        for part in ('locations', 'items'):
            p[part] = []
    elif what == 'ids':
        # IDs of all lengths, and around the size.
        ids = [str(n + i) for i in range(1, 4)] + [str(10 ** i) for i in range(5, 9)]
        p['scenes'] = {i: scene(i, chars=[i], locs=[i], items=[i]) for i in ids}
        p['chapters'] = [{'id': i, 'title': f'C{i}', 'desc': f'Desc {i}', 'scenes': [i]} for i in reversed(ids)]
        for part in ('characters', 'locations', 'items'):
            p[part] = [{'id': i, 'title': f'E{i}', 'desc': f'Desc {i}'} for i in ids]
        p['notes'] = [{'id': i, 'title': f'E{i}'} for i in ids]
    elif what == 'title':
        t = text('long', max(1, n))
        p['title'] = t
        for e in p['chapters'] + p['characters'] + p['locations'] + p['items'] + list(p['scenes'].values()):
            e['title'] = t
    elif what == 'desc':
        t = text('long', n)
        for e in p['chapters'] + p['characters'] + p['locations'] + p['items'] + list(p['scenes'].values()):
            e['desc'] = t
        for e in p['characters']:
            e.update(bio=t, goals=t, notes=t)
    else:
        t = text(what, n)
        p['scenes'] = {'1': proj.scene(title='S', content=t), '2': proj.scene(title='After', content='Text next')}
        p['chapters'] = [{'id': '1', 'title': 'C 1', 'scenes': ['1']}, {'id': '2', 'title': 'C 2', 'scenes': ['2']}]
    return p


def stripped(blocks):
    return [tuple(stripped(x) if isinstance(x, list) else x.strip() if isinstance(x, str) else x for x in b) for b in blocks]


def case(c, ctx):
    what, n = c
    ctx.evaluated()
    ctx.key(c)
    ctx.sample(c)
    if what in ('sections', 'dividers', 'split'):
        made(what, n, ctx)
        return
    p = project(what, n)
    textual = what in LENGTHS and what not in ('title', 'desc')
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(p, path)
        before = prj.canonical(path)
        sut.rewrite(path)
        saved = prj.canonical(path)
        # Languages used in the text may be declared now.
        plain = {**saved, 'PROJECTVARS': {k: x for k, x in saved['PROJECTVARS'].items() if 'lang=' not in k}}
        unchanged(ctx, 'saved', c, before, plain)
        v = sut.view(sut.read(path).novel)
        ctx.same(list(p['scenes']), [i for i in v['scenes']] if what != 'scenes' else sorted(v['scenes'], key=int), 'scenes', c)
        ctx.same([(x['id'], x.get('scenes', [])) for x in p['chapters']], [(i, x.get('srtScenes', [])) for i, x in v['chapters']], 'chapters', c)
        for k in ('characters', 'locations', 'items', 'notes'):
            ctx.same([(x['id'], x['title']) for x in p.get(k, [])], [(i, x.get('title', '')) for i, x in v[k]], k, c)
        edited(ctx, c, path, w)
        prj.save(p, path)
        sut.rewrite(path)
        for suffix in ALL_TEXTS if textual else SHOWN[what]:
            doc = odf.Odf(sut.export(path, suffix))
            if textual:
                if suffix == '_proof' and what == 'brackets':
                    continue
                blocks = c06.scene_blocks(suffix, doc.blocks(), None)
                for i, s in p['scenes'].items():
                    want, have = c06.expected(suffix, s['content']), markup.doc_model(blocks.get(i, []), suffix == '_proof')
                    if want != have:
                        ctx.violation(f'text{suffix}', f'{c}: {first(want, have)}')
            elif not suffix.endswith('list'):
                want, have = stripped(docmodel.text_doc(v, suffix)), stripped(docmodel.skeleton(doc.blocks()))
                if want != have:
                    ctx.violation(f'document{suffix}', f'{c}: {first(want, have)}')
                ctx.expect(docmodel.links(v, suffix, 'p') == [x for x in doc.links() if x.startswith('../')], f'links{suffix}', c)
            else:
                rows(ctx, c, v, suffix, doc)
            if suffix in sut.IMPORTS:
                r = sut.imp(path[:-4] + suffix + sut.EXPORTS[suffix])
                ctx.expect(not r.ui.warnings, 'warning', f'{c} {suffix}: {r}')
                after = prj.canonical(path)
                for x in (saved, after):
                    x['PROJECTVARS'] = {k: y for k, y in x['PROJECTVARS'].items() if 'lang=' not in k}
                if textual:
                    a, b = (x['SCENES']['1'].get('SceneContent', '') for x in (saved, after))
                    a, b = markup.text_model(a), markup.text_model(b)
                    if a != b:
                        ctx.violation(f'imported{suffix}', f'{c}: {first(a, b)}')
                    after['SCENES']['1'] = saved['SCENES']['1']
                unchanged(ctx, f'imported{suffix}', c, saved, after)
                if what != 'title':
                    prj.save(p, path)
                    sut.rewrite(path)
                    everywhere(ctx, c, path, suffix, v, textual)
                    prj.save(p, path)
                    sut.rewrite(path)
        if what == 'languages':
            used = sorted({language(i) for i in range(n)})
            ctx.same(used, sorted(sut.read(path).novel.languages or []), 'languages', c)


WORDS = {'Text ': 'Words ', 'Desc ': 'Said ', 'lorem ': 'other '}
OWNED = {'_manuscript': ('SCENES', ['SceneContent']), '_proof': ('SCENES', ['SceneContent']), '_notes': ('SCENES', ['SceneContent']), '_todo': ('SCENES', ['SceneContent']), '_scenes': ('SCENES', ['Desc']),
         '_chapters': ('CHAPTERS', ['Desc']), '_parts': ('CHAPTERS', ['Desc']), '_characters': ('CHARACTERS', ['Desc', 'Bio', 'Goals', 'Notes']), '_locations': ('LOCATIONS', ['Desc']),
         '_items': ('ITEMS', ['Desc']), '_charlist': ('CHARACTERS', ['Desc', 'Bio', 'Goals', 'Notes']), '_loclist': ('LOCATIONS', ['Desc']), '_itemlist': ('ITEMS', ['Desc']),
         '_scenelist': ('SCENES', ['Desc'])}


def reworded(text):
    for a, b in WORDS.items():
        text = text.replace(a, b)
    return text


def sections(blocks, prefix):
    for b in blocks:
        if b[0] == 'sec':
            if b[1].startswith(prefix):
                yield b[1].split(':')[-1]
            yield from sections(b[2], prefix)
        elif b[0] == 'p' and b[1] == 'scene_20_mark' and b[2].startswith('[ScID:'):
            yield b[2][6:-1]


def everywhere(ctx, c, path, suffix, v, textual):
    """All texts of a document are edited."""
    def edit(root):
        for e in root.iter():
            e.text = e.text and reworded(e.text)
            e.tail = e.tail and reworded(e.tail)

    before = prj.canonical(path)
    doc = sut.export(path, suffix)
    copy = doc + '.copy'
    editor.edit(doc, copy, edit)
    os.replace(copy, doc)
    sut.imp(doc)
    where, attrs = OWNED[suffix]
    if textual:
        ids = list(before['SCENES'])
    elif suffix.endswith('list'):
        ids = [i for i, __ in (docmodel.listed(v) if suffix == '_scenelist' else v[where.lower()])]
    else:
        ids = list(sections(docmodel.text_doc(v, suffix), {'SCENES': 'ScID', 'CHAPTERS': 'ChID', 'CHARACTERS': 'CrID', 'LOCATIONS': 'LcID', 'ITEMS': 'ItID'}[where]))
    ids = set(ids)
    for i, e in before[where].items() if where == 'SCENES' else [(x['ID'], x) for x in before.get(where, [])]:
        if i in ids:
            for a in attrs:
                if a in e:
                    e[a] = reworded(e[a])
    after = prj.canonical(path)
    for x in (before, after):
        x['PROJECTVARS'] = {k: y for k, y in x['PROJECTVARS'].items() if 'lang=' not in k}
    if textual:
        a, b = (x['SCENES']['1'].pop('SceneContent', '') for x in (before, after))
        a, b = markup.text_model(a), markup.text_model(b)
        if a != b:
            ctx.violation(f'reworded{suffix}', f'{c}: {first(a, b)}')
    unchanged(ctx, f'reworded{suffix}', c, before, after)


def first(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'at {i} of {len(a)}/{len(b)}: expected {str(a[i:i + 1])[:300]}, actual {str(b[i:i + 1])[:300]}'


def unchanged(ctx, kind, c, a, b):
    d = [x[:200] for x in prj.diff(a, b)[:3]]
    ctx.expect(not d, kind, f'{c}: {d}')


def edited(ctx, c, path, w):
    """The last element is edited, and nothing else."""
    before = prj.canonical(path)
    f = sut.read(path)
    novel = f.novel
    for where, order, key in ((novel.characters, novel.srtCharacters, 'CHARACTERS'), (novel.locations, novel.srtLocations, 'LOCATIONS'), (novel.items, novel.srtItems, 'ITEMS'),
                              (novel.projectNotes, novel.srtPrjNotes, 'PROJECTNOTES'), (novel.chapters, novel.srtChapters, 'CHAPTERS')):
        if order:
            where[order[-1]].title = 'Edited'
            next(x for x in before[key] if x['ID'] == order[-1])['Title'] = 'Edited'
    if novel.scenes:
        i = list(novel.scenes)[-1]
        novel.scenes[i].notes = 'Edited'
        before['SCENES'][i]['Notes'] = 'Edited'
    f.write()
    unchanged(ctx, 'edited', c, before, prj.canonical(path))


def rows(ctx, c, v, suffix, doc):
    have = [r for r in doc.rows()[1:] if r]
    if suffix == '_scenelist':
        want = docmodel.listed(v)
        ctx.expect([f'ScID:{i}' for i, __ in want] == [r[0] for r in have], 'rows', f'{c}: {len(want)} {len(have)}')
        ctx.expect([s.get('title', '').strip() for __, s in want] == [r[1].strip() for r in have], 'titles', c)
        ctx.expect([';'.join(s.get('tags', [])) for __, s in want] == [re.sub('[,;] *', ';', r[3]) for r in have], 'tags', c)
        return
    part = {'_charlist': 'characters', '_loclist': 'locations', '_itemlist': 'items'}[suffix]
    ctx.expect([i for i, __ in v[part]] == [r[0].split(':')[-1] for r in have], 'rows', c)
    ctx.expect([e.get('title', '').strip() for __, e in v[part]] == [r[1].strip() for r in have], 'titles', c)


def made(what, n, ctx):
    """Import documents with this many parts."""
    c = [what, n]
    with sut.Work() as w:
        path = w.path('p.yw7')
        p = proj.plain()
        p['scenes'], p['chapters'] = {}, []
        if what == 'split':
            t = 'Begin.' + ''.join(f'\n{"###" if i % 3 else "##"} Title {i}\nPart {i}.' for i in range(n))
            p['scenes'] = {'1': proj.scene(title='S', content=t), '2': proj.scene(title='After', content='After.')}
            p['chapters'] = [{'id': '1', 'title': 'C', 'scenes': ['1', '2']}]
            prj.save(p, path)
            r = sut.imp(sut.export(path, '_manuscript'))
            ctx.same(bool(n), bool(r.ui.warnings), 'warning', c)
            v = sut.view(sut.read(path).novel)
            want = [['C', [('S', 'Begin.')]]]
            for i in range(n):
                if i % 3 == 0:
                    want.append([f'Title {i}', [('Scene', f'Part {i}.')]])
                else:
                    want[-1][1].append((f'Title {i}', f'Part {i}.'))
            want[-1][1].append(('After', 'After.'))
        else:
            for i in range(n):
                chapter = what == 'sections' or i == 0
                p['scenes'][str(i + 1)] = proj.scene(title=f'S{i}', content=f'Text {i}.', append=False)
                if chapter:
                    p['chapters'].append({'id': str(i + 1), 'title': f'C{i}', 'level': int(i % 5 == 4 and what == 'sections'), 'scenes': []})
                p['chapters'][-1]['scenes'].append(str(i + 1))
            prj.save(p, path)
            doc = sut.export(path, '')
            new = w.path('new.odt')
            with open(doc, 'rb') as f, open(new, 'wb') as g:
                g.write(f.read())
            r = sut.convert(new)
            if not ctx.expect(r.ok and not r.failed, 'failed', f'{c} {r}') and not (r.ok and not r.failed):
                return
            v = sut.view(sut.read(w.path('new.yw7')).novel)
            k = 0
            want = []
            for x in p['chapters']:
                want.append([x['title'], [(f'Scene {int(i)}', p['scenes'][i]['content']) for i in x['scenes']]])
        have = [[x['title'], [(v['scenes'][i].get('title', ''), v['scenes'][i].get('sceneContent', '')) for i in x.get('srtScenes', [])]] for __, x in v['chapters']]
        if what == 'split':
            # Untitled scenes may be called anything.
            want = [[t, [(s, x) for s, x in y]] for t, y in want]
            have = [[t, [('Scene' if x.startswith('Part') and not s.startswith('Title') else s, x) for s, x in y]] for t, y in have]
        if want != have:
            ctx.violation(what, f'{c}: {first(want, have)}')
        ids = [i for __, x in v['chapters'] for i in x.get('srtScenes', [])]
        ctx.expect(sorted(ids) == sorted(v['scenes']) and len(set(ids)) == len(ids), 'ids', c)
