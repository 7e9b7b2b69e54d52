"""C18: a new project made from a work in progress or an outline has exactly the structure and text of the document."""
import itertools
import os
import re
import zipfile
import xml.etree.ElementTree as ET

from mc import editor, markup, odf, prj, proj, sut
from mc.checks import c10, c19
from mc.editor import E
from mc.odf import NS, q

ID = 'C18'
TITLE = 'Projects created from documents have exactly their structure and texts'
LEVEL = 'model_checking'
RULE = ('All sequences of at most n paragraphs over an alphabet of headings, paragraphs, quotations, lists, comments, formatted and '
        'foreign-language text, notes, special characters, empty paragraphs, and scene dividers, following a heading of either level, as a work in '
        'progress; and of headings of three levels and texts as an outline. A model of the documented rules steps through the '
        'paragraphs; the created project, reopened, must have exactly its parts, chapters, scenes (title, status, type), texts '
        'as an independent reader sees them in the document, and the title, author, description, and language of the document. '
        'States: distinct chapters; transitions: paragraphs.')
ASSUMPTIONS = ['What is before the first heading of level 1 or 2 does not belong to the novel.',
               'A scene divider is a paragraph of its own, with its text in one piece; a comment at the beginning of a scene is its title.',
               'Scenes with less than ten words are outlines, all others drafts.']
WIP = ['text', 'div', 'comment1', 'quote', 'list', 'empty', 'nine', 'i', 'comment', 'lang', 'special', 'note', 'plang', 'qi', 'spaces', 'bi', 'ten', 'two', 'divp', 'h4', 'h2']
MORE = ['pi', 'pb', 'qp', 'lpi', 'qlang', 'frame', 'frame2', 'frame3', 'image', 'pstyle', 'nested', 'langc', 'lang0']
BEFORE = ['Title', 'Subtitle', 'text', 'empty', 'div', 'h4', 'quote', 'list', 'comment1', 'comment', 'note', 'i', 'qi', 'bi', 'lang', 'plang', 'image', 'frame']
OUT = ['h3', 'text', 'empty', 'special', 'i', 'spaces', 'h3e', 'h4', 'quote']
BOUNDS = {'quick': f'n=3 over {len(WIP)} (work in progress), n=4 over {len(OUT)} (outline), 6 locales x 5 metadata',
          'thorough': f'n=4 over {len(WIP)} (work in progress), n=6 over {len(OUT)} (outline), 6 locales x 5 metadata'}
LOCALES = [('en', 'US'), ('de', 'DE'), ('de', 'AT'), ('fr', 'CH'), ('zxx', 'none'), ('sr', 'RS')]
META = [('T', 'A', 'D'), ('', '', ''), ('T & <t> "q" \'s\' \\ $ID', 'A & <b>', 'Desc & <d>\nline'), ('T', '', ''), ('', 'A', 'D'),
        # The elements, or the file, missing.
        ('T', '', '', 'drop'), ('', 'A', '', 'drop'), ('', '', 'D', 'drop'), ('', '', '', 'file')]


def cases(tier):
    n, m = (3, 4) if tier == 'quick' else (4, 6)
    for kind, alpha, k in (('wip', WIP, n), ('outline', OUT, m)):
        batch = []
        for r in range(k + 1):
            for t in itertools.product(range(len(alpha)), repeat=r):
                names = [alpha[i] for i in t]
                if any(k == 'divp' and (not j or names[j - 1] in ('div', 'divp', 'h2')) for j, k in enumerate(names)):
                    # A divider on its own does not make a scene, and is not expected to.
                    continue
                batch.append([['h1', 'h2'][len(batch) % 2]] + names)
                if len(batch) == 60:
                    yield [kind, 0, 2, batch]
                    batch = []
            if r == k - 1 and batch:
                # All short documents, stored in every other way.
                for name in editor.TRANSFORMS:
                    # The marks of a divider are in one piece.
                    names = [a for a in alpha if name not in PIECES or not a.startswith('div')]
                    for b in short(kind, names, 2 if tier == 'quick' else k - 1):
                        yield [kind, 0, 2, b, name]
        if kind == 'wip':
            # Other paragraphs between and next to these.
            for k in MORE:
                yield [kind, 0, 2, [['h2', a, k, b] for a in ('text', 'i', 'quote', 'div', 'empty') for b in WIP + MORE] + [['h1', k, b] for b in WIP + MORE]]
        for r in (1, 2):
            # What is before the first heading.
            for i, t in enumerate(itertools.product([x for x in BEFORE if kind == 'wip' or not x.startswith('div')], repeat=r)):
                yield [kind, 0, 2, [list(t) + [['h1', 'h2'][i % 2], 'text', 'two', 'quote'], ['h2', 'h3' if kind == 'outline' else 'text', 'i']]]
        if batch:
            # An outline has a heading of level 3.
            yield [kind, 0, 2, batch + ([['h2', 'h3']] if kind == 'outline' else [])]
        for i in range(len(LOCALES)):
            for j in range(len(META)):
                yield [kind, i, j, [['h2', 'h3', 'text']] if kind == 'outline' else [['h2', 'text']]]


PIECES = ('spans', 'bookmarks', 'links', 'space_elements', 'tracked')


def short(kind, alpha, n):
    batch = []
    for t in itertools.product(alpha, repeat=n):
        if any(k == 'divp' and (not j or t[j - 1] in ('div', 'divp', 'h2')) for j, k in enumerate(t)):
            continue
        batch.append([['h1', 'h2'][len(batch) % 2]] + list(t))
    return [batch[i:i + 60] + ([['h2', 'h3']] if kind == 'outline' else []) for i in range(0, len(batch), 60)]


def paragraph(root, kind, n):
    if kind in ('h1', 'h2', 'h3', 'h3e', 'h4'):
        level = int(kind[1])
        text = '' if kind == 'h3e' else f'Head {n} & <x>'
        h = E('text:h', text, text__style_name=f'Heading_20_{level}', text__outline_level=str(level))
        if text and n % 3 == 1:
            # Formatting in headings does not matter.
            h.text = 'Head '
            s = E('text:span', f'{n} & ', text__style_name='Emphasis')
            s.tail = '<x>'
            h.append(s)
        return h
    if kind in ('Title', 'Subtitle'):
        return E('text:p', f'{kind} of the document', text__style_name=kind)
    if kind == 'text':
        return E('text:p', f'Words {n}.', text__style_name='Text_20_body')
    if kind == 'two':
        return E('text:p', 'Two words', text__style_name='First_20_line_20_indent')
    if kind == 'hbase':
        return E('text:p', f'Letter {n}', text__style_name='Heading')
    if kind == 'div':
        return E('text:p', '* * *', text__style_name='Heading_20_4')
    if kind == 'divp':
        return E('text:p', '* * *', text__style_name='Text_20_body')
    if kind == 'nine':
        return E('text:p', 'one two three four five six seven eight nine', text__style_name='Text_20_body')
    if kind == 'ten':
        return E('text:p', 'one two three four five six seven eight nine ten', text__style_name='Text_20_body')
    if kind == 'comment1':
        p = E('text:p', text__style_name='Text_20_body')
        a = E('office:annotation')
        a.append(E('dc:creator', 'x'))
        a.append(E('dc:date', '2023-01-01T00:00:00'))
        a.append(E('text:p', f' Comment & <{n}> '))
        a.tail = 'After comment.'
        p.append(a)
        return p
    if kind == 'plang':
        auto = root.find('office:automatic-styles', NS)
        if not any(s.get(q('style:name')) == 'P88' for s in auto):
            s = E('style:style', style__name='P88', style__family='paragraph', style__parent_style_name='Text_20_body')
            s.append(E('style:text-properties', fo__language='it', fo__country='none'))
            auto.append(s)
        return E('text:p', 'Parole straniere', text__style_name='P88')
    return c10.paragraph(root, kind)


def shown(b):
    """Return the document model of a block."""
    if b[0] == 'h':
        return markup.doc_model([('p', '', b[2])])
    if b[0] == 'li':
        return markup.doc_model([('p', '', [('t', '- ', frozenset())] + b[1])])
    return markup.doc_model([b])


def text_of(b):
    inline = b[1] if b[0] == 'li' else b[2]
    return re.sub(r'\s+', ' ', odf.plain(inline)).strip()


def drop(path, what):
    with zipfile.ZipFile(path) as z:
        files = {n: z.read(n) for n in z.namelist()}
    if what == 'file':
        del files['meta.xml']
    else:
        root = ET.fromstring(files['meta.xml'])
        m = root.find('office:meta', NS)
        for e in list(m):
            if not e.text:
                m.remove(e)
        files['meta.xml'] = ET.tostring(root)
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_DEFLATED) as z:
        for n, d in files.items():
            z.writestr(n, d)


def case(c, ctx):
    kind, loc, meta, batch, *transforms = c
    language, country = LOCALES[loc]
    title, author, desc, *missing = META[meta]
    with sut.Work() as w:
        base = w.path('base.yw7')
        p = proj.plain()
        p.update(title=title, author=author, desc=desc)
        p['vars'] = [{'id': '1', 'title': 'Language', 'desc': language, 'tags': '0'}, {'id': '2', 'title': 'Country', 'desc': country, 'tags': '0'}]
        prj.save(p, base)
        template = sut.export(base, '')
        path = w.path('new.odt')
        made = []

        def fill(root):
            body = c10.text_parent(root)
            for e in list(body):
                body.remove(e)
            for ks in batch:
                for k in ks:
                    e = paragraph(root, k, len(made))
                    made.append(k)
                    body.append(e)

        editor.edit(template, path, fill)
        doc = odf.Odf(path)
        if transforms:
            editor.rewrite(path, path, transforms)
        if missing:
            drop(path, missing[0])
        if kind == 'wip':
            # Only outlines have headings of level 3.
            assert b'Heading_20_3' not in doc.files['content.xml']
        r = sut.convert(path)
        if not r.ok or r.failed or not os.path.isfile(w.path('new.yw7')):
            ctx.violation('failed', f'{kind}: {r}')
            return
        v = sut.view(sut.read(w.path('new.yw7')).novel)
        want = (wip if kind == 'wip' else outline)(doc.blocks())
        ctx.trace()
        compare(kind, want, v, ctx, c)
        n = v['novel']
        ctx.same((title, author, desc), (n.get('title', ''), n.get('authorName', ''), n.get('desc', '')), f'{kind}-metadata', [loc, meta])
        ctx.same((language, country), (n.get('languageCode'), n.get('countryCode')), f'{kind}-locale', [loc, meta])
        if kind == 'wip':
            # The markup of foreign languages must be usable in the project.
            used = set(re.findall(r'\[lang=([\w-]+)\]', ' '.join(s.get('sceneContent', '') for s in v['scenes'].values())))
            if c[3][0][0] in ('h1', 'h2'):
                ctx.same(sorted(used), sorted(n.get('languages', [])), 'languages')
            else:
                # What is used before the first heading may be declared.
                ctx.expect(used <= set(n.get('languages', [])), 'languages', f'{used} {n.get("languages")}')
        for k in ('characters', 'locations', 'items', 'notes'):
            ctx.expect(not v[k], f'{kind}-{k}', v[k])
        ctx.sample([kind, batch[-1]])


def wip(blocks):
    """Return [(title, level, [(title, blocks)])]."""
    chapters = []
    count = 0
    scene = None
    for b in blocks:
        if b[0] == 'h' and b[1] in (1, 2):
            chapters.append((odf.plain(b[2]), 1 if b[1] == 1 else 0, []))
            scene = None
            continue
        if not chapters:
            continue
        if b[0] == 'p' and text_of(b) == '* * *':
            scene = None
            continue
        if scene is None:
            count += 1
            scene = [f'Scene {count}', []]
            chapters[-1][2].append(scene)
            atoms = b[2] if b[0] == 'p' and b[1] != 'Quotations' else []
            if atoms and atoms[0][0] == 'c':
                scene[0] = atoms[0][1].strip()
                b = (b[0], b[1], b[2][1:])
        scene[1].append(b)
    return chapters


def outline(blocks):
    chapters = []
    for b in blocks:
        t = text_of(b)
        if b[0] == 'h' and b[1] in (1, 2):
            chapters.append((t, 1 if b[1] == 1 else 0, [], []))
        elif b[0] == 'h' and b[1] == 3:
            chapters[-1][2].append((t, []))
        elif t and chapters:
            (chapters[-1][2][-1][1] if chapters[-1][2] else chapters[-1][3]).append(t)
    return chapters


def spaced(text):
    return re.sub(r'[ \t]+', ' ', text or '').strip()


def compare(kind, want, v, ctx, c):
    have = v['chapters']
    if len(want) != len(have):
        ctx.violation(f'{kind}-chapters', f'expected {len(want)}, actual {len(have)}')
        return
    owner = [ks for ks in c[3] for k in ks if k in ('h1', 'h2')]
    ids = [i for __, ch in have for i in ch.get('srtScenes', [])]
    ctx.expect(sorted(ids) == sorted(v['scenes']) and len(set(ids)) == len(ids), f'{kind}-ids', f'{ids} {sorted(v["scenes"])}')
    for n, (w, (cid, ch)) in enumerate(zip(want, have)):
        what = f'{owner[n]}'
        ctx.state((kind, owner[n]))
        ctx.step(len(owner[n]))
        ctx.same((w[0], w[1], None), (spaced(ch.get('title', '')), ch.get('chLevel', 0), ch.get('chType')), f'{kind}-chapter', what)
        scenes = [v['scenes'][i] for i in ch.get('srtScenes', [])]
        if len(scenes) != len(w[2]):
            ctx.violation(f'{kind}-scenes', f'{what}: expected {len(w[2])}, actual {len(scenes)}')
            continue
        if kind == 'outline':
            ctx.same(w[3], [spaced(x) for x in ch.get('desc', '').split('\n') if x.strip()], 'outline-chapter-desc', what)
        else:
            ctx.same(None, ch.get('desc'), 'wip-chapter-desc', what)
        for (title, content), s in zip(w[2], scenes):
            ctx.same(None, s.get('scType'), f'{kind}-type', what)
            if kind == 'outline':
                ctx.same(title, spaced(s.get('title')), 'outline-title', what)
                ctx.same(content, [spaced(x) for x in s.get('desc', '').split('\n') if x.strip()], 'outline-desc', what)
                ctx.same((None, 1), (s.get('sceneContent'), s.get('status')), 'outline-scene', what)
                continue
            ctx.same(title, s.get('title'), 'wip-title', what)
            model = []
            for b in content:
                model += shown(b) or [('p', [])]
            model = [(k, [note(u) for u in units]) for k, units in markup.normal(model)]
            have_text = markup.text_model(s.get('sceneContent', ''))
            have_text = [(k, [note(u) for u in units]) for k, units in have_text]
            if model != have_text:
                ctx.violation('wip-text', f'{what}: {s.get("sceneContent")!r}\nexpected {markup.show(model)}\nactual   {markup.show(have_text)}')
            words = c19.count(s.get('sceneContent', ''))[0]
            ctx.same(1 if words < 10 else 2, s.get('status'), 'wip-status', f'{what}: {words} words')


def note(u):
    """Notes are comments with a mark."""
    if u[0] == 'comment':
        m = re.match(r'@([fe])n(\*?) (.*)', u[1], re.S)
        if m:
            return 'note', {'f': 'footnote', 'e': 'endnote'}[m.group(1)], m.group(2) or '#', m.group(3)
        return 'comment', u[1].strip()
    return u
