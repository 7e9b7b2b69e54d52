"""C06: exported documents show the scene text as it is formatted."""
import itertools
import re

from mc import markup, odf, prj, proj, sut
from mc.checks import c05

ID = 'C06'
TITLE = 'Exported documents show every text as it is formatted in the project'
LEVEL = 'exploration'
RULE = ('One evaluation is one scene text in one kind of exported document, read by an independent ODF reader and compared '
        'with an independent model of the markup: characters, paragraphs, quotations, emphasis, languages, comments, and '
        'paragraph styles. All texts of at most n tokens, whose tags may overlap, repeat, or be left open; and texts that look like markup. Distinct: by text and document.')
ASSUMPTIONS = c05.ASSUMPTIONS[:3] + ['The plain export may have stray characters between the blocks (its template is fixed by the test references).']
BOUNDS = c05.BOUNDS
# The author of the comments.
AUTHOR = 'A \\1 \\g<0> & <B> \\'
DOCS = {'': 0, '_manuscript': 0, '_proof': 0, '_notes': 1, '_todo': 2}
TAGS = re.compile(r'\[/?(?:i|b|lang=[a-zA-Z-]+)\]')
CODE = ['<HTM <b>x</b> /HTM>', '<TEX \\it /TEX>', '<RTF \\par /RTF>', '<epub x /epub>', '<mobi y /mobi>', '<rtfimg z.png /rtfimg>', '<RTFBRK>',
        '[h1]', '[/h1]', '[c]', '[/c]', '[r]', '[/r]', '[s]', '[/s]', '[u]', '[/u]', '[h3]', '[/h3]', '[h12]', '[/h12]']


def cases(tier):
    for c in c05.cases(tier):
        if c[0] == '_manuscript':
            for d in DOCS:
                yield [d, c[1]]
    # Highlighting, alignment, strikethrough, underline, and inline code.
    texts = []
    for code in CODE:
        for a in ('', 'a', 'a\n', '> q ', '[i]'):
            for b in ('', 'b', '\nb', ' b'):
                for more in ([''] if tier == 'quick' else [''] + CODE):
                    texts.append(a + code + b + more + ('[/i]' if a == '[i]' else ''))
    for n in range(0, len(texts), c05.PER_PROJECT):
        for d in DOCS:
            yield [d, texts[n:n + c05.PER_PROJECT]]


    # Formatted comments.
    texts = []
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for tags in itertools.product(c05.FORMATS, repeat=n):
            inside = ''.join(f'{x}{t}' for x, t in zip(tags, 'xyzw'))
            for a, b in (('', ''), ('[b]a ', ' b[/b]'), ('[i]a', '[/i]b'), ('[lang=fr]a[i] ', ' b[/lang=fr]c')):
                for mark in ('k ', '@fn f', '@en e') if n < 3 else ('k ',):
                    texts.append(f'{a}q/*{mark}{inside}*/{b}')
    for n in range(0, len(texts), c05.PER_PROJECT):
        for d in DOCS:
            yield [d, texts[n:n + c05.PER_PROJECT]]


def project(texts, typ):
    p = c05.project(texts, typ)
    p['author'] = AUTHOR
    ids = list(p['scenes'])
    p['chapters'] = [{'id': i, 'title': f'Chapter {i}', 'scenes': [i], 'type': typ} for i in ids]
    return p


def scene_blocks(doc, blocks, ids):
    """Return {scene ID: blocks}."""
    out = {}
    if doc == '':
        key = None
        for b in blocks:
            if b[0] == 'h':
                key = markup_plain(b[2]).split(' ')[-1]
                out[key] = []
            elif key and b[0] != 'stray':
                out[key].append(b)
    elif doc == '_proof':
        key = None
        for b in blocks:
            t = odf.plain(b[2]) if b[0] == 'p' else ''
            if b[0] == 'p' and re.fullmatch(r'\[ScID:\d+\]', t):
                key = t[6:-1]
                out[key] = []
            elif b[0] == 'p' and t == '[/ScID]':
                key = None
            elif key:
                out[key].append(b)
    else:
        for b in blocks:
            if b[0] == 'sec':
                if b[1].startswith('ScID:'):
                    out[b[1][5:]] = b[2]
                else:
                    out.update(scene_blocks(doc, b[2], ids))
    return out


def markup_plain(inline):
    return odf.plain(inline)


def expected(doc, text):
    if doc == '':
        # Inline code of other formats is not exported.
        for tag in ('HTM', 'TEX', 'RTF', 'epub', 'mobi', 'rtfimg'):
            text = re.sub(rf'<{tag} .*?/{tag}>', '', text)

        text = text.replace('<RTFBRK>', '')
    # Comments and notes are compared without their formatting.
    text = re.sub(r'/\*.*?\*/', lambda m: TAGS.sub('', m.group()), text, flags=re.S)
    m = markup.text_model(text)
    if doc == '':
        notes = []
        for kind, units in m:
            new = []
            for u in units:
                x = re.fullmatch(r' *@([ef]n)(\*?) (.*)', u[1], re.S) if u[0] == 'comment' else None
                if x:
                    # A star instead of a number is for footnotes only.
                    u = ('note', 'footnote' if x.group(1) == 'fn' else 'endnote', '*' if x.group(2) and x.group(1) == 'fn' else '#',
                         x.group(3))
                new.append(u)
            notes.append((kind, new))
        m = notes
    return m


def case(c, ctx):
    doc, batch = c
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(project(batch, DOCS[doc]), path)
        d = odf.Odf(sut.export(path, doc))
    blocks = scene_blocks(doc, d.blocks(), None)
    if doc == '':
        numbers(ctx, c, list(notes(d.blocks())))
    for i, t in enumerate(batch):
        ctx.evaluated()
        ctx.key((doc, t))
        mine = blocks.get(c05.ident(i))
        if mine is None:
            ctx.violation('missing', f'{doc}: {t!r} is not in the document')
            continue
        e, a = expected(doc, t), markup.doc_model(mine, doc == '_proof')
        if e != a:
            ctx.violation('text', f'{doc}: {t!r}: expected {markup.show(e)}, the document shows {markup.show(a)}')
        styles(ctx, doc, t, mine)
        for name in creators(mine):
            ctx.expect(name == AUTHOR, 'author', f'{doc}: {t!r}: the comment is by {name!r}')
    ctx.sample(f'{doc}: {t!r}')


def creators(x):
    """Generate the authors of the comments."""
    if isinstance(x, (tuple, list)):
        if x and x[0] == 'c' and len(x) == 3:
            yield x[2]
        else:
            for y in x:
                yield from creators(y)


def notes(x):
    """Generate the notes of a document."""
    if isinstance(x, (tuple, list)):
        if x and x[0] == 'n' and len(x) == 5:
            yield x
        else:
            for y in x:
                yield from notes(y)


def numbers(ctx, c, found):
    """Notes are numbered throughout the document, except footnotes that are marked with a star."""
    ids = [x[4] for x in found]
    ctx.expect(len(ids) == len(set(ids)), 'note-id', f'{c}: {ids}')
    labels = [x[2] for x in found if x[2] != '*']
    ctx.expect(labels == [str(n + 1) for n in range(len(labels))], 'note-number', f'{c}: {labels}')


def styles(ctx, doc, text, blocks):
    if '/*' in text or '<' in text or re.search(r'\[/?[hcrsu]', text):
        return
    lines = [re.sub(r'\[[^]]*\]', '', x) for x in text.split('\n')]
    raw = text.split('\n')
    while lines and not lines[-1].strip():
        lines.pop()
    for i, b in enumerate(blocks[:len(lines)]):
        if b[0] != 'p' or raw[i].startswith('> ') and doc != '_proof' or '> ' in raw[i][:8]:
            continue
        if i == 0:
            e = 'Text_20_body'
        elif raw[i - 1] and lines[i - 1].strip():
            e = 'First_20_line_20_indent'
        elif i > 1 and raw[i - 1] == '' and lines[i - 2].strip() and lines[i].strip():
            e = 'Text_20_body'
        else:
            continue
        if b[1] != e and not (doc == '_proof' and i == 0):
            ctx.violation('style', f'{doc}: {text!r}: paragraph {i} has style {b[1]}, not {e}')
