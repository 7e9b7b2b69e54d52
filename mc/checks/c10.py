"""C10: importing an edited document changes what was edited there, and nothing else."""
import copy
import re

from mc import editor, markup, odf, prj, proj, sut
from mc.checks.c08 import lines, norm
from mc.editor import E
from mc.odf import NS, q

ID = 'C10'
TITLE = 'Importing an edited document changes exactly what was edited'
LEVEL = 'model_checking'
RULE = ('Every sequence of at most n edits over an alphabet of what an office user does (typing, formatting, inserting, '
        'deleting, splitting, joining, and moving paragraphs; lists, quotations, comments; clearing, deleting, and '
        'exchanging sections; writing outside the sections) is applied to an exported document of every importable type. '
        'After the import, every field whose section is there must show what an independent reader sees in the section, '
        'and everything else must be as before. States: distinct project contents after the import; transitions: imports.')
ASSUMPTIONS = ['Blanks at the beginning and end of a paragraph and empty paragraphs around a text do not count.',
               'No paragraph begins with "#" (this is a split marker); names and marks of sections are not edited.',
               'Lists are imported as paragraphs beginning with "- "; a comment in a footnote or endnote becomes lines of it.']
BOUNDS = {'quick': 'n=1 for all edits, n=2 for half of the alphabet', 'thorough': 'n=2 for all edits, n=3 for the structural ones'}
FORMATTED = {'_manuscript': 0, '_proof': 0, '_notes': 1, '_todo': 2}
DOCS = list(FORMATTED) + ['_scenes', '_chapters', '_parts', '_characters', '_locations', '_items']

PARAS = ['plain', 'i', 'bi', 'quote', 'empty', 'list', 'lang', 'comment', 'note', 'special', 'spaces', 'pstyle', 'qi', 'lang0', 'langc', 'nested', 'nested2', 'frame', 'frame2', 'frame3', 'image',
         'h4', 'h7', 'h10', 'hbase', 'h3e', 'pi', 'pb', 'qp', 'lpi', 'plang1', 'qlang']
# Paragraph styles: parent, properties, and the style of a span in the paragraph.
PSTYLES = {'pi': ('Text_20_body', {'fo__font_style': 'italic'}, 'Strong_20_Emphasis'),
           'pb': ('First_20_line_20_indent', {'fo__font_weight': 'bold', 'fo__font_style': 'italic'}, 'Plain'),
           'qp': ('Quotations', {'fo__font_style': 'italic'}, 'Plain'), 'lpi': ('Text_20_body', {'fo__font_style': 'italic'}, 'Strong_20_Emphasis'),
           'plang1': ('Text_20_body', {'fo__language': 'es', 'fo__country': 'MX'}, 'Emphasis'),
           'qlang': ('Quotations', {'fo__language': 'es', 'fo__country': 'none'}, 'Emphasis')}
DESC = ['plain', 'empty', 'special', 'spaces', 'i', 'pstyle', 'quote', 'list', 'h3', 'h4', 'h10', 'hbase', 'h3e']
FEW = ['i', 'quote', 'list']


def project(doc):
    p = proj.plain()
    t = FORMATTED.get(doc, 0)
    c = ['First line here.\n[i]Second[/i] line [b]is[/b] here.\n> A quotation.\nEnd.', 'Only line.', 'x [lang=fr]mot[/lang=fr] y\n\n[i]z[/i]']
    p['scenes'] = {str(i): proj.scene(title=f'S{i}', content=c[i - 1], type=t, desc=f'Desc {i}\nmore & {i}', tags=['t'], notes='n',
                                      chars=['1'], status='1' if t else '3', date_='x') for i in (1, 2, 3)}
    for s in p['scenes'].values():
        s.pop('date_')
    p['scenes']['9'] = proj.scene(title='Other', content='Other type', desc='other', type=(1 if t != 1 else 2), status='1')
    p['chapters'] = [{'id': '1', 'title': 'C1', 'desc': 'ch & 1\ntwo', 'scenes': ['1', '2'], 'type': t},
                     {'id': '2', 'title': 'C2', 'desc': 'ch 2', 'scenes': ['3'], 'type': t},
                     {'id': '5', 'title': 'P1', 'desc': 'part 1', 'level': 1, 'scenes': []},
                     {'id': '6', 'title': 'P2', 'desc': 'part 2\ntwo', 'level': 1, 'scenes': []},
                     {'id': '7', 'title': 'Other', 'scenes': ['9']}]
    if t:
        p['chapters'][4]['type'] = 3 - t
    for k in ('characters', 'locations', 'items'):
        p[k] = [{'id': str(i), 'title': f'E{i}', 'aka': 'al', 'tags': ['t'], 'desc': f'd{i}\nmore', 'image': 'i.png'} for i in (1, 2)]
        if k == 'characters':
            for e in p[k]:
                e.update(bio='b\nb', goals='g', notes='n' + e['id'], fullname='Full')
    return p


def targets(doc):
    """The names of the sections of a document that carry texts."""
    if doc in FORMATTED or doc == '_scenes':
        return ['ScID:1', 'ScID:2', 'ScID:3']
    if doc == '_chapters':
        return ['ChID:1', 'ChID:2']
    if doc == '_parts':
        return ['ChID:5', 'ChID:6']
    if doc == '_characters':
        return ['CrID_desc:1', 'CrID_bio:1', 'CrID_notes:1', 'CrID_desc:2', 'CrID_bio:2', 'CrID_goals:2']
    return ['LcID:1', 'LcID:2'] if doc == '_locations' else ['ItID:1', 'ItID:2']


def ops(doc, full):
    ts = targets(doc)
    rich = doc in FORMATTED
    paras = PARAS if rich else DESC
    if doc == '_proof':
        paras = [x for x in PARAS if x not in ('pstyle',)] + ['h3']
    if not full:
        paras = FEW if rich else ['plain', 'empty']
    out = []
    for n, s in enumerate(ts if full else ts[:2] + ts[3:4]):
        for k in ([0, 1, 4] if full and not n else [0]):
            for x in paras:
                out.append(['insert', s, k, x])
        for k in ([0, 1, 2] if full and not n else [0]):
            out += [['delete', s, k], ['type', s, k, 'X'], ['split', s, k]]
            if full:
                out += [['type', s, k, ' & <y> '], ['prefix', s, k], ['join', s, k]]
                if rich:
                    out += [['format', s, k, f] for f in ('Emphasis', 'Strong_20_Emphasis', 'de')]
        out += [['clear', s], ['remove', s]]
        if n:
            out += [['swap', ts[0], s], ['move', ts[0], s]]
            if full:
                out.append(['move', s, ts[0]])
        if full:
            out += [['outside', s, x] for x in (['plain', 'i', 'spaces', 'comment', 'quote', 'list', 'langc'] if rich else ['plain', 'spaces'])]
    if full:
        out += [['append'], ['headings'], ['title']]
    if doc in ('_manuscript', '_scenes'):
        out.append(['rename', ts[1]])
    return out


def cases(tier):
    for doc in DOCS:
        if tier == 'quick':
            batch = [[o] for o in ops(doc, True)] + [[a, b] for a in ops(doc, False) for b in ops(doc, False) if a != b and not unclear(a, b)]
            batch += [[]]
            for i in range(0, len(batch), 40):
                yield [doc, batch[i:i + 40]]
        else:
            for a in ops(doc, True):
                yield [doc, [[a]] + [[a, b] for b in ops(doc, True) if a != b and not unclear(a, b)]]
            structural = [o for o in ops(doc, False) if o[0] not in ('insert', 'type') or o[2:] == [0, 'plain']]
            for a in structural:
                for b in structural:
                    if a != b and 'rename' not in (a[0], b[0]):
                        yield [doc, [[a, b, c] for c in structural if c[0] != 'rename']]


def unclear(a, b):
    """A scene title is marked at the beginning only."""
    return 'rename' in (a[0], b[0]) and (a[0] in ('insert', 'move') or b[0] in ('insert', 'move'))


# -- editing
def text_parent(root):
    return root.find('office:body', NS).find('office:text', NS)


def find_section(root, name):
    for s in text_parent(root).iter(q('text:section')):
        if s.get(q('text:name')) == name:
            return s
    return None


def marks(root):
    """The proof document: {name: (index of the start mark, index of the end mark)} in the body."""
    out = {}
    start = None
    for i, e in enumerate(text_parent(root)):
        t = ''.join(e.itertext())
        m = re.fullmatch(r'\[ScID:(\d+)\]', t)
        if m:
            start = (m.group(1), i)
        elif t == '[/ScID]' and start:
            out['ScID:' + start[0]] = (start[1], i)
            start = None
    return out


def content(root, doc, name):
    """Return (parent, first index, end index) of the paragraphs of a text, or None."""
    if doc == '_proof':
        m = marks(root).get(name)
        return (text_parent(root), m[0] + 1, m[1]) if m else None
    s = find_section(root, name)
    if s is None:
        return None
    first = 0
    while first < len(s) and s[first].tag == q('text:h'):
        first += 1
    return s, first, len(s)


def style_of(root, name, **props):
    auto = root.find('office:automatic-styles', NS)
    for s in auto:
        if s.get(q('style:name')) == name:
            return
    s = E('style:style', style__name=name, style__family='text')
    s.append(E('style:text-properties', **props))
    auto.append(s)


def paragraph(root, kind):
    p = E('text:p', text__style_name='Text_20_body')
    if kind == 'plain':
        p.text = 'Inserted words.'
    elif kind == 'i':
        p.text = 'pre '
        s = E('text:span', 'emph asized', text__style_name='Emphasis')
        s.tail = ' post'
        p.append(s)
    elif kind == 'bi':
        style_of(root, 'T77', fo__font_weight='bold', fo__font_style='italic')
        s = E('text:span', 'both', text__style_name='T77')
        s.tail = '.'
        p.append(s)
    elif kind == 'quote':
        p.set(q('text:style-name'), 'Quotations')
        p.text = 'A new quotation.'
    elif kind == 'list':
        lst = E('text:list')
        for t in ('item one', 'item two'):
            li = E('text:list-item')
            li.append(E('text:p', t, text__style_name='P7'))
            lst.append(li)
        return lst
    elif kind in ('lang', 'lang0', 'langc'):
        if kind == 'lang':
            style_of(root, 'T78', fo__language='es', fo__country='none')
        elif kind == 'lang0':
            style_of(root, 'T79', fo__language='es')
        else:
            style_of(root, 'T80', fo__language='es', fo__country='MX')
        p.text = 'in '
        s = E('text:span', 'dos palabras', text__style_name={'lang': 'T78', 'lang0': 'T79', 'langc': 'T80'}[kind])
        s.tail = ' es'
        p.append(s)
    elif kind == 'comment':
        p.text = 'with'
        a = E('office:annotation')
        a.append(E('dc:creator', 'Some <one>'))
        a.append(E('dc:date', '2023-01-01T00:00:00'))
        a.append(E('text:p', 'my & comment'))
        a.tail = ' text'
        p.append(a)
    elif kind == 'note':
        p.text = 'with'
        a = E('text:note', text__id='ftn9', text__note_class='footnote')
        a.append(E('text:note-citation', '1'))
        b = E('text:note-body')
        b.append(E('text:p', 'the note', text__style_name='Footnote'))
        a.append(b)
        a.tail = ' text'
        p.append(a)
    elif kind in ('nested', 'nested2'):
        p.text = 'with'
        a = E('text:note', text__id='ftn8', text__note_class='endnote')
        a.append(E('text:note-citation', 'i'))
        b = E('text:note-body')
        b.append(E('text:p', 'the end', text__style_name='Endnote'))
        b.append(E('text:p', 'note', text__style_name='Endnote'))
        c = E('office:annotation')
        c.append(E('dc:creator', 'Some one'))
        c.append(E('dc:date', '2023-01-01T00:00:00'))
        c.append(E('text:p', 'nested & comment'))
        if kind == 'nested':
            c.append(E('text:p', 'with two lines'))
            c.tail = 'goes on'
        b[1].append(c)
        b.append(E('text:p', 'to its end', text__style_name='Endnote'))
        a.append(b)
        a.tail = ' text'
        p.append(a)
    elif kind == 'frame3':
        # A frame within formatted text.
        p.text = 'Words '
        s = E('text:span', 'before ', text__style_name='Emphasis')
        f = E('draw:frame', draw__name='Frame1', text__anchor_type='as-char', svg__width='5cm')
        b = E('draw:text-box')
        b.append(E('text:p', 'A caption', text__style_name='Illustration'))
        f.append(b)
        f.tail = 'behind'
        s.append(f)
        s.tail = ' the frame'
        p.append(s)
    elif kind in ('frame', 'frame2', 'image'):
        s = E('text:span', 'Em ' if kind != 'frame' else None, text__style_name='Emphasis')
        f = E('draw:frame', draw__name='Frame1', text__anchor_type='paragraph' if kind == 'frame' else 'as-char', svg__width='5cm')
        if kind != 'image':
            b = E('draw:text-box')
            b.append(E('text:p', 'A caption', text__style_name='Illustration'))
            b.append(E('text:p', text__style_name='Illustration'))
            b[1].append(E('text:span', 'bold caption', text__style_name='Strong_20_Emphasis'))
            f.append(b)
        else:
            f.append(E('draw:image', xlink__href='Pictures/1.png'))
        f.append(E('svg:title', 'a title & text'))
        f.append(E('svg:desc', 'a long text'))
        if kind == 'frame':
            p.append(f)
            s.text = 'Behind'
            p.append(s)
        else:
            p.text = 'Words '
            p.append(s)
            p.append(f)
            f.tail = 'behind it'
        s.tail = ' the frame'
    elif kind in ('h3', 'h4', 'h7', 'h10', 'h3e'):
        level = kind[1:].strip('e')
        return E('text:h', None if kind == 'h3e' else f'A subheading {level}', text__style_name=f'Heading_20_{level}', text__outline_level=level)
    elif kind == 'hbase':
        p.set(q('text:style-name'), 'Heading')
        p.text = 'Like a heading'
    elif kind == 'special':
        p.text = '<b> & "q" \'s\' \\ [x] é ${Title} $ID %s'
    elif kind == 'spaces':
        p.text = 'a'
        s = E('text:s', text__c='3')
        s.tail = 'b'
        p.append(s)
        t = E('text:tab')
        t.tail = 'c'
        p.append(t)
    elif kind == 'pstyle':
        auto = root.find('office:automatic-styles', NS)
        if not any(s.get(q('style:name')) == 'P77' for s in auto):
            auto.append(E('style:style', style__name='P77', style__family='paragraph', style__parent_style_name='First_20_line_20_indent'))
        p.set(q('text:style-name'), 'P77')
        p.text = 'Own style.'
    elif kind in PSTYLES:
        parent, properties, inner = PSTYLES[kind]
        auto = root.find('office:automatic-styles', NS)
        name = f'P8{list(PSTYLES).index(kind)}'
        if not any(s.get(q('style:name')) == name for s in auto):
            s = E('style:style', style__name=name, style__family='paragraph', style__parent_style_name=parent)
            s.append(E('style:text-properties', **properties))
            auto.append(s)
        p.set(q('text:style-name'), name)
        p.text = f'In {kind} '
        s = E('text:span', 'with a span', text__style_name=inner)
        s.tail = ' inside'
        p.append(s)
        if kind == 'lpi':
            lst = E('text:list')
            lst.append(E('text:list-item'))
            lst[0].append(p)
            return lst
    elif kind == 'qi':
        p.set(q('text:style-name'), 'Quotations')
        s = E('text:span', 'Quoted', text__style_name='Strong_20_Emphasis')
        s.tail = ' bold.'
        p.append(s)
    return p


def para_at(root, doc, name, k):
    c = content(root, doc, name)
    if not c:
        return None, None, None
    parent, first, end = c
    ps = [e for e in list(parent)[first:end] if e.tag == q('text:p')]
    if k >= len(ps):
        return None, None, None
    return parent, ps[k], list(parent).index(ps[k])


def apply(root, doc, op):
    """Edit the content tree."""
    name = op[0]
    body = text_parent(root)
    if name == 'insert':
        c = content(root, doc, op[1])
        if c:
            parent, first, end = c
            parent.insert(min(first + op[2], end), paragraph(root, op[3]))
    elif name in ('delete', 'type', 'split', 'prefix', 'join', 'format'):
        parent, p, i = para_at(root, doc, op[1], op[2])
        if p is None:
            return
        if name == 'delete':
            parent.remove(p)
            c = content(root, doc, op[1])
            if c[1] == c[2]:
                parent.insert(c[1], E('text:p', text__style_name='Text_20_body'))
        elif name == 'type':
            # Inside the last text run of the paragraph.
            if len(p):
                s = p[0]
                if s.tag == q('text:span'):
                    s.text = (s.text or '') + op[3]
                s.tail = (s.tail or '') + op[3]
            else:
                p.text = (p.text or '') + op[3]
        elif name == 'prefix':
            p.text = 'Z' + (p.text or '')
        elif name == 'split':
            t = p.text or ''
            if len(t) > 3:
                new = E('text:p', t[3:], text__style_name=p.get(q('text:style-name')))
                new.extend(list(p))
                for e in list(p):
                    p.remove(e)
                p.text = t[:3]
                parent.insert(i + 1, new)
        elif name == 'join':
            __, nxt, __ = para_at(root, doc, op[1], op[2] + 1)
            if nxt is not None:
                if len(p):
                    p[-1].tail = (p[-1].tail or '') + (nxt.text or '')
                else:
                    p.text = (p.text or '') + (nxt.text or '')
                p.extend(list(nxt))
                parent.remove(nxt)
        elif name == 'format':
            t = p.text or ''
            if len(t) > 2:
                style = op[3]
                if style == 'de':
                    style_of(root, 'T79', fo__language='de', fo__country='DE')
                    style = 'T79'
                # In the middle of a word.
                s = E('text:span', t[1:-1], text__style_name=style)
                s.tail = t[-1]
                p.text = t[0]
                p.insert(0, s)
    elif name == 'clear':
        c = content(root, doc, op[1])
        if c:
            parent, first, end = c
            for e in list(parent)[first:end]:
                parent.remove(e)
            parent.insert(first, E('text:p', text__style_name='Text_20_body'))
    elif name == 'remove':
        if doc == '_proof':
            m = marks(root).get(op[1])
            if m:
                for e in list(body)[m[0]:m[1] + 1]:
                    body.remove(e)
        else:
            for parent in body.iter():
                for e in list(parent):
                    if e.tag == q('text:section') and e.get(q('text:name')) == op[1]:
                        parent.remove(e)
    elif name == 'swap':
        a, b = content(root, doc, op[1]), content(root, doc, op[2])
        if a and b:
            if doc == '_proof':
                x, y = marks(root)[op[1]], marks(root)[op[2]]
                if x > y:
                    x, y = y, x
                es = list(body)
                new = es[:x[0]] + es[y[0]:y[1] + 1] + es[x[1] + 1:y[0]] + es[x[0]:x[1] + 1] + es[y[1] + 1:]
                for e in es:
                    body.remove(e)
                body.extend(new)
            else:
                sa, sb = a[0], b[0]
                pa, pb = parent_of(body, sa), parent_of(body, sb)
                i, j = list(pa).index(sa), list(pb).index(sb)
                pa[i], pb[j] = sb, sa
    elif name == 'move':
        parent, p, i = para_at(root, doc, op[1], 0)
        if p is not None and content(root, doc, op[2]):
            parent.remove(p)
            c = content(root, doc, op[1])
            if c[1] == c[2]:
                parent.insert(c[1], E('text:p', text__style_name='Text_20_body'))
            c = content(root, doc, op[2])
            c[0].insert(c[2], p)
    elif name == 'outside':
        if doc == '_proof':
            m = marks(root).get(op[1])
            if m:
                body.insert(m[1] + 1, paragraph(root, op[2]))
                body.insert(m[0], paragraph(root, op[2]))
        else:
            s = find_section(root, op[1])
            if s is not None and doc != '_characters':
                parent = parent_of(body, s)
                i = list(parent).index(s)
                parent.insert(i + 1, paragraph(root, op[2]))
                parent.insert(i, paragraph(root, op[2]))
    elif name == 'append':
        body.append(paragraph(root, 'comment'))
        body.append(paragraph(root, 'lang' if doc in ('_characters',) else 'quote'))
    elif name == 'headings':
        for h in body.iter(q('text:h')):
            h.text = 'New ' + (h.text or '')
    elif name == 'title':
        for p in body.findall('text:p', NS):
            if p.get(q('text:style-name')) in ('Title', 'Subtitle'):
                p.text = 'New title'
    elif name == 'rename':
        parent, p, i = para_at(root, doc, op[1], 0)
        if p is not None and (doc != '_scenes' or i == content(root, doc, op[1])[1]):
            a = E('office:annotation')
            a.append(E('dc:creator', 'x'))
            a.append(E('text:p', '~ New & title ~'))
            a.tail, p.text = p.text, None
            p.insert(0, a)


def parent_of(body, e):
    for parent in body.iter():
        if e in list(parent):
            return parent
    return None


# -- the independent view of the document
def find_blocks(blocks, doc):
    """Return {name: blocks} of the texts in a document."""
    out = {}
    if doc == '_proof':
        cur = None
        for b in blocks:
            t = odf.plain(b[2]) if b[0] == 'p' else odf.plain(b[1]) if b[0] == 'li' else ''
            m = re.fullmatch(r'\[ScID:(\d+)\]', t)
            if m:
                cur = out.setdefault('ScID:' + m.group(1), [])
            elif t == '[/ScID]':
                cur = None
            elif cur is not None:
                cur.append(b)
        return out
    for b in blocks:
        if b[0] == 'sec':
            out[b[1]] = [x for x in b[2] if not (x[0] == 'h' and (x[1] < 3 or x[1] == 3 and doc in FORMATTED))]
            out.update(find_blocks(b[2], doc))
    return out


def text_of(b):
    return odf.plain(b[1] if b[0] == 'li' else b[2])


def listed(blocks):
    """List items are shown with a bullet; subheadings are just paragraphs."""
    return [('p', '', [('t', '- ', frozenset())] + b[1]) if b[0] == 'li' else ('p', '', b[2]) if b[0] == 'h' else b for b in blocks]


def units(model):
    """Notes as comments."""
    return [(k, [('comment', {('footnote', '#'): '@fn ', ('endnote', '#'): '@en '}[u[1:3]] + u[3]) if u[0] == 'note' else u for u in us])
            for k, us in model]


FIELD = {'ScID': ('SCENES', 'Desc'), 'ChID': ('CHAPTERS', 'Desc'), 'CrID_desc': ('CHARACTERS', 'Desc'), 'CrID_bio': ('CHARACTERS', 'Bio'),
         'CrID_goals': ('CHARACTERS', 'Goals'), 'CrID_notes': ('CHARACTERS', 'Notes'), 'LcID': ('LOCATIONS', 'Desc'), 'ItID': ('ITEMS', 'Desc')}


def element_of(info, name):
    prefix, i = name.split(':')
    part = FIELD[prefix][0]
    if part == 'SCENES':
        return info['SCENES'][i]
    return [e for e in info[part] if e['ID'] == i][0]


def split_title(blocks):
    """Take the title comment out of the text."""
    title = None
    out = []
    for b in blocks:
        if b[0] == 'p' and any(a[0] == 'c' and '~' in a[1] for a in b[2]):
            title = [a[1] for a in b[2] if a[0] == 'c' and '~' in a[1]][0].strip('~ ')
            b = (b[0], b[1], [a for a in b[2] if not (a[0] == 'c' and '~' in a[1])])
        out.append(b)
    return title, out


def case(c, ctx):
    doc, batch = c
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(project(doc), path)
        sut.rewrite(path)
        origin = open(path, 'rb').read()
        before = prj.canonical(path)
        target = sut.export(path, doc)
        exported = open(target, 'rb').read()
        for seq in batch:
            with open(target, 'wb') as f:
                f.write(exported)
            with open(path, 'wb') as f:
                f.write(origin)

            def edit(root):
                for op in seq:
                    apply(root, doc, op)

            editor.edit(target, target, edit)
            blocks = odf.Odf(target).blocks()
            texts = find_blocks(blocks, doc)
            r = sut.imp(target)
            ctx.step()
            ctx.trace()
            ctx.expect(not r.ui.warnings, f'warning{doc}', f'{seq}: {r}')
            check(doc, seq, before, texts, path, ctx)
        ctx.sample([doc, batch[-1]])


def check(doc, seq, before, texts, path, ctx):
    expected, actual = copy.deepcopy(before), prj.canonical(path)
    for name, shown in texts.items():
        if name not in targets(doc) and not (doc == '_characters' and name.startswith('CrID_')):
            continue
        e, a = element_of(expected, name), element_of(actual, name)
        title, shown = split_title(shown) if doc in ('_manuscript', '_scenes') else (None, shown)
        if title:
            e['Title'] = title
        if doc in FORMATTED:
            want = units(markup.doc_model(listed(shown), marks=doc == '_proof'))
            have = markup.text_model(a.get('SceneContent') or '')
            ctx.key((doc, repr(have)))
            if want != have:
                ctx.violation(f'text{doc}', f'{seq}: {name} shows {markup.show(want)} and is imported as {markup.show(have)} ({a.get("SceneContent")!r})')
            e['SceneContent'] = a['SceneContent'] = None
        else:
            field = FIELD[name.split(':')[0]][1]
            want = [' '.join(x.split()) for x in lines('\n'.join(text_of(b) for b in shown if b[0] in ('p', 'h', 'li')))]
            have = [' '.join(x.split()) for x in lines(a.get(field))]
            ctx.key((doc, name, have))
            if want != have:
                ctx.violation(f'text{doc}', f'{seq}: {name} shows {want} and is imported as {have}')
            e[field] = a[field] = None
    for info in (expected, actual):
        for part in ('CHARACTERS', 'LOCATIONS', 'ITEMS', 'CHAPTERS'):
            for x in info.get(part, []):
                norm(x)
        if doc in FORMATTED:
            # New languages are registered; see the language property.
            for k in list(info):
                if k == 'PROJECTVARS':
                    info[k] = {n: x for n, x in info[k].items() if 'lang=' not in n}
    d = prj.diff(expected, actual)
    if d:
        ctx.violation(f'other{doc}', f'{seq}: ' + '; '.join(d[:5]))
