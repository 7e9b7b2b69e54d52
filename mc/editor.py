"""Rewrites an OpenDocument text the way an office program may store it, without changing what it says.

Every transformation takes the content tree and changes its encoding only.
Compositions are explored by the checks.
"""
import copy
import re
import xml.etree.ElementTree as ET
import zipfile

from mc.odf import NS, q

PREFIXES = {
    'draw': 'urn:oasis:names:tc:opendocument:xmlns:drawing:1.0', 'number': 'urn:oasis:names:tc:opendocument:xmlns:datastyle:1.0',
    'svg': 'urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0', 'loext': 'urn:org:documentfoundation:names:experimental:office:xmlns:loext:1.0',
}
PREFIXES.update(NS)
for _p, _u in PREFIXES.items():
    ET.register_namespace(_p, _u)

INLINE = {q('text:p'), q('text:h'), q('text:span'), q('text:a')}


def E(name, text=None, **attrs):
    e = ET.Element(q(name), {q(k.replace('__', ':').replace('_', '-')): v for k, v in attrs.items()})
    e.text = text
    return e


def body_paragraphs(root):
    """Yield the paragraphs whose text may be encoded differently (all but marks)."""
    body = root.find('office:body', NS)
    skip = set()
    for tag in ('office:annotation', 'text:tracked-changes'):
        for a in body.iter(q(tag)):
            skip |= set(a.iter())
    for p in body.iter(q('text:p')):
        if p in skip or re.fullmatch(r'\[/?ScID.*\]', ''.join(p.itertext())):
            continue
        yield p


def recode(e, f):
    """Replace every text run t below e by the nodes f(t), a list of strings and elements."""
    if e.tag not in INLINE:
        return

    def put(nodes, index):
        """Insert nodes at a position; return the leading string and the number of elements."""
        lead, last, n = '', None, 0
        for node in nodes:
            if isinstance(node, str):
                if last is None:
                    lead += node
                else:
                    last.tail = (last.tail or '') + node
            else:
                node.tail = None
                e.insert(index + n, node)
                n += 1
                last = node
        return lead, n

    children = list(e)
    for c in children:
        recode(c, f)
    text, e.text = e.text, None
    lead, n = put(f(text), 0) if text else (text, 0)
    e.text = lead
    for c in children:
        if c.tail:
            tail, c.tail = c.tail, None
            i = list(e).index(c) + 1
            lead, __ = put(f(tail), i)
            c.tail = lead


def _auto(root):
    return root.find('office:automatic-styles', NS)


def spans(root):
    """Direct formatting without meaning: one span per character."""
    s = E('style:style', style__name='T900', style__family='text')
    ET.SubElement(s, q('style:text-properties'), {'{%s}rsid' % 'urn:x': '1'})
    _auto(root).append(s)
    for p in body_paragraphs(root):
        recode(p, lambda t: [E('text:span', ch, text__style_name='T900') for ch in t])


def bookmarks(root):
    names = ('text:bookmark', 'text:bookmark-start', 'text:soft-page-break', 'text:bookmark-end', 'text:reference-mark')

    def f(t):
        out = []
        for n, ch in enumerate(t):
            out += [E(names[n % len(names)]), ch]
        return out + [E('text:bookmark')]

    for p in body_paragraphs(root):
        recode(p, f)


def links(root):
    def f(t):
        return [E('text:a', w, xlink__href='http://x', text__style_name='Internet_20_link') if w.strip() else w
                for w in re.split(r'( +)', t)]

    for p in body_paragraphs(root):
        recode(p, f)


def split_spans(root):
    """One formatted span per character."""
    for p in body_paragraphs(root):
        _split(p)


def _split(e):
    for c in list(e):
        if c.tag == q('text:span') and not len(c) and c.text and len(c.text) > 1:
            i = list(e).index(c)
            tail = c.tail
            e.remove(c)
            for n, ch in enumerate(c.text):
                x = E('text:span', ch, text__style_name=c.get(q('text:style-name')))
                e.insert(i + n, x)
            x.tail = tail
        else:
            _split(c)


def auto_styles(root):
    """Direct formatting instead of character styles; nested formats become one style."""
    props = {'T901': {'fo__font_style': 'italic'}, 'T902': {'fo__font_weight': 'bold'},
             'T903': {'fo__font_style': 'italic', 'fo__font_weight': 'bold'}}
    for n, a in props.items():
        s = E('style:style', style__name=n, style__family='text')
        s.append(E('style:text-properties', **a))
        _auto(root).append(s)
    names = {'Emphasis': 'T901', 'Strong_20_Emphasis': 'T902'}
    for p in body_paragraphs(root):
        for s in p.iter(q('text:span')):
            n = s.get(q('text:style-name'))
            if n in names:
                if len(s) == 1 and not s.text and s[0].tag == q('text:span') and not s[0].tail \
                        and {n, s[0].get(q('text:style-name'))} == set(names):
                    inner = s[0]
                    s.remove(inner)
                    s.text = inner.text
                    s.extend(list(inner))
                    s.set(q('text:style-name'), 'T903')
                else:
                    s.set(q('text:style-name'), names[n])


def swap(root):
    """Exchange directly nested spans."""
    for p in body_paragraphs(root):
        for s in p.iter(q('text:span')):
            if len(s) == 1 and not s.text and s[0].tag == q('text:span') and not s[0].tail:
                a, b = s.get(q('text:style-name')), s[0].get(q('text:style-name'))
                s.set(q('text:style-name'), b)
                s[0].set(q('text:style-name'), a)


def _derived(root, name):
    """Return the common style an automatic paragraph style is derived from, and its text properties."""
    for s in _auto(root).iter(q('style:style')):
        if s.get(q('style:name')) == name and s.get(q('style:family')) == 'paragraph':
            text = {}
            for t in s.iter(q('style:text-properties')):
                text.update(t.attrib)
            return s.get(q('style:parent-style-name')), text
    return name, {}


def para_styles(root):
    """Automatic paragraph styles derived from the named ones."""
    names = {}
    for p in body_paragraphs(root):
        n = p.get(q('text:style-name'))
        if n not in names:
            names[n] = f'P{900 + len(names)}'
            parent, text = _derived(root, n)
            s = E('style:style', style__name=names[n], style__family='paragraph', style__parent_style_name=parent)
            s.append(E('style:paragraph-properties', fo__break_before='auto'))
            text[q('fo:color')] = '#000000'
            s.append(E('style:text-properties'))
            s[-1].attrib.update(text)
            _auto(root).append(s)
        p.set(q('text:style-name'), names[n])


def comments(root):
    """Annotations with everything an office program adds."""
    body = root.find('office:body', NS)
    for n, a in enumerate(body.iter(q('office:annotation'))):
        a.set(q('office:name'), f'__Annotation__{n}')
        i = 1 if len(a) and a[0].tag == q('dc:creator') else 0
        a.insert(i, E('dc:date', '2021-03-04T05:06:07.000000000'))
        a.insert(i + 1, E('meta:creator-initials', 'XY'))
        for p in a.findall('text:p', NS):
            p.set(q('text:style-name'), 'P9')
            s = E('text:span', p.text, text__style_name='T999')
            p.text = None
            p.insert(0, s)


def comment_ranges(root):
    """Comments attached to a text range."""
    body = root.find('office:body', NS)
    for parent in list(body.iter()):
        for n, a in enumerate(list(parent)):
            if a.tag == q('office:annotation'):
                end = E('office:annotation-end', office__name=f'__Annotation__{n}')
                i = list(parent).index(a)
                parent.insert(i + 1, end)
                end.tail, a.tail = a.tail, None


def space_elements(root):
    """Encode every blank as an element."""
    def f(t):
        out = []
        for part in re.split(r'( )', t):
            out.append(E('text:s') if part == ' ' else part)
        return out

    for p in body_paragraphs(root):
        recode(p, f)


def indent(root):
    """White space between the blocks."""
    body = root.find('office:body', NS)

    def walk(e, depth):
        if e.tag in (q('office:text'), q('text:section'), q('text:list'), q('text:list-item'), q('office:body')):
            e.text = '\n' + '\t ' * depth
            for c in e:
                c.tail = '\n\n' + '\t ' * depth
                walk(c, depth + 1)

    walk(body, 1)


def compact(root):
    """No white space between the blocks."""
    body = root.find('office:body', NS)

    def walk(e):
        if e.tag in (q('office:text'), q('text:section'), q('text:list'), q('text:list-item'), q('office:body')):
            e.text = None
            for c in e:
                c.tail = None
                walk(c)

    walk(body)


def declarations(root):
    """Declarations office programs write at the beginning of the text."""
    t = root.find('office:body', NS).find('office:text', NS)
    d = E('text:sequence-decls')
    for n in ('Illustration', 'Table', 'Text', 'Drawing'):
        d.append(E('text:sequence-decl', text__display_outline_level='0', text__name=n))
    t.insert(0, d)
    t.insert(0, E('office:forms'))


def attributes(root):
    """Additional attributes."""
    body = root.find('office:body', NS)
    for s in body.iter(q('text:section')):
        s.set(q('text:protected'), 'false')
    for h in body.iter(q('text:h')):
        h.set(q('text:is-list-header'), 'true')
    for p in body.iter(q('text:p')):
        p.set('{http://www.w3.org/XML/1998/namespace}id', 'list1')


def no_country(root):
    """Languages without a country attribute."""
    for e in root.iter(q('style:text-properties')):
        if e.get(q('fo:country')) == 'none':
            del e.attrib[q('fo:country')]


def para_language(root):
    """The language of an entire paragraph as a property of the paragraph."""
    n = 0
    languages = {s.get(q('style:name')): dict(t.attrib) for s in _auto(root).iter(q('style:style'))
                 for t in s.iter(q('style:text-properties')) if t.get(q('fo:language'))}
    for p in list(body_paragraphs(root)):
        if len(p) == 1 and not (p.text or '').strip() and not (p[0].tail or '').strip() and p[0].get(q('text:style-name')) in languages:
            name = f'P95{n}'
            n += 1
            parent, text = _derived(root, p.get(q('text:style-name')))
            s = E('style:style', style__name=name, style__family='paragraph', style__parent_style_name=parent)
            t = E('style:text-properties')
            t.attrib.update(text)
            t.attrib.update(languages[p[0].get(q('text:style-name'))])
            s.append(t)
            _auto(root).append(s)
            p.set(q('text:style-name'), name)
            inner = p[0]
            p.remove(inner)
            p.text = inner.text
            p.extend(list(inner))


def tracked(root):
    """Recorded changes: deleted paragraphs, headings, and marks; inserted text."""
    changes = E('text:tracked-changes')
    for n, texts in enumerate((['deleted text'], None, ['[/ScID]', ' ', 'more'], ['Head', ''])):
        region = E('text:changed-region', text__id=f'ct{n}')
        kind = E('text:insertion' if texts is None else 'text:deletion')
        info = E('office:change-info')
        info.append(E('dc:creator', 'Some one'))
        info.append(E('dc:date', '2023-01-01T00:00:00'))
        info.append(E('text:p', 'a reason'))
        kind.append(info)
        for k, t in enumerate(texts or ()):
            if n == 3 and not k:
                for level in (1, 2, 3):
                    kind.append(E('text:h', t, text__outline_level=str(level), text__style_name=f'Heading_20_{level}' if level < 3 else 'P3'))
                continue
            kind.append(E('text:p', t, text__style_name='Quotations' if k else 'Text_20_body'))
        region.append(kind)
        changes.append(region)
    root.find('office:body', NS).find('office:text', NS).insert(0, changes)

    def f(t):
        out = []
        for n, part in enumerate(re.split('( +)', t)):
            if n % 4 == 2:
                out.append(E('text:change', text__change_id='ct0'))
            elif n % 4 == 0:
                out += [E('text:change-start', text__change_id='ct1'), part, E('text:change-end', text__change_id='ct1')]
                continue
            out.append(part)
        return out

    for p in body_paragraphs(root):
        recode(p, f)


def sections(root):
    """Sections of the user, such as columns, around some of the paragraphs."""
    text = root.find('office:body', NS).find('office:text', NS)
    able = set(body_paragraphs(root))
    n = 0
    for box in [text] + list(text.iter(q('text:section'))):
        for k, e in enumerate(list(box)):
            if (e in able or e.tag in (q('text:h'), q('text:list'))) and k % 3 != 2:
                n += 1
                at = list(box).index(e)
                s = E('text:section', text__style_name='Sect1', text__name=f'Section{n}' if n % 2 else f'Bereich {n}: x')
                s.tail, e.tail = e.tail, None
                box.remove(e)
                s.append(e)
                if k % 2:
                    inner, s = s, E('text:section', text__style_name='Sect1', text__name=f'Two columns {n}')
                    s.tail, inner.tail = inner.tail, None
                    s.append(inner)
                box.insert(at, s)


TRANSFORMS = {f.__name__: f for f in (spans, bookmarks, links, split_spans, auto_styles, swap, para_styles, comments, comment_ranges,
                                      space_elements, indent, compact, declarations, attributes,
                                      no_country, para_language, tracked, sections)}


def _serialize(root, charref):
    data = ET.tostring(root, encoding='unicode')
    if charref:
        # Every letter of the text as a character reference.
        data = re.sub(r'>([^<]+)<', lambda m: '>' + re.sub(r'(&[^;]*;)|([A-Za-z])',
                                                           lambda x: x.group(1) or f'&#{ord(x.group(2))};', m.group(1)) + '<', data)
    return '<?xml version="1.0" encoding="UTF-8"?>\n' + data


def rewrite(source, target, transforms=(), charref=False, pad=0, encoding='utf-8', stored=False, reverse=False, extra=False, missing=()):
    """Write a differently encoded copy of a document."""
    with zipfile.ZipFile(source) as z:
        files = {n: z.read(n) for n in z.namelist() if not n.endswith('/')}
    root = ET.fromstring(files['content.xml'])
    for t in transforms:
        TRANSFORMS[t](root)
    data = _serialize(root, charref)
    if pad:
        data = data.replace('<office:body>', '<office:body><!--' + 'x' * pad + '-->', 1)
    if encoding != 'utf-8':
        data = data.replace('encoding="UTF-8"', f'encoding="{encoding}"')
    files['content.xml'] = data.encode(encoding)
    for n in missing:
        files.pop(n, None)
    names = list(files)
    if extra:
        files['Thumbnails/thumbnail.png'] = b'\x89PNG'
        files['Configurations2/accelerator/current.xml'] = b''
        names = list(files)
    if reverse:
        names.reverse()
    with zipfile.ZipFile(target, 'w', compression=zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED) as z:
        for n in names:
            z.writestr(n, files[n])


def edit(source, target, f):
    """Write a copy of a document whose content tree was changed by f(root)."""
    with zipfile.ZipFile(source) as z:
        files = {n: z.read(n) for n in z.namelist() if not n.endswith('/')}
    root = ET.fromstring(files['content.xml'])
    f(root)
    files['content.xml'] = _serialize(root, False).encode('utf-8')
    with zipfile.ZipFile(target, 'w', compression=zipfile.ZIP_DEFLATED) as z:
        for n, d in files.items():
            z.writestr(n, d)
