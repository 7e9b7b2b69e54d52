"""C22: what a project file says does not depend on how it is stored."""
import itertools
import os
import re
import xml.etree.ElementTree as ET

from mc import prj, proj, sut

ID = 'C22'
TITLE = 'Reading a project does not depend on how the XML file is stored'
LEVEL = 'exploration'
RULE = ('One evaluation is one stored form of one project file: every set of at most n structural transformations (order of elements and of '
        'sections, comments, processing instructions, attributes, white space, empty elements) times every way to write texts (CDATA, entities, '
        'character references), encoding (also as yWriter for iOS declares it), XML header, line ends, and control characters. The opened project, the saved '
        'and reopened project, and the information in the saved file must be those of the plain file. Distinct: by the bytes of the file.')
ASSUMPTIONS = ['The file is well-formed XML, apart from the wrong encoding declaration and the control characters that some yWriter versions write.',
               'Elements that hold texts have no attributes.']
STRUCT = ('fields', 'sections', 'comments', 'attributes', 'empty', 'indent', 'oneline')
TEXT = ('cdata', 'escaped', 'charref', 'mixed')
ENC = ('utf-8', 'utf-8-sig', 'utf-16-ios', 'utf-16', 'utf-16-be', 'iso-8859-1', 'us-ascii')
HEAD = ('plain', 'standalone', 'single', 'none')
NEWLINE = ('\n', '\r\n')
CONTROL = (False, True)
NAMES = ('P.YW7', 'p.Yw7', 'a b & \u00fc.yw7', '.yw7', 'p.yw7.yw7', 'sub.dir/p', 'x.yw7/p.yw7', 'p_manuscript.yw7', '%41.yw7')
BOUNDS = {'quick': 'n=1 with all forms, n=2 with one text form and header each', 'thorough': 'n=7 (all sets), all forms, three projects'}


def cases(tier):
    for name in NAMES:
        yield ['rich', 'name', name]
    for encoding in ENC:
        for text in TEXT:
            for head in HEAD:
                if tier == 'quick':
                    yield ['rich', 1, encoding, text, head]
                    if head == 'plain' and text in ('cdata', 'escaped'):
                        yield ['rich', 2, encoding, text, head]
                else:
                    for p in ('rich', 'scenes', 'plain'):
                        yield [p, 7, encoding, text, head]


def project(name):
    p = proj.plain() if name == 'plain' else proj.rich()
    if name == 'scenes':
        for i, x in enumerate((dict(datetime='2021-03-04 05:06:07'), dict(day='3', hour='4', minute='5'), dict(lastsdays='1', lastshours='2', lastsminutes='3')), 1):
            if str(i) in p['scenes']:
                p['scenes'][str(i)].update(x)
    return p


def transform(root, names):
    for e in list(root.iter()):
        if 'fields' in names and len(e) and e.tag in ('SCENE', 'CHAPTER', 'LOCATION', 'ITEM', 'CHARACTER', 'PROJECT', 'PROJECTNOTE', 'PROJECTVAR', 'Fields'):
            e[:] = reversed(list(e))
        if 'attributes' in names and len(e):
            e.set('note', 'a & "b"')
        if 'empty' in names:
            # Empty elements say the same as missing ones.
            for tag in {'SCENE': ('Notes', 'Goal', 'Conflict', 'Outcome', 'ImageFile', 'Desc', 'Characters', 'Locations', 'Items', 'Fields'),
                        'CHAPTER': ('Desc', 'Fields'), 'CHARACTER': ('Bio', 'Notes', 'Goals', 'AKA', 'Desc', 'ImageFile', 'FullName'),
                        'LOCATION': ('AKA', 'Desc', 'ImageFile'), 'ITEM': ('AKA', 'Desc'), 'PROJECT': ('Desc', 'AuthorName', 'Bio'),
                        'PROJECTNOTE': ('Desc',)}.get(e.tag, ()):
                if e.find(tag) is None:
                    ET.SubElement(e, tag)
    if 'sections' in names:
        root[:] = reversed(list(root))


def text_form(t, how, ascii_only):
    if how == 'charref':
        return ''.join(c if c.isalnum() and ord(c) < 128 or c in ' \n' else f'&#{ord(c)};' for c in t)
    out = t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if how == 'cdata' and t and (not ascii_only or t.isascii()):
        return '<![CDATA[' + t.replace(']]>', ']]]]><![CDATA[>') + ']]>'
    if how == 'mixed' and len(t) > 1 and (not ascii_only or t.isascii()):
        k = len(t) // 2
        return text_form(t[:k], 'escaped', ascii_only) + '<![CDATA[' + t[k:].replace(']]>', ']]]]><![CDATA[>') + ']]>'
    if ascii_only:
        out = ''.join(c if ord(c) < 128 else f'&#x{ord(c):X};' for c in out)
    return out


def serialize(e, names, how, ascii_only, level=0):
    attr = ''.join(f" {k}='{v.replace('&', '&amp;')}'" for k, v in e.attrib.items())
    pad = '\t' * (level + 1) if 'indent' in names else ''
    nl = '' if 'oneline' in names else '\n'
    if len(e):
        extra = '<!-- a <comment> & -- more --->'.replace('-- more -', 'more ') + '<?pi x="1"?>' if 'comments' in names else ''
        inner = ''.join(f'{nl}{pad}{extra}{serialize(c, names, how, ascii_only, level + 1)}' for c in e)
        return f'<{e.tag}{attr}>{inner}{nl}{pad[1:]}</{e.tag}>'
    t = e.text or ''
    if not t.strip() and e.tag not in ('Title',):
        return f'<{e.tag}{attr}/>' if 'empty' in names else f'<{e.tag}{attr}></{e.tag}>'
    body = text_form(t, how, ascii_only)
    if 'comments' in names and how != 'cdata':
        body += '<!--x-->'
    return f'<{e.tag}{attr}>{body}</{e.tag}>'


def stored(root, names, encoding, how, head, newline, control):
    declared = {'utf-16-ios': 'utf-8', 'utf-8-sig': 'utf-8', 'utf-16-be': 'utf-16'}.get(encoding, encoding)
    x = {'plain': f'<?xml version="1.0" encoding="{declared}"?>\n', 'standalone': f'<?xml version="1.0" encoding="{declared.upper()}" standalone="yes"?>\n',
         'single': f"<?xml version='1.0' encoding='{declared}' ?>\n", 'none': ''}[head]
    x += serialize(root, names, how, encoding in ('iso-8859-1', 'us-ascii')) + '\n'
    if control:
        k = x.index('<Title>') + 7
        if x[k:].startswith('<![CDATA['):
            k += 9
        x = x[:k] + '\x00\x01\x08\x0b\x0c\x0e\x1f' + x[k:]
    x = x.replace('\n', newline)
    if encoding == 'utf-16-ios':
        return x.encode('utf-16')
    if encoding == 'utf-16-be':
        return b'\xfe\xff' + x.encode('utf-16-be')
    return x.encode(encoding)


def case(c, ctx):
    if c[1] == 'name':
        named(c, ctx)
        return
    name, n, encoding, how, head = c
    with sut.Work() as w:
        path = w.path('p.yw7')
        p = project(name)
        prj.save(p, path)
        f = sut.read(path)
        view = sut.view(f.novel)
        f.write()
        info = prj.canonical(path), bare(path)
        plain = prj.build(p)
        for r in range(n + 1):
            for names in itertools.combinations(STRUCT, r):
                if 'indent' in names and 'oneline' in names:
                    continue
                root = ET.fromstring(plain)
                transform(root, names)
                for newline in NEWLINE:
                    for control in CONTROL:
                        if control and encoding in ('utf-8-sig', 'utf-16-be', 'iso-8859-1'):
                            continue
                        if r > 1 and n < 7 and (control or newline != '\n'):
                            continue
                        if head == 'none' and encoding not in ('utf-8', 'utf-8-sig', 'utf-16', 'utf-16-be', 'us-ascii'):
                            continue
                        data = stored(root, names, encoding, how, head, newline, control)
                        one(ctx, path, data, view, info, 'attributes' in names, [*c, names, newline, control])


def named(c, ctx):
    """The name of the file does not matter."""
    name = c[2]
    p = project('rich')
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(p, path)
        view = sut.view(sut.read(path).novel)
        other = w.path(name if name.lower().endswith('.yw7') else name + '.yw7')
        os.makedirs(os.path.dirname(other), exist_ok=True)
        os.rename(path, other)
        with open(other, 'rb') as h:
            data = h.read()
        one(ctx, other, data, view, (prj.canonical(other), bare(other)), False, c, exact=False)
        left = sorted(os.path.relpath(os.path.join(d, n), w.dir) for d, __, ns in os.walk(w.dir) for n in ns if not n.endswith('.bak'))
        ctx.same([os.path.relpath(other, w.dir)], left, 'place', c)


def bare(path):
    """Return the information set without attributes."""
    root = ET.parse(path).getroot()
    for e in root.iter():
        e.attrib.clear()
    return prj.canon(prj.parse(ET.tostring(root)))


def one(ctx, path, data, view, info, attributes, what, exact=True):
    with open(path, 'wb') as h:
        h.write(data)
    ctx.evaluated()
    ctx.key(data)
    ctx.sample(what)
    try:
        f = sut.read(path)
    except sut.Error as ex:
        ctx.violation('refused', f'{what}: {ex}')
        return
    d = prj.diff(view, sut.view(f.novel))
    if not ctx.expect(not d, 'read', f'{what}: {d[:4]}'):
        return
    f.write()
    with open(path, 'rb') as h:
        saved = h.read()
    ctx.expect(re.match(rb'<\?xml version="1.0" encoding="utf-8"\?>', saved), 'header', f'{what}: {saved[:60]}')
    if exact:
        d = prj.diff(info[attributes], bare(path) if attributes else prj.canonical(path))
        ctx.expect(not d, 'saved', f'{what}: {d[:4]}')
    d = prj.diff(view, sut.view(sut.read(path).novel))
    ctx.expect(not d, 'reopened', f'{what}: {d[:4]}')
