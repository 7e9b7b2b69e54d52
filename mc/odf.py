"""Independent view of OpenDocument files.

``Odf(path)`` reads a package with the standard ZIP and XML modules and offers
the document as plain Python structures.  Nothing here imports the code under
test.

Text documents are lists of blocks:
    ('sec', name, [blocks])         a section
    ('h', level, inline)            a heading
    ('p', kind, inline)             a paragraph; kind is its paragraph style
                                    (resolved to the parent style if automatic)
    ('li', inline)                  a paragraph of a list item

Inline content is a list of atoms:
    ('t', text, attributes)         text; attributes is a frozenset of 'i', 'b', ('lang', tag)
    ('c', text)                     a comment; paragraphs joined by newlines
    ('n', class, label, text)       a footnote or endnote
Adjacent text atoms with equal attributes are joined; link texts are plain text.
"""
import xml.etree.ElementTree as ET
import zipfile

NS = {
    'office': 'urn:oasis:names:tc:opendocument:xmlns:office:1.0',
    'style': 'urn:oasis:names:tc:opendocument:xmlns:style:1.0',
    'text': 'urn:oasis:names:tc:opendocument:xmlns:text:1.0',
    'table': 'urn:oasis:names:tc:opendocument:xmlns:table:1.0',
    'fo': 'urn:oasis:names:tc:opendocument:xmlns:xsl-fo-compatible:1.0',
    'xlink': 'http://www.w3.org/1999/xlink',
    'dc': 'http://purl.org/dc/elements/1.1/',
    'meta': 'urn:oasis:names:tc:opendocument:xmlns:meta:1.0',
    'draw': 'urn:oasis:names:tc:opendocument:xmlns:drawing:1.0', 'svg': 'urn:oasis:names:tc:opendocument:xmlns:svg-compatible:1.0',
    'manifest': 'urn:oasis:names:tc:opendocument:xmlns:manifest:1.0',
}


def q(name):
    p, n = name.split(':')
    return f'{{{NS[p]}}}{n}'


class OdfError(Exception):
    """The package is not a complete, well-formed OpenDocument file."""


MIME = {
    '.odt': 'application/vnd.oasis.opendocument.text',
    '.ods': 'application/vnd.oasis.opendocument.spreadsheet',
}
MEMBERS = ('mimetype', 'content.xml', 'styles.xml', 'meta.xml', 'settings.xml', 'META-INF/manifest.xml')


class Odf:

    def __init__(self, path):
        self.path = path
        ext = path[path.rindex('.'):]
        try:
            with zipfile.ZipFile(path) as z:
                bad = z.testzip()
                if bad:
                    raise OdfError(f'{bad} is damaged')
                names = [n for n in z.namelist() if not n.endswith('/')]
                self.files = {n: z.read(n) for n in names}
        except (zipfile.BadZipFile, OSError) as ex:
            raise OdfError(f'no ZIP file: {ex!r}')
        self.names = names
        if len(set(names)) != len(names):
            raise OdfError(f'duplicate members: {names}')
        for n in MEMBERS:
            if n not in self.files:
                raise OdfError(f'{n} is missing')
        if self.files['mimetype'].decode() != MIME[ext]:
            raise OdfError(f'mimetype is {self.files["mimetype"]!r}')
        self.trees = {}
        for n in names:
            if n.endswith('.xml') or n.endswith('.rdf'):
                try:
                    self.trees[n] = ET.fromstring(self.files[n])
                except ET.ParseError as ex:
                    raise OdfError(f'{n} is not well-formed: {ex}')
        listed = {e.get(q('manifest:full-path')): e.get(q('manifest:media-type'))
                  for e in self.trees['META-INF/manifest.xml'].iter(q('manifest:file-entry'))}
        if listed.get('/') != MIME[ext]:
            raise OdfError(f'the manifest declares {listed.get("/")!r}')
        for n in names:
            if n not in listed and n not in ('mimetype', 'META-INF/manifest.xml'):
                raise OdfError(f'{n} is not in the manifest')
        for n in listed:
            if n != '/' and not n.endswith('/') and n not in self.files:
                raise OdfError(f'the manifest lists {n}, which is missing')
        self.content = self.trees['content.xml']
        self._styles()

    # -- metadata
    def meta(self):
        m = self.trees['meta.xml'].find('office:meta', NS)

        def get(n):
            e = m.find(n, NS)
            return (e.text or '') if e is not None else ''

        return {'title': get('dc:title'), 'author': get('meta:initial-creator'), 'creator': get('dc:creator'),
                'desc': get('dc:description')}

    def locale(self):
        for s in self.trees['styles.xml'].iter(q('style:default-style')):
            if s.get(q('style:family')) == 'paragraph':
                t = s.find('style:text-properties', NS)
                return t.get(q('fo:language')), t.get(q('fo:country'))
        return None

    # -- styles
    def _styles(self):
        self.style = {}
        for part in ('styles.xml', 'content.xml'):
            for s in self.trees[part].iter(q('style:style')):
                name = s.get(q('style:name'))
                attrs = set()
                t = s.find('style:text-properties', NS)
                family = s.get(q('style:family'))
                if t is not None and (family == 'text' or family == 'paragraph' and part == 'content.xml'):
                    if t.get(q('fo:font-style')) == 'italic':
                        attrs.add('i')
                    if t.get(q('fo:font-weight')) == 'bold':
                        attrs.add('b')
                    lng = t.get(q('fo:language'))
                    if lng:
                        ctr = t.get(q('fo:country'))
                        attrs.add(('lang', lng if ctr in (None, 'none', '') else f'{lng}-{ctr}'))
                self.style[(s.get(q('style:family')), name)] = (attrs, s.get(q('style:parent-style-name')),
                                                                part == 'content.xml')

    def span_attrs(self, name):
        if name == 'Emphasis':
            return {'i'}
        if name == 'Strong_20_Emphasis':
            return {'b'}
        a, parent, __ = self.style.get(('text', name), (set(), None, False))
        return set(a)

    def para_kind(self, name):
        while True:
            s = self.style.get(('paragraph', name))
            if s is None or not s[2] or not s[1]:
                return name
            name = s[1]

    # -- body
    def blocks(self):
        body = self.content.find('office:body', NS).find('office:text', NS)
        return self._blocks(body)

    def _blocks(self, parent):
        out = []
        for e in parent:
            if e.tag == q('text:section'):
                out.append(('sec', e.get(q('text:name')), self._blocks(e)))
            elif e.tag == q('text:h'):
                out.append(('h', int(e.get(q('text:outline-level'))), self.inline(e)))
            elif e.tag == q('text:p'):
                kind = self.para_kind(e.get(q('text:style-name')))
                pieces = [[]]
                for a in self.inline(e):
                    if a[0] == 'br':
                        pieces.append([])
                    else:
                        pieces[-1].append(a)
                out += [('p', kind, x) for x in pieces]
            elif e.tag == q('text:list'):
                for item in e:
                    for p in item.iter(q('text:p')):
                        out.append(('li', self.inline(p)))
            elif e.tag in (q('text:sequence-decls'), q('office:forms'), q('text:tracked-changes')):
                pass
            else:
                out.append(('?', e.tag))
            if e.tail and e.tail.strip():
                out.append(('stray', e.tail.strip()))
        return out

    def inline(self, e):
        atoms = []
        a = self.style.get(('paragraph', e.get(q('text:style-name'))))
        self._inline(e, frozenset(a[0] if a and a[2] else ()), atoms)
        joined = []
        for a in atoms:
            if a[0] == 't' and joined and joined[-1][0] == 't' and joined[-1][2] == a[2]:
                joined[-1] = ('t', joined[-1][1] + a[1], a[2])
            else:
                joined.append(a)
        return joined

    def _inline(self, e, attrs, atoms):

        def text(s):
            if s:
                # A line break of the file is a blank of the document.
                atoms.append(('t', s.replace('\n', ' '), attrs))

        text(e.text)
        for c in e:
            if c.tag == q('text:span'):
                a = self.span_attrs(c.get(q('text:style-name')))
                langs = [x for x in a if isinstance(x, tuple)]
                new = set(attrs) | a
                if langs:
                    new = {x for x in new if not isinstance(x, tuple)} | set(langs)
                self._inline(c, frozenset(new), atoms)
            elif c.tag == q('text:a'):
                self._inline(c, attrs, atoms)
            elif c.tag == q('text:s'):
                text(' ' * int(c.get(q('text:c'), 1)))
            elif c.tag in (q('text:tab'), q('text:line-break')):
                text(' ')
            elif c.tag == q('office:annotation'):
                atoms.append(('c', '\n'.join(plain(self.inline(p)) for p in c.findall('text:p', NS)),
                              (c.findtext('dc:creator', '', NS))))
            elif c.tag == q('draw:frame'):
                # Paragraphs of text boxes interrupt the paragraph; images do not matter.
                for b in c.findall('draw:text-box', NS):
                    for p in b.findall('text:p', NS):
                        self._inline(p, attrs, atoms)
                        atoms.append(('br',))
            elif c.tag == q('text:note'):
                citation = c.find('text:note-citation', NS)
                body = c.find('text:note-body', NS)
                atoms.append(('n', c.get(q('text:note-class')), citation.get(q('text:label')),
                              '\n'.join(noted(self.inline(p)) for p in body.findall('text:p', NS)),
                              c.get(q('text:id'))))
            else:
                atoms.append(('?', c.tag))
            text(c.tail)

    def links(self):
        return [e.get(q('xlink:href')) for e in self.content.iter(q('text:a'))]

    # -- spreadsheets
    def formulas(self):
        return [e.get(q('table:formula')) for e in self.content.iter(q('table:table-cell')) if e.get(q('table:formula'))]

    def contradictions(self):
        """Return the cells whose value is not the text shown."""
        out = []
        for c in self.content.iter(q('table:table-cell')):
            shown = '\n'.join(''.join(p.itertext()) for p in c.findall('text:p', NS))
            for a in ('office:value', 'office:string-value'):
                if c.get(q(a), shown) != shown:
                    out.append((a, c.get(q(a)), shown))
        return out

    def rows(self):
        """Return the cell texts; trailing empty cells are dropped."""
        table = self.content.find('office:body', NS).find('office:spreadsheet', NS).find('table:table', NS)
        out = []
        for r in table.iterfind('.//table:table-row', NS):
            cells = []
            for c in r.findall('table:table-cell', NS):
                t = '\n'.join(''.join(p.itertext()).replace('\n', ' ') for p in c.findall('text:p', NS))
                n = int(c.get(q('table:number-columns-repeated'), 1))
                cells += [t] * min(n, 60)
            while cells and cells[-1] == '':
                cells.pop()
            out.append(cells)
        return out


def plain(inline):
    """Return the plain text of inline content."""
    return ''.join(a[1] for a in inline if a[0] == 't')


def noted(inline):
    """Return the plain text of a paragraph of a note; comments inside of it are lines of their own."""
    lines = ['']
    for a in inline:
        if a[0] == 't':
            lines[-1] += a[1]
        elif a[0] == 'c':
            lines += [a[1], '']
    return '\n'.join(s for s in lines if s)


def rezip(path, target, replace, order=None):
    """Write a copy of a package with some members replaced (bytes)."""
    with zipfile.ZipFile(path) as z:
        files = {n: z.read(n) for n in z.namelist()}
    files.update(replace)
    with zipfile.ZipFile(target, 'w') as z:
        for n, d in files.items():
            z.writestr(n, d, compress_type=zipfile.ZIP_STORED if n == 'mimetype' else zipfile.ZIP_DEFLATED)
