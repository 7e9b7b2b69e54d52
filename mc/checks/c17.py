"""C17: damaged or unusual files are read completely or refused with a message; nothing is imported by halves."""
import copy
import io
import os
import re
import xml.etree.ElementTree as ET
import zipfile

from mc import odf, prj, proj, sut
from mc.checks import c15

ID = 'C17'
TITLE = 'Damaged files are refused with a message, or read; never by halves'
LEVEL = 'exploration'
RULE = ('One evaluation is one damaged file, opened, saved, exported, or imported. Project files: every truncation; every '
        'element removed, doubled, or emptied; every text replaced by each of a list of wrong values; every attribute removed. '
        'every byte replaced by another, and by invalid ones in UTF-8 and UTF-16. '
        'Documents of every importable type: every truncation of the package and of its contents, every member removed or emptied, every '
        'element of the contents removed or emptied, every ID of an element replaced by wrong ones, every byte of the package inverted. The project is opened or refused with '
        'the documented exception; a refused conversion changes no file and reports the failure; a successful one leaves a '
        'project that can be opened and saved without change, or a complete document. Distinct: by file, damage, and outcome.')
ASSUMPTIONS = ['What a document with missing parts means is not specified: success and refusal are both right if nothing is left by halves.']
BOUNDS = {'quick': 'single damages; truncations at every 7th byte, inversions at every 11th byte of the documents; one wrong value per element',
          'thorough': 'single damages at every byte; all wrong values; pairs of removed elements of the small project'}
WRONG = ['', 'abc', '-1', '0', '99999999999', '1.5', ' ', '2020-13-45 25:61:61', '1\n2', '&']
DOCS = sut.IMPORTS
EXPORTS = list(sut.EXPORTS)


def small():
    p = c15.project()
    p['scenes']['1'].update(datetime='2020-01-02 03:04:05', lastsdays='1', lastshours='2', lastsminutes='3', arcs='A', mode='2', tags=['t'],
                            items=['1'], locs=['1'], image='i.png', field1='3', notes='n', goal='g')
    p['scenes']['2'].update(day='1', hour='02', minute='03')
    p['notes'] = [{'id': '1', 'title': 'Note', 'desc': 'note'}]
    p['fields'] = {'Field_X': 'x'}
    return p


PARTS = ('chapters', 'characters', 'locations', 'items')
# Damages of single bytes: not UTF-8; half a character of UTF-16; another character.
BYTES = ('invalid', 'half', 'other')


def tree():
    return ET.fromstring(prj.build(small()))


def tostring(root):
    return ET.tostring(root, encoding='utf-8', xml_declaration=True)


def cases(tier):
    step = 1 if tier == 'thorough' else 7
    size = len(prj.build(small()).encode())
    for a in range(0, size, 100 * step):
        yield ['truncate', step, a, min(a + 100 * step, size - 1)]
    for how in BYTES:
        for part in range(8):
            yield ['bytes', how, part, step + 4 if step > 1 else 1]
    n = len(list(tree().iter()))
    values = list(range(len(WRONG)))
    for a in range(n):
        yield ['element', a, values if tier == 'thorough' else [0, 1 + a % (len(WRONG) - 1)]]
    if tier == 'thorough':
        for a in range(n):
            yield ['pairs', a, n]
    for d in DOCS:
        for part in range(8):
            yield ['package', d, part, step]
            yield ['contents', d, part, step]
            yield ['flip', d, part, step + 4 if step > 1 else 1]
        yield ['members', d]
        yield ['ids', d]
    for d in ('wip', 'outline'):
        for part in range(8):
            yield ['contents', d, part, step]
        yield ['members', d]


_docs = {}


def start():
    if not _docs:
        with sut.Work() as w:
            prj.save(small(), w.path('p.yw7'))
            sut.rewrite(w.path('p.yw7'))
            with open(w.path('p.yw7'), 'rb') as f:
                _docs['project'] = f.read()
            _docs['view'] = sut.view(sut.read(w.path('p.yw7')).novel)
            for s in DOCS:
                with open(sut.export(w.path('p.yw7'), s), 'rb') as f:
                    _docs[s] = f.read()
        _docs['wip'], _docs['outline'] = c15.WIP, c15.OUTLINE
    return _docs


def case(c, ctx):
    kind = c[0]
    if kind == 'truncate':
        data = prj.build(small()).encode()
        end = len(data.rstrip())
        for n in range(c[2], c[3], c[1]):
            damaged_project(ctx, data[:n], ('truncate', n), n, must_fail=n < end)
    elif kind == 'bytes':
        text = prj.build(small()).rstrip()
        n = len(text)
        for k in range(c[2] * n // 8, (c[2] + 1) * n // 8, c[3]):
            if c[1] == 'invalid':
                data = text[:k].encode() + b'\xff' + text[k:].encode()
            elif c[1] == 'half':
                data = b'\xff\xfe' + (text[:k] + '\ud801' + text[k:]).encode('utf-16-le', 'surrogatepass')
            else:
                data = bytearray(text.encode())
                data[k] ^= 1
            damaged_project(ctx, bytes(data), (c[1], k), k, must_fail=c[1] != 'other')
    elif kind == 'element':
        element(c, ctx)
    elif kind == 'pairs':
        for b in range(c[1] + 1, c[2]):
            root = tree()
            elems = list(root.iter())
            parents = {ch: p for p in root.iter() for ch in p}
            for e in (elems[c[1]], elems[b]):
                if e in parents and e in list(parents[e]):
                    parents[e].remove(e)
            damaged_project(ctx, tostring(root), ('pair', c[1], b), b, quick=True)
    elif kind == 'package':
        data = start()[c[1]]
        n = len(data)
        for k in range(c[2] * n // 8, (c[2] + 1) * n // 8, c[3]):
            # A ZIP file can do without its last bytes only if they are an empty comment.
            damaged_document(ctx, c[1], data[:k], ('package', c[1], k), must_fail=True)
    elif kind == 'flip':
        data = start()[c[1]]
        n = len(data)
        for k in range(c[2] * n // 8, (c[2] + 1) * n // 8, c[3]):
            damaged_document(ctx, c[1], data[:k] + bytes([data[k] ^ 0xff]) + data[k + 1:], ('flip', c[1], k), same_or_fail=True)
    elif kind == 'ids':
        with zipfile.ZipFile(io.BytesIO(start()[c[1]])) as z:
            data = z.read('content.xml').decode()
        for m in re.finditer(r'(/?[A-Z][a-zA-Z]ID(?:_[a-z]+)?:?)(\d+)', data):
            for new in ('99', '', 'x', '0', ' ', '٣'):
                # Nothing was edited: what a wrong number hides must stay as it is.
                damaged_document(ctx, c[1], repack(c[1], {'content.xml': data[:m.start(2)] + new + data[m.end():]}), ('id', c[1], m.group(), m.start(), new),
                                 same_or_fail=sut.EXPORTS[c[1]] == '.odt')
    elif kind == 'contents':
        contents(c, ctx)
    elif kind == 'members':
        with zipfile.ZipFile(io.BytesIO(start()[c[1]])) as z:
            names = z.namelist()
        for n in names:
            for how in ('remove', 'empty', 'text'):
                new = {'remove': None, 'empty': b'', 'text': b'no XML'}[how]
                damaged_document(ctx, c[1], repack(c[1], {n: new}), ('member', c[1], n, how), must_fail=n == 'content.xml')


def element(c, ctx):
    __, a, values = c
    for how in ['remove', 'double', 'clear', 'attributes'] + values:
        root = tree()
        elems = list(root.iter())
        parents = {ch: p for p in root.iter() for ch in p}
        e = elems[a]
        if how == 'remove' or how == 'double':
            if e not in parents:
                continue
            p = parents[e]
            if how == 'remove':
                p.remove(e)
            else:
                p.insert(list(p).index(e), copy.deepcopy(e))
        elif how == 'clear':
            tail = e.tail
            e.clear()
            e.tail = tail
        elif how == 'attributes':
            if not e.attrib:
                continue
            e.attrib.clear()
        else:
            if len(e):
                continue
            e.text = WRONG[how]
        damaged_project(ctx, tostring(root), (elems[a].tag, a, how if isinstance(how, str) else WRONG[how]), a)


def damaged_project(ctx, data, what, k, must_fail=False, quick=False):
    with sut.Work() as w:
        d = w.path('w')
        os.mkdir(d)
        path = os.path.join(d, 'p.yw7')
        with open(path, 'wb') as f:
            f.write(data)
        ctx.evaluated()
        outcome = []
        try:
            yw = sut.read(path)
        except sut.Error as ex:
            outcome.append('refused')
            ctx.expect(str(ex), 'project-message', what)
        except Exception as ex:
            ctx.violation(f'project-exception-{type(ex).__name__}', f'{what}: {ex!r}')
            return
        else:
            outcome.append('opened')
            if must_fail:
                ctx.violation('project-truncated-opened', what)
        for suffix in ([] if quick else [EXPORTS[k % len(EXPORTS)], EXPORTS[(k // 3 + 7) % len(EXPORTS)]]):
            before = sut.listing(d)
            try:
                r = sut.convert(path, suffix)
            except Exception as ex:
                ctx.violation(f'export-exception-{type(ex).__name__}', f'{what} {suffix!r}: {ex!r}')
                continue
            if not r.ok:
                outcome.append('failed')
                ctx.expect(r.failed, 'export-message', f'{what} {suffix!r} {r}')
                if sut.listing(d) != before:
                    ctx.violation('export-leftover', f'{what} {suffix!r} {r}: {c15.changes(before, sut.listing(d))}')
                if outcome[0] == 'opened':
                    # Everything that can be opened can be exported.
                    ctx.violation('export-failed', f'{what} {suffix!r}: {r}')
            else:
                if outcome[0] == 'refused':
                    ctx.violation('export-of-refused', f'{what} {suffix!r} {r}')
                try:
                    odf.Odf(r.newFile)
                except odf.OdfError as ex:
                    ctx.violation('export-damaged', f'{what} {suffix!r}: {ex}')
                os.remove(r.newFile)
        if outcome[0] == 'opened':
            v = sut.view(yw.novel)
            try:
                yw.write()
            except Exception as ex:
                ctx.violation(f'save-exception-{type(ex).__name__}', f'{what}: {ex!r}')
            else:
                try:
                    v2 = sut.view(sut.read(path).novel)
                except Exception as ex:
                    ctx.violation('saved-not-opened', f'{what}: {ex!r}')
                else:
                    for x in (v, v2):
                        for n in ('languages', 'languageCode', 'countryCode'):
                            x['novel'].pop(n, None)
                    if v != v2:
                        ctx.violation('saved-differs', f'{what}: {prj.diff(v, v2)}')
        ctx.key((what, tuple(outcome)))


def repack(doc, changes):
    out = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(start()[doc])) as z, zipfile.ZipFile(out, 'w') as o:
        for n in z.namelist():
            x = changes.get(n, z.read(n))
            if x is not None:
                o.writestr(n, x)
    return out.getvalue()


def contents(c, ctx):
    __, doc, part, step = c
    with zipfile.ZipFile(io.BytesIO(start()[doc])) as z:
        data = z.read('content.xml')
    n = len(data)
    for k in range(part * n // 8, (part + 1) * n // 8, step * 3):
        if k < len(data.rstrip()):
            damaged_document(ctx, doc, repack(doc, {'content.xml': data[:k]}), ('contents', doc, k), must_fail=True)
    m = len(list(ET.fromstring(data).iter()))
    for k in range(part, m, 8):
        for how in ('remove', 'clear', 'double', 'attributes'):
            root = ET.fromstring(data)
            elems = list(root.iter())
            parents = {ch: p for p in root.iter() for ch in p}
            e = elems[k]
            if e not in parents:
                continue
            if how == 'remove':
                parents[e].remove(e)
            elif how == 'double':
                parents[e].insert(list(parents[e]).index(e), copy.deepcopy(e))
            elif how == 'attributes':
                e.attrib.clear()
            else:
                tail = e.tail
                e.clear()
                e.tail = tail
            damaged_document(ctx, doc, repack(doc, {'content.xml': ET.tostring(root, encoding='utf-8', xml_declaration=True)}),
                             ('element', doc, elems[k].tag.split('}')[-1], k, how))


_same = {}


def undamaged(doc):
    """The project after importing the intact document."""
    if doc not in _same:
        with sut.Work() as w:
            for n, x in (('p.yw7', start()['project']), (f'p{doc}{sut.EXPORTS[doc]}', start()[doc])):
                with open(w.path(n), 'wb') as f:
                    f.write(x)
            sut.imp(w.path(n))
            _same[doc] = sut.view(sut.read(w.path('p.yw7')).novel)
    return _same[doc]


def damaged_document(ctx, doc, data, what, must_fail=False, same_or_fail=False):
    new = doc in ('wip', 'outline')
    name = 'w.odt' if new else f'p{doc}{sut.EXPORTS[doc]}'
    target = 'w.yw7' if new else 'p.yw7'
    with sut.Work() as w:
        d = w.path('w')
        os.mkdir(d)
        files = {'p.yw7': start()['project'], name: data}
        for n, x in files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(x)
        before = sut.listing(d)
        ctx.evaluated()
        try:
            r = sut.convert(os.path.join(d, name))
        except Exception as ex:
            ctx.violation(f'import-exception-{type(ex).__name__}', f'{what}: {ex!r}')
            return
        after = sut.listing(d)
        if not r.ok:
            ctx.expect(r.failed, 'import-message', f'{what} {r}')
            if after != before:
                ctx.violation('import-leftover', f'{what} {r}: {c15.changes(before, after)}')
        else:
            if must_fail:
                ctx.violation('import-of-damaged', f'{what} {r}')
            try:
                f = sut.read(os.path.join(d, target))
                v = sut.view(f.novel)
                if what[0] == 'id':
                    # Elements with other IDs are new.
                    for x in PARTS:
                        v[x] = [e for e in v[x] if e[0] in dict(undamaged(doc)[x])]
                    v['scenes'] = {i: s for i, s in v['scenes'].items() if i in undamaged(doc)['scenes']}
                    for __, x in v['chapters']:
                        if 'srtScenes' in x:
                            x['srtScenes'] = [i for i in x['srtScenes'] if i in v['scenes']]
                if same_or_fail and v != undamaged(doc):
                    ctx.violation('import-of-inverted', f'{what}: {prj.diff(undamaged(doc), v)}')
                v = sut.view(f.novel)
                f.write()
                v2 = sut.view(sut.read(os.path.join(d, target)).novel)
                if v != v2:
                    ctx.violation('imported-differs', f'{what}: {prj.diff(v, v2)}')
            except sut.Error as ex:
                ctx.violation('imported-not-opened', f'{what}: {ex!r}')
            rest = {k: x for k, x in after.items() if k not in (target, target + '.bak')}
            if rest != {k: x for k, x in before.items() if k != target}:
                ctx.violation('import-other-files', f'{what}: {c15.changes(before, after)}')
        ctx.key((what, r.ok))
