"""C08: description documents: any text comes out and comes back."""
import itertools

from mc import odf, prj, proj, sut

ID = 'C08'
TITLE = 'Description documents carry every text out of the project and back'
LEVEL = 'exploration'
RULE = ('One evaluation is one text in one field of one description document (scenes, chapters, parts, characters, locations, '
        'items): the exported section must show exactly its lines, and importing the unchanged document must leave the project '
        'as it was. All texts of at most n tokens over an alphabet of special tokens. Distinct: by document, field, and text.')
ASSUMPTIONS = ['Runs of blanks count as one; blanks and blank lines at the beginning and end of a text do not count.',
               'No scene description line begins with "#" (this is a split marker).']
TOKENS = ['a', 'B c', ' ', '\n', '\n\n', '&', '<x>', '"', "'", '&amp;', '\\', '$ID', '${Title}', '> ', '[i]', '[/i]', '[lang=fr]', '* * *', 'é', '%', '|', '1',
          '[c]', '~', '[ScID:1]', '/*', '*/', '<text:p>', ']]>', 'ScID:1', '\u00a0', ';', '# ']
CORE = ['a', ' ', '\n', '&', '> ', '"', '$ID', '<x>']
BOUNDS = {'quick': f'n=2 over {len(TOKENS)} tokens, n=4 over {len(CORE)}', 'thorough': f'n=3 over {len(TOKENS)} tokens, n=6 over {len(CORE)}'}
DOCS = {'_scenes': ('scene', ['desc']), '_chapters': ('chapter', ['desc']), '_parts': ('part', ['desc']),
        '_characters': ('character', ['desc', 'bio', 'goals', 'notes']), '_locations': ('location', ['desc']), '_items': ('item', ['desc'])}
PER = 60


def texts(tier):
    n, m = (2, 4) if tier == 'quick' else (3, 6)
    for r in range(n + 1):
        for t in itertools.product(TOKENS, repeat=r):
            yield ''.join(t)
    for r in range(n + 1, m + 1):
        for t in itertools.product(CORE, repeat=r):
            yield ''.join(t)


def cases(tier):
    for doc in DOCS:
        batch = []
        for t in texts(tier):
            if lines(t) == [''] and t or '  ' in t or t != t.strip() or t.startswith('#') or '\n#' in t:
                continue
            batch.append(t)
            if len(batch) == PER:
                yield [doc, batch]
                batch = []
        yield [doc, batch]


def lines(text):
    """What a reader of the text sees."""
    return [' '.join(x.split(' ')).strip(' ') for x in (text or '').strip(' \n').split('\n')]


def ident(i):
    """IDs have one to five digits."""
    return str(i + 1 if i < 30 else (i + 1) * 1009)


def project(doc, batch):
    p = proj.plain()
    kind, fields = DOCS[doc]
    if kind == 'scene':
        p['scenes'] = {ident(i): proj.scene(title=f'S{i}', desc=t, content='Untouched') for i, t in enumerate(batch)}
        ids = list(p['scenes'])
        p['chapters'] = [{'id': '1', 'title': 'One', 'scenes': ids[:9], 'desc': 'keep'}, {'id': '7', 'title': 'Two', 'scenes': ids[9:]}]
    elif kind in ('chapter', 'part'):
        p['chapters'] = [{'id': ident(i), 'title': f'C{i}', 'desc': t, 'level': 1 if kind == 'part' else 0} for i, t in enumerate(batch)]
        p['chapters'].append({'id': '900', 'title': 'Other', 'desc': 'keep this', 'level': 0 if kind == 'part' else 1, 'scenes': list(p['scenes'])})
    else:
        part = []
        for i, t in enumerate(batch):
            e = {'id': ident(i), 'title': f'E{i}', 'aka': 'a', 'tags': ['t'], 'desc': 'keep', 'image': 'i'}
            if kind == 'character':
                e.update(bio='b', goals='g', notes='n', fullname='f')
            for f in fields:
                e[f] = t if fields.index(f) == i % len(fields) or len(t) < 3 else f'{f} of {i}'
            part.append(e)
        p[kind + 's'] = part
        for s in p['scenes'].values():
            for k in ('chars', 'locs', 'items'):
                s.pop(k, None)
    return p


def sections(blocks):
    out = {}
    for b in blocks:
        if b[0] == 'sec':
            out[b[1]] = b[2]
            out.update(sections(b[2]))
    return out


NAMES = {'scene': ('ScID', {'desc': ''}), 'chapter': ('ChID', {'desc': ''}), 'part': ('ChID', {'desc': ''}),
         'character': ('CrID', {'desc': '_desc', 'bio': '_bio', 'goals': '_goals', 'notes': '_notes'}),
         'location': ('LcID', {'desc': ''}), 'item': ('ItID', {'desc': ''})}


def records(p, kind):
    if kind == 'scene':
        return p['scenes'].items()
    part = {'chapter': 'chapters', 'part': 'chapters'}.get(kind, kind + 's')
    return [(e['id'], e) for e in p[part]]


def case(c, ctx):
    doc, batch = c
    kind, fields = DOCS[doc]
    p = project(doc, batch)
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(p, path)
        sut.rewrite(path)
        before = prj.canonical(path)
        target = sut.export(path, doc)
        secs = sections(odf.Odf(target).blocks())
        prefix, names = NAMES[kind]
        for i, e in records(p, kind):
            for f in fields:
                if i == '900':
                    continue
                ctx.evaluated()
                ctx.key((doc, f, e.get(f)))
                name = f'{prefix}{names[f]}:{i}'
                if name not in secs:
                    ctx.violation(f'section{doc}', f'there is no section {name} for {e!r}')
                    continue
                shown = lines('\n'.join(odf.plain(b[2]) for b in secs[name] if b[0] == 'p'))
                if lines(e.get(f)) != shown:
                    ctx.violation(f'shown{doc}', f'{f} {e.get(f)!r} is shown as {shown}')
        ctx.sample(f'{doc}: {batch[-1]!r}')
        r = sut.imp(target)
        ctx.expect(not r.ui.warnings, 'warning', r)
        after = prj.canonical(path)
    for info in (before, after):
        for part in ('CHARACTERS', 'LOCATIONS', 'ITEMS', 'CHAPTERS'):
            for e in info.get(part, []):
                norm(e)
        for e in info['SCENES'].values():
            norm(e)
    d = prj.diff(before, after)
    ctx.expect(not d, f'import{doc}', '; '.join(d[:4]))


def norm(e):
    for f in ('Desc', 'Bio', 'Goals', 'Notes'):
        if f in e:
            e[f] = lines(e[f])
