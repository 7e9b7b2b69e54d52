"""C02: any text in any field of a project survives saving."""
import itertools

from mc import prj, sut

ID = 'C02'
TITLE = 'Any text in any field survives saving and reopening'
LEVEL = 'exploration'
RULE = ('One evaluation is one text placed in one kind of field: saved to a new file and over an existing one, read by an '
        'independent XML parser and by the reader. All texts of at most n tokens over an alphabet of XML-, CDATA-, '
        'yWriter- and template-significant tokens. Distinct: by text.')
ASSUMPTIONS = ['Texts consist of characters XML can represent; line breaks are line feeds.',
               'A tag is one line without semicolons and surrounding blanks, and tags of one list are distinct.']
TOKENS = ['a', ' ', '\n', '&', '<', '>', '"', ']', ']]>', '&amp;', '&lt;', '<![CDATA[', '<b>', '</Title>', 'é', '\U0001d11e', '|', '[i]',
          '/*', '\t', ';', '%', '\\', "'", '-->', '<?x?>', '&#10;', '$ID', '\u00a0', '\u200b', '\u2028', '\ufeff', '\x7f', '\x85']
SHORT = ['a', ' ', '\n', '&', '<', '>', ']', ']]>', '&amp;', '&lt;', '<![CDATA[', '</Desc>', 'é', '|', '\t', '"']
BOUNDS = {'quick': f'n=2 over {len(TOKENS)} tokens, n=3 over {len(SHORT)}',
          'thorough': f'n=3 over {len(TOKENS)} tokens, n=4 over {len(SHORT)}'}

SCENE = ('title', 'desc', 'sceneContent', 'notes', 'field1', 'field2', 'field3', 'field4', 'goal', 'conflict', 'outcome',
         'image', 'scnArcs')
CHARACTER = ('title', 'desc', 'aka', 'image', 'notes', 'bio', 'goals', 'fullName')
WORLD = ('title', 'desc', 'aka', 'image')
NOVEL = ('title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4')
TAG = {'title': 'Title', 'desc': 'Desc', 'sceneContent': 'SceneContent', 'notes': 'Notes', 'field1': 'Field1',
       'field2': 'Field2', 'field3': 'Field3', 'field4': 'Field4', 'goal': 'Goal', 'conflict': 'Conflict', 'outcome': 'Outcome',
       'image': 'ImageFile', 'aka': 'AKA', 'bio': 'Bio', 'goals': 'Goals', 'fullName': 'FullName', 'authorName': 'AuthorName',
       'authorBio': 'Bio', 'fieldTitle1': 'FieldTitle1', 'fieldTitle2': 'FieldTitle2', 'fieldTitle3': 'FieldTitle3',
       'fieldTitle4': 'FieldTitle4'}


def cases(tier):
    n = 2 if tier == 'quick' else 3
    for r in range(n):
        for prefix in itertools.product(range(len(TOKENS)), repeat=r):
            yield ['all', list(prefix)]
    for prefix in itertools.product(range(len(SHORT)), repeat=n):
        yield ['short', list(prefix)]


def case(c, ctx):
    tokens = TOKENS if c[0] == 'all' else SHORT
    prefix = ''.join(tokens[i] for i in c[1])
    texts = list(dict.fromkeys(prefix + t for t in tokens))
    if not c[1]:
        texts.append('')
    for t in texts:
        ctx.key(t)
    ctx.sample(repr(texts[-1]))
    with sut.Work() as w:
        path = w.path('new.yw7')
        f = sut.Yw7File(path)
        f.novel = fill(sut.Novel(), texts)
        v = sut.view(f.novel)
        f.write()
        compare(c, ctx, path, v, texts, 'new')
        # Over a project that holds other texts of the same alphabet.
        path = w.path('old.yw7')
        g = sut.Yw7File(path)
        g.novel = fill(sut.Novel(), ['x' + t + 'y' for t in texts])
        g.write()
        h = sut.read(path)
        fill(h.novel, texts)
        v = sut.view(h.novel)
        h.write()
        compare(c, ctx, path, v, texts, 'over')
        # And once more, unedited.
        sut.rewrite(path)
        compare(c, ctx, path, v, texts, 'again')
        # The project's own fields and the chapter titles hold one text at a time.
        for t in texts if c[0] == 'short' and len(c[1]) < 3 or len(c[1]) < 2 else ():
            path = w.path('one.yw7')
            f = sut.Yw7File(path)
            f.novel = fill(sut.Novel(), [t])
            v = sut.view(f.novel)
            f.write()
            compare(c, ctx, path, v, [t], 'single')


def legal_tag(t):
    return t == t.strip() and ';' not in t and '\n' not in t and t != ''


def fill(n, texts):
    for a in NOVEL:
        setattr(n, a, texts[-1])
    n.languageCode, n.countryCode = 'en', 'US'
    for i, t in enumerate(texts):
        i = str(i + 1)
        s = n.scenes.setdefault(i, sut.Scene())
        for a in SCENE:
            setattr(s, a, t)
        s.status = 1
        s.scType = 0
        s.tags = [t, 'b'] if legal_tag(t) and t != 'b' else []
        c = n.chapters.setdefault(i, sut.Chapter())
        c.title, c.desc, c.chType, c.chLevel, c.srtScenes = t, t, 0, 0, [i]
        p = n.characters.setdefault(i, sut.Character())
        for a in CHARACTER:
            setattr(p, a, t)
        p.tags = s.tags
        p.kwVar['Field_Link'] = t
        for part in (n.locations, n.items):
            e = part.setdefault(i, sut.WorldElement())
            for a in WORLD:
                setattr(e, a, t)
            e.tags = s.tags
            e.kwVar['Field_Link'] = t
        e = n.projectNotes.setdefault(i, sut.BasicElement())
        e.title, e.desc = t, t
    ids = [str(i + 1) for i in range(len(texts))]
    n.srtChapters, n.srtCharacters, n.srtLocations, n.srtItems, n.srtPrjNotes = (list(ids) for __ in range(5))
    return n


def compare(c, ctx, path, v, texts, how):
    info = prj.load(path)
    for i, t in enumerate(texts):
        ctx.evaluated()
        i = str(i + 1)
        rec = info['SCENES'][i]
        ok = [rec.get(TAG[a], '') for a in SCENE if a in TAG] + [rec.get('Fields', {}).get('Field_SceneArcs', '')]
        tags = ';'.join([t, 'b']) if legal_tag(t) and t != 'b' else ''
        if rec.get('Tags', '') != tags:
            ctx.violation('tags', f'{how} {t!r}: {rec}')
        for part, attrs in (('CHARACTERS', CHARACTER), ('LOCATIONS', WORLD), ('ITEMS', WORLD), ('CHAPTERS', ('title', 'desc')),
                            ('PROJECTNOTES', ('title', 'desc'))):
            rec = info[part][int(i) - 1]
            ok += [rec.get(TAG[a], '') for a in attrs]
            if part in ('CHARACTERS', 'LOCATIONS', 'ITEMS'):
                ok.append(rec.get('Fields', {}).get('Field_Link', ''))
                if rec.get('Tags', '') != tags:
                    ctx.violation('tags', f'{how} {t!r}: {rec}')
        bad = [x for x in ok if x != t]
        if bad:
            ctx.violation('file', f'{how}: {t!r} is saved as {bad[0]!r} in {info["SCENES"][i]}')
            return
    bad = [(a, info['PROJECT'].get(TAG[a], '')) for a in NOVEL if info['PROJECT'].get(TAG[a], '') != texts[-1]]
    ctx.expect(not bad, 'project', f'{how}: {texts[-1]!r} is saved as {bad}')
    r = sut.view(sut.read(path).novel)
    for part in r:
        if part == 'chapters':
            # A title beginning with '@' switches the title off.
            for __, d in r[part] + v[part]:
                d.pop('suppressChapterTitle', 0)
        if r[part] != v[part]:
            d = prj.diff(v[part], r[part]) if isinstance(v[part], dict) else [(x, y) for x, y in zip(v[part], r[part]) if x != y]
            ctx.violation('reopened', f'{how}: {part}: {d[:2]}')
