"""C29: template-based exports consist of the filled-in templates of what is accepted."""
import itertools
import os
import re

from mc import sut

from pywriter.file.file_export import FileExport
from pywriter.file.filter import Filter

ID = 'C29'
TITLE = 'Template-based exports show each accepted element in its template, with its data'
LEVEL = 'exploration'
RULE = ('One evaluation is one file written by a subclass of the generic export class, as applications define it (templates, section headings, filters), compared literally with an '
        'independent model: every accepted chapter, scene, character, location, item, and project note once, in order, in the template of its kind, with all numbers, '
        'totals, marks, lists, dates, and durations. All subsets of the templates of chapters, of scenes, and of the rest, and all deviations of up to n templates across these groups from all and none; '
        'all filters of a project; all scenes of at most m per chapter; all combinations of dates, times, days, and durations; all values of at most k tokens. Distinct: by written text.')
ASSUMPTIONS = ['The templates use the placeholders of their kind; what the first scene template, appended scenes, and dividers are for follows the descriptions of the base class.']
TOKENS = ['a', ' ', '$', '$ID', '${Title}', '$$', '\\', '\\1', '\n', '&', '<b>', '[i]', '/*', '%s', '{x}', '\u00e9', '\u4e2d', '\U0001f600', '"', "'"]
BOUNDS = {'quick': f'n=2 (group subsets complete), m=2, k=2 over {len(TOKENS)} tokens', 'thorough': f'n=3 (group subsets complete), m=3, k=3 over {len(TOKENS)} tokens'}

CHAPTER = ['part', 'chapter', 'notesPart', 'todoPart', 'notesChapter', 'todoChapter', 'unusedChapter', 'notExportedChapter',
           'chapterEnd', 'unusedChapterEnd', 'notExportedChapterEnd', 'notesChapterEnd', 'todoChapterEnd']
SCENE = ['scene', 'firstScene', 'appendedScene', 'notesScene', 'todoScene', 'unusedScene', 'notExportedScene', 'DIVIDER']
REST = ['HEADER', 'FOOTER', 'CHARACTERS', 'character', 'LOCATIONS', 'location', 'ITEMS', 'item', 'projectNote']
ALL = CHAPTER + SCENE + REST
ATTRIBUTE = {'DIVIDER': '_sceneDivider', 'HEADER': '_fileHeader', 'FOOTER': '_fileFooter', 'CHARACTERS': '_characterSectionHeading', 'LOCATIONS': '_locationSectionHeading',
             'ITEMS': '_itemSectionHeading'}
PLACES = {
    'HEADER': 'Title Desc AuthorName AuthorBio FieldTitle1 FieldTitle2 FieldTitle3 FieldTitle4 Language Country'.split(),
    'chapter': 'ID ChapterNumber Title Desc ProjectName ProjectPath Language Country'.split(),
    'scene': ('ID SceneNumber Title Desc WordCount WordsTotal LetterCount LettersTotal Status SceneContent FieldTitle1 FieldTitle2 FieldTitle3 FieldTitle4 Field1 Field2 Field3 Field4 Date Time '
              'Day ScDate LastsDays LastsHours LastsMinutes Duration ReactionScene Goal Conflict Outcome Tags Image Characters Viewpoint Locations Items Notes ProjectName ProjectPath '
              'Language Country').split(),
    'character': 'ID Title Desc Tags Image AKA Notes Bio Goals FullName Status ProjectName ProjectPath'.split(),
    'location': 'ID Title Desc Tags Image AKA ProjectName ProjectPath'.split(),
    'item': 'ID Title Desc Tags Image AKA ProjectName ProjectPath'.split(),
    'projectNote': 'ID Title Desc ProjectName ProjectPath'.split(),
}


def places(kind):
    if kind in PLACES:
        return PLACES[kind]
    if kind in CHAPTER:
        return PLACES['chapter']
    return PLACES['scene'] if kind in SCENE and kind != 'DIVIDER' else []


def template(kind, few=True):
    names = places(kind)
    if few:
        names = [x for x in names if x in ('ID', 'ChapterNumber', 'SceneNumber', 'WordsTotal', 'LettersTotal')]
    return f'<{kind}' + ''.join(f'|{x}=${{{x}}}' for x in names) + '>\n'


def attribute(kind):
    return ATTRIBUTE.get(kind, f'_{kind}Template')


class Only(Filter):

    def __init__(self, accepted):
        self.accepted = accepted

    def accept(self, source, eId):
        # A filter may look at the element in question.
        return eId in self.accepted and source.novel is not None


def exporter(kinds, few=True, accepted=()):
    body = {attribute(k): template(k, few) for k in kinds}
    accepted = dict(accepted)

    class Export(FileExport):
        DESCRIPTION = 'Test'
        EXTENSION = '.txt'
        SUFFIX = '_test'

        def __init__(self, filePath, **kwargs):
            super().__init__(filePath, **kwargs)
            for name, x in list(vars(self).items()):
                for what, ids in accepted.items():
                    if isinstance(x, Filter) and what in name.lower():
                        setattr(self, name, Only(ids))

    for k, v in body.items():
        setattr(Export, k, v)
    return Export


# -- the model
def expected(v, kinds, few=True, accepted=(), name='p', directory=''):
    """The text, from the plain data v."""
    accepted = dict(accepted)
    out = []

    def ok(what, i):
        return what not in accepted or i in accepted[what]

    def put(kind, data=None):
        if kind not in kinds:
            return
        names = places(kind)
        if few:
            names = [x for x in names if x in ('ID', 'ChapterNumber', 'SceneNumber', 'WordsTotal', 'LettersTotal')]
        common = {'ProjectName': name, 'ProjectPath': directory, 'Language': v['languageCode'], 'Country': v['countryCode']}
        if kind in SCENE or kind == 'HEADER':
            common.update({f'FieldTitle{i}': v.get(f'fieldTitle{i}') for i in (1, 2, 3, 4)})
        data = {**common, **(data or {})}
        out.append(f'<{kind}' + ''.join(f'|{x}=' + ('' if data.get(x) is None else str(data[x])) for x in names) + '>\n')

    put('HEADER', {'Title': v.get('title'), 'Desc': v.get('desc'), 'AuthorName': v.get('authorName'), 'AuthorBio': v.get('authorBio')})
    numbers = {'chapter': 0, 'scene': 0, 'words': 0, 'letters': 0}
    for cid, c in v['chapters']:
        if not ok('chapter', cid):
            continue
        kind, end = chapter_kind(v, c, kinds)
        number = ''
        if kind == 'chapter':
            numbers['chapter'] += 1
            number = numbers['chapter']
        data = {'ID': cid, 'ChapterNumber': number, 'Title': c.get('title'), 'Desc': c.get('desc')}
        put(kind, data)
        first = True
        for sid in c['scenes']:
            s = v['scenes'][sid]
            if not ok('scene', sid):
                continue
            kind = scene_kind(s, c, v)
            if kind is None or kind != 'scene' and kind not in kinds:
                continue
            data = scene_data(v, sid, s)
            if kind == 'scene':
                numbers['scene'] += 1
                numbers['words'] += words(s)
                numbers['letters'] += letters(s)
                data['SceneNumber'] = numbers['scene']
                if not first and s.get('appendToPrev') and 'appendedScene' in kinds:
                    kind = 'appendedScene'
            data['WordsTotal'] = numbers['words']
            data['LettersTotal'] = numbers['letters']
            if not first and not s.get('appendToPrev'):
                put('DIVIDER')
            if first and 'firstScene' in kinds:
                kind = 'firstScene'
            put(kind, data)
            first = False
        put(end, {'ID': cid, 'ChapterNumber': number, 'Title': c.get('title'), 'Desc': c.get('desc')})
    for kind, heading in (('character', 'CHARACTERS'), ('location', 'LOCATIONS'), ('item', 'ITEMS')):
        put(heading)
        for i, e in v[kind]:
            if ok(kind, i):
                put(kind, {'ID': i, 'Title': e.get('title'), 'Desc': e.get('desc'), 'Tags': ', '.join(e.get('tags') or []), 'Image': e.get('image'), 'AKA': e.get('aka'),
                           'Notes': e.get('notes'), 'Bio': e.get('bio'), 'Goals': e.get('goals'), 'FullName': e.get('fullName'), 'Status': 'Major' if e.get('isMajor') else 'Minor'})
    for i, e in v['projectNote']:
        put('projectNote', {'ID': i, 'Title': e.get('title'), 'Desc': e.get('desc')})
    put('FOOTER')
    return ''.join(out)


def excluded(v, c):
    return bool(c['scenes']) and all(v['scenes'][i].get('doNotExport') for i in c['scenes'])


def chapter_kind(v, c, kinds):
    t, part = c.get('chType') or 0, c.get('chLevel') == 1
    if t in (1, 2):
        n = ('notes', 'todo')[t - 1]
        return n + ('Part' if part else 'Chapter'), n + 'ChapterEnd'
    if t == 3:
        return 'unusedChapter', 'unusedChapterEnd'
    if excluded(v, c):
        return 'notExportedChapter', 'notExportedChapterEnd'
    # Without a template for parts, these are chapters.
    return 'part' if part and 'part' in kinds else 'chapter', 'chapterEnd'


def scene_kind(s, c, v):
    t = s.get('scType') or 0
    if t in (1, 2):
        return ('notesScene', 'todoScene')[t - 1]
    if t == 3 or c.get('chType') == 3:
        return 'unusedScene'
    if s.get('doNotExport') or excluded(v, c):
        return 'notExportedScene'
    if (s.get('sceneContent') or '').startswith(('<HTML>', '<TEX>')):
        return None
    return 'scene'


def words(s):
    return len((s.get('sceneContent') or '').split())


def letters(s):
    return len(s.get('sceneContent') or '')


def scene_data(v, i, s):
    byid = {k: dict(v[k]) for k in ('character', 'location', 'item')}
    chars = [byid['character'][x]['title'] for x in s.get('characters') or []]
    date = s.get('date')
    if date == '0001-01-01':
        date = None
    lasts = {k: (None if s.get(k) == '0' else s.get(k)) for k in ('lastsDays', 'lastsHours', 'lastsMinutes')}
    d = {
        'ID': i, 'SceneNumber': '', 'Title': s.get('title'), 'Desc': s.get('desc'), 'WordCount': words(s), 'LetterCount': letters(s),
        'Status': (None, 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done')[s.get('status') or 0], 'SceneContent': s.get('sceneContent'),
        'Date': date, 'Time': s['time'][:-3] if s.get('time') else '', 'Day': '' if date else s.get('day'),
        'ScDate': date or ('' if s.get('day') is None else f'Day {s["day"]}'), 'LastsDays': lasts['lastsDays'], 'LastsHours': lasts['lastsHours'], 'LastsMinutes': lasts['lastsMinutes'],
        'Duration': ''.join(f'{lasts[k]}{u}' for k, u in (('lastsDays', 'd '), ('lastsHours', 'h '), ('lastsMinutes', 'min')) if lasts[k]),
        'ReactionScene': 'R' if s.get('isReactionScene') else 'A', 'Goal': s.get('goal'), 'Conflict': s.get('conflict'), 'Outcome': s.get('outcome'), 'Tags': ', '.join(s.get('tags') or []),
        'Image': s.get('image'), 'Characters': ', '.join(chars), 'Viewpoint': chars[0] if chars else '',
        'Locations': ', '.join(byid['location'][x]['title'] for x in s.get('locations') or []), 'Items': ', '.join(byid['item'][x]['title'] for x in s.get('items') or []), 'Notes': s.get('notes'),
    }
    d.update({f'Field{n}': s.get(f'field{n}') for n in (1, 2, 3, 4)})
    return d


# -- the real thing
def novel(v):
    n = sut.Novel()
    for k in ('title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4', 'languageCode', 'countryCode'):
        setattr(n, k, v.get(k))

    def fill(e, d):
        for k, x in d.items():
            if k != 'scenes':
                setattr(e, k, x)
        return e

    for i, c in v['chapters']:
        n.chapters[i] = fill(sut.Chapter(), c)
        n.chapters[i].srtScenes = list(c['scenes'])
        n.srtChapters.append(i)
    for i, s in v['scenes'].items():
        n.scenes[i] = fill(sut.Scene(), s)
    for kind, cls, where, order in (('character', sut.Character, n.characters, n.srtCharacters), ('location', sut.WorldElement, n.locations, n.srtLocations),
                                    ('item', sut.WorldElement, n.items, n.srtItems), ('projectNote', sut.BasicElement, n.projectNotes, n.srtPrjNotes)):
        for i, e in v[kind]:
            where[i] = fill(cls(), e)
            order.append(i)
    return n


def write(ctx, w, v, kinds, what, few=True, accepted=(), n=None):
    path = w.path('p_test.txt')
    f = exporter(kinds, few, accepted)(path)
    f.novel = n or novel(v)
    f.write()
    with open(path, encoding='utf-8', newline='') as h:
        got = h.read()
    ctx.evaluated()
    ctx.key(got)
    want = expected(v, kinds, few, accepted, directory=w.dir)
    if not few:
        got, want = (re.sub(r'(\|Duration=[^|>]*?) *(?=[|>])', r'\1', x) for x in (got, want))
    if want != got:
        a, b = want.split('<'), got.split('<')
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        ctx.violation(what[0], f'{what}: expected ...{a[i:i + 2]}, actual ...{b[i:i + 2]}')


def cases(tier):
    quick = tier == 'quick'
    for k in range(64):
        yield ['chapters', k]
    for k in range(0, 256, 4):
        yield ['scenes', 2 if quick else 3, list(range(k, k + 4))]
    for k in range(8):
        yield ['rest', k]
    for k in range(len(ALL)):
        yield ['deviations', 2 if quick else 3, k]
    for what in ('chapter', 'scene', 'character', 'location', 'item', 'both'):
        yield ['filters', what]
    for k in range(27):
        yield ['times', k]
    for k in range(len(TOKENS)):
        yield ['values', 2 if quick else 3, k]
    yield ['missing']
    yield ['lines']
    yield ['files']


def case(c, ctx):
    globals()['do_' + c[0]](ctx, *c[1:])


KINDS_OF_SCENES = ([(0, ne, ap, c) for ne in (False, True) for ap in (False, True) for c in ('One two', '', None, '<HTML>x', '<TEX>x') if not ne or c == 'One two']
                   + [(t, ne, ap, 'x') for t in (1, 2, 3) for ap in (False, True) for ne in (False, True)])


def base(chapters):
    """chapters: list of (type, level, [kind of scene, ...])."""
    v = {'title': 'T', 'languageCode': 'en', 'countryCode': 'US', 'chapters': [], 'scenes': {}, 'character': [], 'location': [], 'item': [], 'projectNote': []}
    for n, (t, level, scenes) in enumerate(chapters):
        ids = []
        for st, ne, ap, content in scenes:
            i = str(1000 - len(v['scenes']))
            v['scenes'][i] = {'title': f'S{i}', 'scType': st, 'doNotExport': ne, 'appendToPrev': ap, 'sceneContent': content, 'status': 1}
            if content is None:
                del v['scenes'][i]['sceneContent']
            ids.append(i)
        v['chapters'].append((str(n * 7 % 997 + 1), {'title': f'C{n}', 'chType': t, 'chLevel': level, 'scenes': ids}))
    return v


def mixed():
    """Every kind of chapter with several kinds of scenes."""
    some = [[], [(0, False, False, 'x')], [(0, True, False, 'x')], [(0, True, False, 'x'), (0, False, True, 'y')], [(1, False, False, 'x'), (2, False, False, 'x'), (3, True, False, 'x'), (0, False, False, 'x')]]
    v = base([(t, level, s) for t in (0, 1, 2, 3, None) for level in (0, 1, None) for s in some])
    for kind in ('character', 'location', 'item', 'projectNote'):
        v[kind] = [(i, {'title': f'{kind}{i}'}) for i in ('3', '1', '20')]
    return v


def subset(names, mask):
    return [x for i, x in enumerate(names) if mask >> i & 1]


def do_chapters(ctx, k):
    """All subsets of the templates of chapters."""
    v = mixed()
    n = novel(v)
    with sut.Work() as w:
        for mask in range(k * 128, k * 128 + 128):
            write(ctx, w, v, subset(CHAPTER, mask) + ['scene'], ('chapters', mask), n=n)


def do_scenes(ctx, m, masks):
    """All subsets of the templates of scenes, with all chapters of up to m scenes."""
    kinds = KINDS_OF_SCENES if m < 3 else [x for x in KINDS_OF_SCENES if x[0] in (0, 1) and x[3] in ('One two', '<TEX>x', 'x')]
    chapters = [(t, 0, list(s)) for t in (0, 3) for r in range(3) for s in itertools.product(KINDS_OF_SCENES, repeat=r)]
    if m > 2:
        chapters += [(0, 0, list(s)) for s in itertools.product(kinds, repeat=3)]
    parts = [base(chapters[i:i + 900]) for i in range(0, len(chapters), 900)]
    with sut.Work() as w:
        for v in parts:
            n = novel(v)
            for mask in masks:
                write(ctx, w, v, subset(SCENE, mask) + ['chapter'], ('scenes', mask), n=n)


def do_rest(ctx, k):
    v = mixed()
    with sut.Work() as w:
        for empty in (False, True):
            x = v
            if empty:
                x = {**v, 'character': [], 'location': [], 'item': [], 'projectNote': []}
            n = novel(x)
            for mask in range(k * 64, k * 64 + 64):
                for more in ([], ['chapter', 'scene']):
                    write(ctx, w, x, subset(REST, mask) + more, ('rest', mask, empty), n=n)


def do_deviations(ctx, r, k):
    """All or none of the templates except for up to r."""
    v = mixed()
    n = novel(v)
    with sut.Work() as w:
        for size in range(r):
            for t in itertools.combinations(ALL[k + 1:], size):
                picked = (ALL[k],) + t
                write(ctx, w, v, list(picked), ('only', picked), n=n)
                write(ctx, w, v, [x for x in ALL if x not in picked], ('without', picked), n=n)


def do_filters(ctx, what):
    """All sets of accepted elements."""
    v = base([(0, 0, [(0, False, False, 'a b'), (0, True, False, 'c'), (0, False, True, 'd')]), (0, 1, []), (1, 0, [(1, False, False, 'e')]), (0, 0, [(0, True, False, 'f'), (0, True, True, 'g')]),
              (0, 0, [(0, False, False, 'h i'), (2, False, False, 'j')])])
    for kind in ('character', 'location', 'item'):
        v[kind] = [(i, {'title': f'{kind}{i}'}) for i in ('3', '1', '20')]
    ids = {'chapter': [i for i, __ in v['chapters']], 'scene': list(v['scenes']), 'character': ['3', '1', '20'], 'location': ['3', '1', '20'], 'item': ['3', '1', '20']}
    n = novel(v)
    with sut.Work() as w:
        for kinds in (ALL, ['scene', 'chapter', 'character', 'location', 'item'], [x for x in ALL if x != 'firstScene']):
            if what == 'both':
                for a in range(2 ** len(ids['chapter'])):
                    for b in range(0, 2 ** len(ids['scene']), 3):
                        accepted = {'chapter': subset(ids['chapter'], a), 'scene': subset(ids['scene'], b)}
                        write(ctx, w, v, kinds, ('filter', accepted), accepted=accepted.items(), n=n)
                continue
            for mask in range(2 ** len(ids[what])):
                accepted = {what: subset(ids[what], mask)}
                write(ctx, w, v, kinds, ('filter', accepted), accepted=accepted.items(), n=n)


def do_times(ctx, k):
    """All combinations of dates, times, days, and durations."""
    date, time, day = (None, '2024-02-29', '0001-01-01')[k % 3], (None, '10:20:30', '00:00:00')[k // 3 % 3], (None, '0', '-15')[k // 9]
    v = base([(0, 0, [(0, False, False, 'x')] * 64)])
    for s, (d, h, m) in zip(v['scenes'].values(), itertools.product((None, '0', '1', '20'), repeat=3)):
        s.update({k: x for k, x in {'date': date, 'time': time, 'day': day, 'lastsDays': d, 'lastsHours': h, 'lastsMinutes': m}.items() if x is not None})
    with sut.Work() as w:
        write(ctx, w, v, ['scene'], ('times', date, time, day), few=False)


def do_values(ctx, m, k):
    """All texts, in every field."""
    values = [TOKENS[k] + ''.join(t) for r in range(m) for t in itertools.product(TOKENS, repeat=r)]
    with sut.Work() as w:
        for at in range(0, len(values), 12):
            some = values[at:at + 12]
            x = some[0]
            v = base([(0, i % 2, [(0, False, False, y)]) for i, y in enumerate(some)])
            v.update({'title': x, 'desc': x, 'authorName': x, 'authorBio': x, 'fieldTitle1': x, 'fieldTitle2': x + '2', 'fieldTitle3': x + '3', 'fieldTitle4': x + '4'})
            for n, y in enumerate(some):
                one = {'title': y, 'desc': y + '1', 'image': y + '2', 'tags': [y + '3', y], 'notes': y + '4', 'aka': y + '5'}
                i = str(n + 1)
                for kind in ('location', 'item'):
                    v[kind].append((i, {j: z for j, z in one.items() if j != 'notes'}))
                v['character'].append((i, {**one, 'bio': y + '6', 'goals': y + '7', 'fullName': y + '8', 'isMajor': n % 2 == 0}))
                v['projectNote'].append((i, {'title': y, 'desc': y + '1'}))
                v['chapters'][n][1].update(title=y, desc=y + '1')
                s = v['scenes'][v['chapters'][n][1]['scenes'][0]]
                s.update({j: z for j, z in one.items() if j != 'aka'})
                s.update(goal=y + '6', conflict=y + '7', outcome=y + '8', field1=y + '9', field2=y + 'A', field3=y + 'B', field4=y + 'C', isReactionScene=n % 2 == 1, status=n % 5 + 1,
                         characters=[str(1 + (n + j) % len(some)) for j in range(n % 3)], locations=[str(1 + (n + j) % len(some)) for j in range(n % 2)],
                         items=[str(1 + (n + j) % len(some)) for j in range((n + 1) % 3)])
            # Counting is the concern of another property.
            counted = novel(v)
            for i, s in v['scenes'].items():
                s['counts'] = counted.scenes[i].wordCount, counted.scenes[i].letterCount
            write_counted(ctx, w, v, ('values', x))


def write_counted(ctx, w, v, what):
    global words, letters
    old = words, letters
    words, letters = (lambda s: s['counts'][0]), (lambda s: s['counts'][1])
    try:
        n = {**v, 'scenes': {i: {k: x for k, x in s.items() if k != 'counts'} for i, s in v['scenes'].items()}}
        write(ctx, w, v, ALL, what, few=False, n=novel(n))
    finally:
        words, letters = old


def do_missing(ctx):
    """All elements without data, and with all lists empty."""
    for lists in (None, []):
        v = base([(0, 0, [(0, False, False, None)])])
        for kind in ('character', 'location', 'item', 'projectNote'):
            v[kind] = [('1', {} if lists is None or kind == 'projectNote' else {'tags': lists})]
        v['title'] = None
        for s in v['scenes'].values():
            s.clear()
            if lists is not None:
                s.update(tags=lists, characters=lists, locations=lists, items=lists)
        v['chapters'][0][1]['title'] = None
        for locale in (('en', 'US'), (None, None), ('', '')):
            v['languageCode'], v['countryCode'] = locale
            with sut.Work() as w:
                write(ctx, w, v, ALL, ('missing', lists, locale), few=False)


ONE_LINE = {'Title', 'AuthorName', 'FullName', 'AKA', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'Field1', 'Field2', 'Field3', 'Field4', 'Characters', 'Viewpoint',
            'Locations', 'Items'}
TEXT = {'Desc', 'Bio', 'Goals', 'Notes', 'SceneContent', 'Goal', 'Conflict', 'Outcome'}


def do_lines(ctx):
    """Values that are a single line are converted as such, texts as texts; the rest is up to the class."""
    class Format:

        def _convert_from_yw(self, text, quick=False):
            return '' if text is None else f'{text}@{"line" if quick else "text"}@'

    for kinds in [ALL] + [[k] for k in ALL] + [[x for x in ALL if x != 'firstScene']]:
        v = base([(t, level, [(s, False, False, 'x')]) for t in (0, 1, 2, 3) for level in (0, 1) for s in (0, 1, 2, 3)] + [(0, 0, [(0, True, False, 'x')]), (0, 0, [(0, False, False, 'x')] * 2)])
        for k in ('title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4'):
            v[k] = k
        for kind in ('character', 'location', 'item', 'projectNote'):
            v[kind] = [('1', {'title': 'A', 'desc': 'B'})]
            if kind != 'projectNote':
                v[kind][0][1].update(aka='C', tags=['t', 'u'])
        v['character'][0][1].update(fullName='F', bio='G', goals='H', notes='I')
        for n, (__, c) in enumerate(v['chapters']):
            c.update(title='Q', desc='R')
        for n, s in enumerate(v['scenes'].values()):
            s.update({k: k for k in ('title', 'desc', 'notes', 'goal', 'conflict', 'outcome', 'field1', 'field2', 'field3', 'field4')}, characters=['1'], locations=['1'], items=['1'],
                     appendToPrev=n == len(v['scenes']) - 1)
        with sut.Work() as w:
            path = w.path('p_test.txt')
            f = type('Export', (Format, exporter(kinds, False)), {})(path)
            f.novel = novel(v)
            f.write()
            with open(path, encoding='utf-8', newline='') as h:
                got = h.read()
        ctx.evaluated()
        ctx.key(got)
        for kind, body in re.findall(r'<(\w+)([^>]*)>', got):
            for name, value in re.findall(r'\|(\w+)=([^|]*)', body):
                marks = re.findall('@(line|text)@', value)
                if name == 'Desc' and kind == 'projectNote':
                    continue
                if name in ONE_LINE:
                    ctx.same(['line'], marks, 'one line', (kind, name))
                elif name in TEXT:
                    ctx.same(['text'], marks, 'text', (kind, name))
        plain = re.sub('@(line|text)@', '', got)
        want = expected(v, kinds, False, directory=w.dir)
        want, plain = (re.sub(r'(\|Duration=[^|>]*?) *(?=[|>])', r'\1', x) for x in (want, plain))
        ctx.same(want, plain, 'text', kinds)


def do_files(ctx):
    """Written files replace older ones, which are kept; failures are reported."""
    v = mixed()
    with sut.Work() as w:
        path = w.path('p_test.txt')
        texts = []
        for n in range(4):
            write(ctx, w, v, ALL[n:], ('files', n))
            with open(path, encoding='utf-8') as h:
                texts.append(h.read())
            ctx.same(sorted(os.listdir(w.dir)), ['p_test.txt'] + (['p_test.txt.bak'] if n else []), 'listing', n)
            if n:
                with open(path + '.bak', encoding='utf-8') as h:
                    ctx.same(texts[n - 1], h.read(), 'backup', n)
        # What cannot be encoded, and a directory that does not exist.
        with open(path, 'rb') as h:
            before = h.read()
        for target, title in ((path, '\ud800'), (os.path.join(w.dir, 'new_test.txt'), '\ud800'), (os.path.join(w.dir, 'missing', 'p_test.txt'), 'T')):
            f = exporter(ALL, False)(target)
            f.novel = novel({**v, 'title': title})
            old = sut.listing(w.dir)
            try:
                f.write()
                ctx.violation('no error', target)
            except sut.Error:
                pass
            ctx.evaluated()
            now = sut.listing(w.dir)
            for d in (old, now):
                d.pop('p_test.txt.bak', None)
            ctx.same(old, now, 'failure', target)
        with open(path, 'rb') as h:
            ctx.same(before, h.read(), 'failure', 'content')
