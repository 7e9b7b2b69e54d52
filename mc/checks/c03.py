"""C03: saving an edited project changes exactly what was edited."""
import copy

from mc import prj, sut
from mc.checks import c01

ID = 'C03'
TITLE = 'Saving an edited project stores exactly the edits'
LEVEL = 'model_checking'
RULE = ('Breadth of edit histories: from an almost empty and from a complete project, every history of at most n edits over '
        'an alphabet of edits (every attribute of every kind of element set to every value of its list, plus adding, '
        'deleting and moving chapters, scenes and elements), continued in the same session or after reopening. After each '
        'edit the project is saved; the reopened project must equal the model state, and everything the reader does not '
        'manage must still be in the file. States: distinct model states; transitions: edits applied and saved.')
ASSUMPTIONS = ['An attribute is cleared by the empty value, not by None, which means "leave as it is".',
               'A scene with a date has a time, and a scene with a day has no date.',
               'Scenes of a notes, to-do or unused chapter have the type of the chapter.']
BOUNDS = {'quick': 'n=1 for all edits; n=2 for pairs of edits of the same attribute and of structural edits, n=3 for the scene start',
          'thorough': 'n=2 for all pairs of edits of the same record and across records (one value each); n=3 for structural edits and edits of the same attribute'}

T = 'n & <w>\nline ]]> "x"'
TEXTS = ['new', T, '']
VALUES = {
    'scene': {
        'title': TEXTS, 'desc': TEXTS, 'sceneContent': TEXTS, 'notes': TEXTS, 'goal': TEXTS, 'conflict': TEXTS, 'outcome': TEXTS,
        'image': ['i.png', ''], 'field1': ['5', '1', ''], 'field2': ['6', ''], 'field3': ['7', ''], 'field4': ['8', ''],
        'tags': [['x'], ['x', 'y z'], []], 'scType': [0, 1, 2, 3], 'doNotExport': [True, False], 'status': [1, 2, 3, 4, 5],
        'appendToPrev': [True, False], 'isReactionScene': [True, False], 'isSubPlot': [True, False],
        'characters': [['2'], ['2', '4'], ['4', '2'], []], 'locations': [['3', '12'], ['12'], []], 'items': [['10'], []],
        'start': [['2020-02-29', '01:02:03', None], [None, '04:05:00', None], [None, '23:59:00', '7'], [None, None, '0'],
                  [None, '00:00:00', '-3'], [None, '', ''], ['', '', '']],
        'lastsDays': ['3', '', '0'], 'lastsHours': ['4', '', '0'], 'lastsMinutes': ['5', '', '0'], 'scnArcs': ['Q;R', ''], 'scnMode': [0, 1, 2],
    },
    'chapter': {
        'title': TEXTS, 'desc': TEXTS, 'chLevel': [0, 1], 'chType': [0, 1, 2, 3], 'suppressChapterTitle': [True, False],
        'suppressChapterBreak': [True, False], 'isTrash': [True, False],
    },
    'character': {
        'title': TEXTS, 'desc': TEXTS, 'image': ['i.png', ''], 'tags': [['x'], ['x', 'y'], []], 'aka': TEXTS, 'notes': TEXTS,
        'bio': TEXTS, 'goals': TEXTS, 'fullName': TEXTS, 'isMajor': [True, False],
        'Field_Link': ['l & m', ''], 'Field_BirthDate': ['1800-02-03', ''], 'Field_DeathDate': ['1850-02-03', ''],
    },
    'location': {'title': TEXTS, 'desc': TEXTS, 'image': ['i.png', ''], 'tags': [['x'], ['x', 'y'], []], 'aka': TEXTS,
                 'Field_Link': ['l & m', '']},
    'novel': {
        'title': TEXTS, 'desc': TEXTS, 'authorName': TEXTS, 'authorBio': TEXTS, 'fieldTitle1': ['f', ''], 'fieldTitle2': ['f', ''],
        'fieldTitle3': ['f', ''], 'fieldTitle4': ['f', ''], 'wordTarget': [0, 7], 'wordCountStart': [0, 9],
        'locale': [['fr', 'FR'], ['en', 'GB']], 'languages': [['es'], ['de-CH', 'fr']],
    },
    'note': {'title': TEXTS, 'desc': TEXTS},
}
VALUES['item'] = VALUES['location']
PARTS = {'scene': 'scenes', 'chapter': 'chapters', 'character': 'characters', 'location': 'locations', 'item': 'items',
         'note': 'notes'}
TARGET = {'scene': '1', 'chapter': '1', 'character': '4', 'location': '12', 'item': '10', 'note': '3'}

STRUCT = (
    [['addscene', c, p] for c in ('5', '1') for p in (0, 1)] + [['delscene', s] for s in ('1', '7')]
    + [['movescene', s, c, p] for s in ('1', '7') for c in ('5', '1') for p in (0, 1)]
    + [['addchapter', p, lv] for p in (0, 2) for lv in (0, 1)] + [['delchapter', c] for c in ('5', '1')]
    + [['movechapter', '5', 1], ['movechapter', '1', 0]]
    + [['addelement', k] for k in ('character', 'location', 'item', 'note')]
    + [['delelement', k, TARGET[k]] for k in ('character', 'location', 'item', 'note')]
    + [['moveelement', k] for k in ('character', 'location', 'item', 'note')]
    + [['set', 'chapter', 'chType', t] for t in range(4)])


def sets(kinds=tuple(VALUES), values=None):
    for kind in kinds:
        for attr, vals in VALUES[kind].items():
            for v in vals[:values]:
                yield ['set', kind, attr, v]


def cases(tier):
    # The start of a scene is stored in alternative elements.
    for base in ('day', 'dense'):
        for v in VALUES['scene']['start']:
            yield [base, 'attr', [['set', 'scene', 'start', v]]]
            if base == 'day':
                for u in VALUES['scene']['start']:
                    yield [base, 'attr', [['set', 'scene', 'start', v], ['set', 'scene', 'start', u]]]
    # So is whether it is exported.
    for base in ('rtf', 'rtfonly', 'noexport'):
        for v in VALUES['scene']['doNotExport']:
            if base == 'noexport' and v:
                continue
            yield [base, 'attr', [['set', 'scene', 'doNotExport', v]]]
            for t in VALUES['scene']['scType']:
                yield [base, 'attr', [['set', 'scene', 'scType', t], ['set', 'scene', 'doNotExport', v]]]
    # The elements that contain the others may be missing.
    for base in ('empty', 'bare'):
        for op in sets(('novel', 'chapter', 'scene'), values=2):
            yield [base, 'attr', [op]]
        for op in STRUCT:
            yield [base, 'struct', [op]]
    if tier == 'thorough':
        for base in ('sparse', 'dense'):
            for op in sets():
                for v in VALUES[op[1]][op[2]]:
                    yield [base, 'attr', [op, op[:3] + [v]]]
    for base in ('sparse', 'dense'):
        for op in sets():
            # The second level holds all values of the same attribute.
            yield [base, 'attr', [op]]
        for op in STRUCT:
            yield [base, 'struct', [op]]
        # The level and the type of a chapter are stored in common elements.
        for t in VALUES['chapter']['chType']:
            for lv in (0, 1):
                yield [base, 'level', [['set', 'chapter', 'chLevel', lv], ['set', 'chapter', 'chType', t]]]
        if tier == 'thorough':
            for op in list(sets(values=1)) + STRUCT:
                yield [base, 'cross', [op]]
            for a in STRUCT:
                for b in STRUCT:
                    yield [base, 'struct', [a, b]]


def base_project(name):
    p = c01.base()
    p['notes'] = [{'id': '3', 'title': 'N3', 'desc': 'note'}, {'id': '1', 'title': 'N1'}]
    p['raw_project'] = c01.PROJECT['raw_project']
    p['raw_root'] = c01.PROJECT['raw_root']
    p['vars'].append({'id': '9', 'title': 'v & w', 'desc': 'val & <ue>', 'tags': '0'})
    if name == 'day':
        p['scenes']['1'].update(day='3', hour='07', minute='30')
    elif name in ('empty', 'bare'):
        p.update(characters=[], locations=[], items=[], notes=[], vars=[] if name == 'empty' else None)
        for s in p['scenes'].values():
            for k in ('chars', 'locs', 'items'):
                s.pop(k, None)
    elif name.startswith('rtf'):
        p['scenes']['1'].update(exportrtf='only' if name == 'rtfonly' else 'both')
    elif name == 'noexport':
        p['scenes']['1'].update(noexport=True)
    elif name == 'dense':
        p['scenes']['1'] = {k: v for k, v in c01.SCENE.items() if k != 'start'}
        p['scenes']['1'].update(type=0, datetime='2021-03-04 05:06:07', day=None)
        p['scenes']['2'].update(day='3', hour='04', minute='05')
        p['chapters'][1].update({k: v for k, v in c01.CHAPTER.items() if k not in ('scenes', 'type')})
        p['characters'][1].update(c01.CHARACTER)
        p['locations'][1].update(c01.WORLD)
        p['items'][0].update(c01.WORLD)
        for k, v in c01.PROJECT.items():
            if isinstance(v, (str,)) or k == 'fields':
                p[k] = v
    else:
        for s in p['scenes'].values():
            s['status'] = '1'
        p['scenes']['1'].update(raw=c01.SCENE['raw'], fields=c01.SCENE['fields'])
        p['chapters'][1].update(raw=c01.CHAPTER['raw'], fields=c01.CHAPTER['fields'])
    return p


# --- the model: a project is a dict of plain views ---------------------------

def put(d, attr, v):
    if v in (None, '', 0, False) or v == []:
        d.pop(attr, None)
    else:
        d[attr] = v


def record(m, kind):
    part = m[PARTS[kind]]
    i = TARGET[kind]
    if isinstance(part, dict):
        return part.get(i)
    return dict(part).get(i)


def new_id(ids):
    n = 50
    while str(n) in ids:
        n += 1
    return str(n)


def apply_model(m, op):
    """Apply an edit to the model; return False if it is not possible."""
    name = op[0]
    if name == 'set':
        __, kind, attr, v = op
        d = m['novel'] if kind == 'novel' else record(m, kind)
        if d is None:
            return False
        if attr == 'start':
            for a in ('date', 'time', 'day'):
                if v[2] is None and a == 'day' and v[0] is None and v[1]:
                    continue  # a day is kept when only the time is set
                if v[1] is None and a == 'time':
                    if 'date' in m['_was'] and 'time' in d:
                        d.pop('time')
                    continue
                put(d, a, v[('date', 'time', 'day').index(a)])
        elif attr == 'locale':
            d['languageCode'], d['countryCode'] = v
        elif attr == 'languages':
            d['languages'] = d.get('languages', []) + [x for x in v if x not in d.get('languages', [])]
        elif attr in ('characters', 'locations', 'items') and kind == 'scene':
            put(d, attr, [x for x in v if x in dict(m[attr])])
        elif attr.startswith('Field_'):
            kw = dict(d.get('kwVar', {}))
            put(kw, attr, v)
            d.pop('kwVar', None)
            if kw:
                d['kwVar'] = kw
        else:
            put(d, attr, v)
    elif name == 'addscene':
        ch = dict(m['chapters']).get(op[1])
        if ch is None or op[2] > len(ch.get('srtScenes', [])):
            return False
        i = new_id(m['scenes'])
        m['scenes'][i] = {'title': 'added', 'sceneContent': 'added text', 'status': 1}
        ch['srtScenes'] = list(ch.get('srtScenes', []))
        ch['srtScenes'].insert(op[2], i)
    elif name == 'delscene':
        if op[1] not in m['scenes']:
            return False
        del m['scenes'][op[1]]
        for __, ch in m['chapters']:
            put(ch, 'srtScenes', [s for s in ch.get('srtScenes', []) if s != op[1]])
    elif name == 'movescene':
        ch = dict(m['chapters']).get(op[2])
        if ch is None or op[1] not in m['scenes']:
            return False
        for __, x in m['chapters']:
            put(x, 'srtScenes', [s for s in x.get('srtScenes', []) if s != op[1]])
        lst = list(ch.get('srtScenes', []))
        lst.insert(op[3], op[1])
        ch['srtScenes'] = lst
    elif name == 'addchapter':
        if op[1] > len(m['chapters']):
            return False
        i = new_id(dict(m['chapters']))
        d = {'title': 'added chapter'}
        put(d, 'chLevel', op[2])
        m['chapters'].insert(op[1], (i, d))
    elif name == 'delchapter':
        ch = dict(m['chapters']).get(op[1])
        if ch is None:
            return False
        for s in ch.get('srtScenes', []):
            del m['scenes'][s]
        m['chapters'][:] = [x for x in m['chapters'] if x[0] != op[1]]
    elif name == 'movechapter':
        if op[1] not in dict(m['chapters']):
            return False
        x = [x for x in m['chapters'] if x[0] == op[1]][0]
        m['chapters'].remove(x)
        m['chapters'].insert(op[2], x)
    elif name == 'addelement':
        part = m[PARTS[op[1]]]
        part.append((new_id(dict(part)), {'title': 'added', 'desc': 'added desc'}))
    elif name == 'delelement':
        part = m[PARTS[op[1]]]
        if op[2] not in dict(part):
            return False
        part[:] = [x for x in part if x[0] != op[2]]
    elif name == 'moveelement':
        part = m[PARTS[op[1]]]
        if len(part) < 2:
            return False
        part.reverse()
    return True


def effective(m):
    """What a reopened project shows."""
    m = copy.deepcopy({k: v for k, v in m.items() if k != '_was'})
    for __, ch in m['chapters']:
        if ch.get('chType'):
            for s in ch.get('srtScenes', []):
                m['scenes'][s]['scType'] = ch['chType']
    for s in m['scenes'].values():
        for part in ('characters', 'locations', 'items'):
            put(s, part, [x for x in s.get(part, []) if x in dict(m[part])])
    return m


# --- the same edits on the real model -----------------------------------------

def apply_real(n, op):
    name = op[0]
    parts = {'character': (n.characters, n.srtCharacters, sut.Character), 'location': (n.locations, n.srtLocations, sut.WorldElement),
             'item': (n.items, n.srtItems, sut.WorldElement), 'note': (n.projectNotes, n.srtPrjNotes, sut.BasicElement)}
    if name == 'set':
        __, kind, attr, v = op
        if kind == 'novel':
            e = n
        elif kind == 'scene':
            e = n.scenes[TARGET[kind]]
        elif kind == 'chapter':
            e = n.chapters[TARGET[kind]]
        else:
            e = parts[kind][0][TARGET[kind]]
        if attr == 'start':
            e.date = v[0]
            if v[1] is not None or v[0] is None and v[2] is not None:
                e.time = v[1]
            if v[2] is not None or v[0]:
                e.day = v[2]
        elif attr == 'locale':
            n.languageCode, n.countryCode = v
        elif attr == 'languages':
            n.languages = (n.languages or []) + [x for x in v if x not in (n.languages or [])]
        elif attr.startswith('Field_'):
            e.kwVar[attr] = v
        elif isinstance(v, list):
            setattr(e, attr, list(v))
        else:
            setattr(e, attr, v)
    elif name == 'addscene':
        i = new_id(n.scenes)
        s = sut.Scene()
        s.title, s.sceneContent, s.status = 'added', 'added text', 1
        n.scenes[i] = s
        n.chapters[op[1]].srtScenes.insert(op[2], i)
    elif name == 'delscene':
        del n.scenes[op[1]]
        for c in n.chapters.values():
            if op[1] in c.srtScenes:
                c.srtScenes.remove(op[1])
    elif name == 'movescene':
        for c in n.chapters.values():
            if op[1] in c.srtScenes:
                c.srtScenes.remove(op[1])
        n.chapters[op[2]].srtScenes.insert(op[3], op[1])
    elif name == 'addchapter':
        i = new_id(n.chapters)
        c = sut.Chapter()
        c.title, c.chLevel = 'added chapter', op[2]
        n.chapters[i] = c
        n.srtChapters.insert(op[1], i)
    elif name == 'delchapter':
        for s in n.chapters[op[1]].srtScenes:
            del n.scenes[s]
        del n.chapters[op[1]]
        n.srtChapters.remove(op[1])
    elif name == 'movechapter':
        n.srtChapters.remove(op[1])
        n.srtChapters.insert(op[2], op[1])
    elif name == 'addelement':
        d, srt, cls = parts[op[1]]
        i = new_id(d)
        e = cls()
        e.title, e.desc = 'added', 'added desc'
        d[i] = e
        srt.append(i)
    elif name == 'delelement':
        d, srt, cls = parts[op[1]]
        del d[op[2]]
        srt.remove(op[2])
    elif name == 'moveelement':
        parts[op[1]][1].reverse()


MANAGED_SCENE = {'Title', 'Desc', 'Status', 'Notes', 'Tags', 'SceneContent', 'Field1', 'Field2', 'Field3', 'Field4', 'AppendToPrev',
                 'SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute', 'LastsDays', 'LastsHours', 'LastsMinutes',
                 'ReactionScene', 'SubPlot', 'Goal', 'Conflict', 'Outcome', 'ImageFile', 'Characters', 'Locations', 'Items',
                 'Unused', 'ExportCondSpecific', 'ExportWhenRTF'}
MANAGED_CHAPTER = {'ID', 'Title', 'Desc', 'Unused', 'SectionStart', 'Type', 'ChapterType', 'Scenes'}
MANAGED_PROJECT = {'Title', 'AuthorName', 'Bio', 'Desc', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'WordTarget',
                   'WordCountStart'}


def foreign(info):
    """Return what the file holds beyond the managed content."""

    def rest(rec, managed):
        d = {k: v for k, v in rec.items() if k not in managed and k != 'Fields'}
        f = {k: v for k, v in rec.get('Fields', {}).items() if not k.startswith(('Field_Scene', 'Field_Suppress', 'Field_IsTrash'))}
        if f:
            d['Fields'] = f
        return d

    out = {'project': rest(info['PROJECT'], MANAGED_PROJECT)}
    out['scenes'] = {i: rest(s, MANAGED_SCENE) for i, s in info['SCENES'].items()}
    out['chapters'] = {c['ID']: rest(c, MANAGED_CHAPTER) for c in info.get('CHAPTERS', [])}
    out['vars'] = {v['Title']: v for v in info.get('PROJECTVARS', [])
                   if v['Title'] not in ('Language', 'Country') and 'lang=' not in v['Title']}
    out['root'] = {k: v for k, v in info.items() if k not in
                   ('', 'PROJECT', 'SCENES', 'CHAPTERS', 'PROJECTVARS', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES')}
    return out


def case(c, ctx):
    base, mode, ops = c
    with sut.Work() as w:
        path = w.path('p.yw7')
        p = base_project(base)
        prj.save(p, path)
        f = sut.read(path)
        m = c01.model_view(p)
        m = copy.deepcopy(m)
        ctx.same(effective(m), sut.view(f.novel), 'base', c)
        other = foreign(prj.load(path))
        if mode == 'attr':
            last = [['set', ops[0][1], ops[0][2], v] for v in VALUES[ops[0][1]][ops[0][2]]]
        elif mode == 'level':
            last = [['set', 'chapter', a, v] for a in ('chLevel', 'chType') for v in VALUES['chapter'][a]]
        elif mode == 'cross':
            last = list(sets(values=1)) + STRUCT
        elif len(ops) == 1:
            last = STRUCT
        else:
            last = STRUCT
        history(ctx, c, f, m, other, list(ops), last)


def history(ctx, c, f, m, other, ops, last, done=()):
    """Apply ops one by one (each continued in-session and reopened), then every op of last."""
    if ops:
        op = ops[0]
        m = copy.deepcopy(m)
        f = copy.deepcopy(f)
        if not step(ctx, f, m, other, op, done, c):
            return
        data = open(f.filePath, 'rb').read()
        history(ctx, c, f, m, other, ops[1:], last, done + (op,))
        with open(f.filePath, 'wb') as h:
            h.write(data)
        g = sut.read(f.filePath)
        history(ctx, c, g, effective(m), other, ops[1:], last, done + (op, 'reopen'))
        with open(f.filePath, 'wb') as h:
            h.write(data)
        return
    data = open(f.filePath, 'rb').read()
    for op in last:
        step(ctx, copy.deepcopy(f), copy.deepcopy(m), other, op, done, c)
        with open(f.filePath, 'wb') as h:
            h.write(data)


def step(ctx, f, m, other, op, done, c):
    m['_was'] = set(record(m, 'scene') or ())
    if not apply_model(m, op):
        return False
    apply_real(f.novel, op)
    f.write()
    ctx.step()
    ctx.trace()
    new = ctx.state(repr(sorted(effective(m).items())))
    if new:
        ctx.sample(list(done) + [op])
    got = sut.view(sut.read(f.filePath).novel)
    exp = effective(m)
    if not exp['novel'].get('languageCode'):
        # A project without a language may get the one of the system.
        if got['novel'].get('languageCode') == 'en' and got['novel'].get('countryCode') == 'US':
            exp['novel'].update(languageCode='en', countryCode='US')
    if got != exp:
        d = prj.diff(exp, got)
        ctx.violation(f'edit-{op[0]}-{op[1]}-{op[2] if op[0] == "set" else ""}', f'{c[0]}: {list(done) + [op]}: {d}')
    info = prj.load(f.filePath)
    for part in ('PROJECTVARS', 'CHAPTERS', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES'):
        ids = [x.get('ID') for x in info.get(part, [])]
        ctx.expect(len(ids) == len(set(ids)), 'unique', f'{c[0]}: {list(done) + [op]}: {part} {ids}')
    now = foreign(info)
    for part in ('scenes', 'chapters'):
        lost = [(k, other[part][k], now[part].get(k)) for k in other[part] if k in now[part] and now[part][k] != other[part][k]]
        if lost:
            ctx.violation('foreign', f'{c[0]}: {list(done) + [op]}: {lost}')
    for part in ('project', 'vars', 'root'):
        if now[part] != other[part]:
            ctx.violation('foreign', f'{c[0]}: {list(done) + [op]}: {part}: {other[part]} -> {now[part]}')
    return True
