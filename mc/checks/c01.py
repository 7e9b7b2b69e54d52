"""C01: opening and saving a project without editing it loses nothing."""
import itertools

from mc import prj, proj, sut

ID = 'C01'
TITLE = 'Saving an unedited project keeps all of its content'
LEVEL = 'exploration'
RULE = ('One evaluation is one project file taken through open-save-open on the real reader and writer, compared with '
        'the information set an independent XML reader sees and with an independent model of what the fields mean. '
        'Cases: for each kind of record all sets of at most k fields that are added to an otherwise empty record or '
        'removed from a complete record, and all combinations of up to n records, of unmanaged content at each level, '
        'and of list lengths. Distinct: by the information set of the file.')
ASSUMPTIONS = ['The projects have the structure yWriter 7 produces: one element per field, unique IDs.',
               'Fields of locations, items, characters, and project notes that the program does not define are not part of a yWriter 7 project.',
               'Derived data (word counts, save dates, sort numbers) may be recomputed or dropped.']
BOUNDS = {'quick': 'k=2, n=2', 'thorough': 'k=3, n=3'}

SP = proj.SPECIAL
SCENE = {
    'title': 'T ' + SP, 'desc': 'd\n' + SP, 'content': 'c\n' + SP, 'notes': 'n\n' + SP, 'tags': ['a', 'b c'],
    'field1': '3', 'field2': '10', 'field3': '2', 'field4': '7', 'goal': 'g' + SP, 'conflict': 'cf' + SP,
    'outcome': 'o' + SP, 'image': 'pic & 1.jpg', 'status': '4', 'chars': ['4', '2'], 'locs': ['12', '3'],
    'items': ['10'], 'arcs': 'A;B & <c>', 'mode': '2', 'noexport': True, 'append': True, 'reaction': True, 'subplot': True,
    'start': None, 'lastsdays': '1', 'lastshours': '12', 'lastsminutes': '55', 'type': 1,
    'fields': {'Field_Custom': 'x & y'}, 'raw': '<Sequence>5</Sequence>\n<X><Y>1</Y></X>\n',
}
STARTS = [{'datetime': '2021-03-04 05:06:07'}, {'day': '4'}, {'hour': '9'}, {'minute': '5'},
          {'day': '-1', 'hour': '23', 'minute': '59'}, {'day': '0', 'hour': '0', 'minute': '0'}]
CHAPTER = {
    'title': 'T ' + SP, 'desc': 'd\n' + SP, 'type': 1, 'level': 1, 'suppresstitle': True, 'suppressbreak': True,
    'trash': True, 'scenes': ['1', '2'], 'fields': {'Field_Ch': 'x & y'}, 'raw': '<SortKey>9</SortKey>\n',
}
WORLD = {'title': 'T ' + SP, 'desc': 'd\n' + SP, 'aka': 'ak & a', 'tags': ['a', 'b c'], 'image': 'p & q.jpg', 'link': 'l & <m>'}
CHARACTER = dict(WORLD, notes='n\n' + SP, bio='b\n' + SP, goals='g' + SP, fullname='F & <N>', major=True,
                 birth='1900-01-01', death='1999-12-31')
PROJECT = {
    'title': 'T ' + SP, 'author': 'A & B', 'bio': 'b\n' + SP, 'desc': 'd\n' + SP, 'fieldtitle1': 'f & 1', 'fieldtitle2': 'f2',
    'fieldtitle3': 'f3', 'fieldtitle4': 'f4', 'wordtarget': '50000', 'wordcountstart': '12',
    'fields': {'Field_Unknown': 'x & y'}, 'raw_project': '<LaTeXHeaderFile><![CDATA[h & <h>]]></LaTeXHeaderFile>\n',
    'raw_root': '<HISTORY a="1"><X>7 &amp; 8</X></HISTORY>\n',
    'notes': [{'id': '3', 'title': 'N ' + SP, 'desc': 'x\n' + SP}, {'id': '1', 'title': 'M', 'fields': {'Field_Foo': 'x'}}, {'id': '2', 'title': 'O'}],
    'vars': [{'id': '1', 'title': 'Language', 'desc': 'de', 'tags': '0'}, {'id': '2', 'title': 'Country', 'desc': 'AT', 'tags': '0'},
             {'id': '9', 'title': 'v & w', 'desc': 'val & <ue>', 'tags': '0'}],
    'locations': [], 'items': [], 'characters': [], 'chapters': [], 'scenes': {},
}


# Content that is named or built like what the program knows.
NAMES = {
    'scene': ['ID', 'Title', 'Desc', 'SceneContent', 'Unused', 'Status', 'Notes', 'Tags', 'Field1', 'Field2', 'Field3', 'Field4', 'AppendToPrev',
              'SpecificDateTime', 'SpecificDateMode', 'Day', 'Hour', 'Minute', 'LastsDays', 'LastsHours', 'LastsMinutes', 'ReactionScene', 'SubPlot',
              'Goal', 'Conflict', 'Outcome', 'ImageFile', 'Characters', 'Locations', 'Items', 'ExportCondSpecific', 'ExportWhenRTF', 'Fields'],
    'scene-field': ['Field_SceneType', 'Field_SceneArcs', 'Field_SceneMode'],
    'chapter': ['ID', 'Title', 'Desc', 'Unused', 'SectionStart', 'Type', 'ChapterType', 'Scenes', 'Fields'],
    'chapter-field': ['Field_SuppressChapterTitle', 'Field_SuppressChapterBreak', 'Field_IsTrash'],
    'project': ['Title', 'AuthorName', 'Bio', 'Desc', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3', 'FieldTitle4', 'WordTarget', 'WordCountStart', 'Fields'],
    'project-field': ['Field_LanguageCode', 'Field_CountryCode'],
    'root': ['PROJECT', 'LOCATIONS', 'ITEMS', 'CHARACTERS', 'PROJECTNOTES', 'PROJECTVARS', 'SCENES', 'CHAPTERS'],
}
VARS = ['Country house', 'Countryside', 'Languages', 'Language of birds', 'My Language', 'My Country', 'language', 'COUNTRY', 'lang', 'langfr', '/lang', 'slang=x',
        '', None, 'Title', 'twin', 'twin']


def named(tag):
    """Return unmanaged elements whose names and contents resemble those of a managed one."""
    return ''.join(f'<{t}>5{tag}</{t}>\n' for t in (tag + 'X', 'X' + tag, tag.lower(), tag.upper() + '_')) \
        + f'<Box>\n<{tag}>7</{tag}>\n</Box>\n'


def base(vars_=True):
    return {
        'title': 'Base',
        'locations': [{'id': i, 'title': f'L{i}'} for i in ('3', '12')],
        'items': [{'id': i, 'title': f'I{i}'} for i in ('10',)],
        'characters': [{'id': i, 'title': f'C{i}'} for i in ('2', '4')],
        'scenes': {'1': {'title': 'S1', 'content': ''}, '2': {'title': 'S2'}, '7': {'title': 'S7'}},
        'chapters': [{'id': '5', 'title': 'K5', 'scenes': ['7']}, {'id': '1', 'title': 'K1', 'scenes': ['2', '1']}],
        'vars': [{'id': '1', 'title': 'Language', 'desc': 'en', 'tags': '0'},
                 {'id': '2', 'title': 'Country', 'desc': 'US', 'tags': '0'}] if vars_ else None,
    }


KINDS = {'scene': SCENE, 'chapter': CHAPTER, 'location': WORLD, 'item': WORLD, 'character': CHARACTER, 'project': PROJECT}


def cases(tier):
    k = 2 if tier == 'quick' else 3
    for kind, full in KINDS.items():
        names = list(full)
        for r in range(k + 1):
            for combo in itertools.combinations(names, r):
                yield ['toggle', kind, 'add', list(combo)]
                yield ['toggle', kind, 'remove', list(combo)]
    for n in range(len(STARTS)):
        for t in range(4):
            yield ['start', n, t]
    for how in (None, 'both', 'only'):
        for full in (False, True):
            yield ['export', how, full]
    m = 2 if tier == 'quick' else 3
    ids = ['1', '2', '10', '03'][:m + 1]
    for kind in ('location', 'item', 'character', 'note', 'var'):
        for r in range(m + 1):
            for order in itertools.permutations(ids, r):
                yield ['order', kind, list(order)]
    for r in range(m + 1):
        for order in itertools.permutations(ids, r):
            for cut in range(r + 1):
                yield ['tree', list(order), cut]
    for kind in ('chars', 'locs', 'items'):
        for r in range(m + 1):
            for order in itertools.permutations(ids[:3], r):
                yield ['refs', kind, list(order)]
    yield ['rich']
    for level, tags in NAMES.items():
        for present in (False, True):
            for i in range(len(tags)):
                yield ['names', level, present, [i]]
            yield ['names', level, present, list(range(len(tags)))]
    for r in range(1, 3):
        for combo in itertools.combinations(range(len(VARS)), r):
            for first_ in (False, True):
                yield ['vars', list(combo), first_]
    for lng, ctr in ((None, None), ('fr', 'CA')):
        for pv in (False, True):
            yield ['legacy', lng, ctr, pv]


def project(c):
    p = base()
    if c[0] == 'toggle':
        __, kind, how, names = c
        full = KINDS[kind]
        rec = {k: v for k, v in full.items() if (k in names) == (how == 'add')}
        if kind == 'scene':
            if 'start' in rec:
                del rec['start']
                rec.update(STARTS[len(names) % len(STARTS)])
            for k in ('content', 'status'):
                rec.setdefault(k)
            p['scenes']['1'] = rec
        elif kind == 'chapter':
            if rec.get('type'):
                for s in p['scenes'].values():
                    s['type'] = 1
            p['chapters'][1] = dict(rec, id='1')
        elif kind == 'project':
            q = {k: v for k, v in rec.items()}
            for part in ('locations', 'items', 'characters', 'chapters', 'scenes'):
                q[part] = p[part] if part in rec else []
            if 'scenes' not in rec:
                q['scenes'] = {}
                q['chapters'] = [dict(x, scenes=[]) for x in q['chapters']]
            elif 'chapters' not in rec:
                q['scenes'] = {}
            if 'vars' not in q:
                q['vars'] = p['vars']
            p = q
        else:
            p[kind + 's'][-1] = dict(rec, id=p[kind + 's'][-1]['id'])
    elif c[0] == 'start':
        p['scenes']['1'].update(STARTS[c[1]])
        p['scenes']['1']['type'] = c[2]
    elif c[0] == 'export':
        if c[2]:
            p['scenes']['1'] = {k: v for k, v in SCENE.items() if k not in ('start', 'noexport')}
        if c[1]:
            p['scenes']['1']['exportrtf'] = c[1]
    elif c[0] == 'order':
        __, kind, order = c
        if kind == 'var':
            p['vars'] += [{'id': '2' + i, 'title': f'v{i}', 'desc': f'value {i}', 'tags': '0'} for i in order]
        elif kind == 'note':
            p['notes'] = [{'id': i, 'title': f'n{i}', 'desc': f'note {i}'} for i in order]
        else:
            p[kind + 's'] = [dict(CHARACTER if kind == 'character' else WORLD, id=i, title=f't{i}') for i in order]
            for s in p['scenes'].values():
                s.pop('chars', 0)
    elif c[0] == 'tree':
        __, order, cut = c
        p['scenes'] = {i: {'title': f's{i}', 'content': f'content {i}', 'status': '1'} for i in sorted(order)}
        p['chapters'] = [{'id': '3', 'title': 'a', 'scenes': order[:cut], 'level': 1},
                         {'id': '20', 'title': 'b', 'scenes': order[cut:]}]
    elif c[0] == 'refs':
        __, kind, order = c
        part = {'chars': 'characters', 'locs': 'locations', 'items': 'items'}[kind]
        p[part] = [{'id': i, 'title': i} for i in ('1', '2', '10')]
        p['scenes']['1'][kind] = order
        p['scenes']['7'][kind] = order[::-1]
    elif c[0] == 'names':
        __, level, present, numbers = c
        raw = ''.join(named(NAMES[level][i]) for i in numbers)
        if level.endswith('-field'):
            raw = {f'{n}{x}': f'{n} & {x}' for i in numbers for n in [NAMES[level][i]] for x in ('X', 's', '_')}
            raw.update({x + NAMES[level][i]: 'x' for i in numbers for x in ('My', 'X_')})
        kind = level.split('-')[0]
        key = 'fields' if isinstance(raw, dict) else 'raw'
        if kind == 'scene':
            rec = {k: v for k, v in SCENE.items() if k != 'start'} if present else {}
            if key == 'fields' and present:
                raw = {**SCENE['fields'], **raw}
            p['scenes']['1'] = {**rec, key: raw}
        elif kind == 'chapter':
            if present:
                for s in p['scenes'].values():
                    s['type'] = 1
            p['chapters'][1] = {**(CHAPTER if present else {}), 'scenes': ['2', '1'], 'id': '1', key: raw}
        elif kind == 'project':
            if present:
                p.update({k: v for k, v in PROJECT.items() if k not in ('locations', 'items', 'characters', 'chapters', 'scenes', 'notes', 'vars')})
            p['fields' if key == 'fields' else 'raw_project'] = raw
        else:
            if present:
                p['notes'] = PROJECT['notes']
            p['raw_root'] = raw
    elif c[0] == 'vars':
        own = [{'id': str(40 - i), 'title': VARS[i], 'desc': f'value {i}', 'tags': str(i % 2)} for i in c[1]]
        p['vars'] = own + p['vars'] if c[2] else p['vars'] + own
    elif c[0] == 'rich':
        p = proj.rich()
    elif c[0] == 'legacy':
        __, lng, ctr, pv = c
        p = base(pv)
        p['fields'] = {k: v for k, v in (('Field_LanguageCode', lng), ('Field_CountryCode', ctr)) if v}
    return p


def case(c, ctx):
    p = project(c)
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(p, path)
        before = prj.canonical(path)
        variables = prj.load(path).get('PROJECTVARS')
        ctx.key(before)
        ctx.sample(f'{c} -> {len(prj.build(p))} bytes')
        f = sut.read(path)
        v = sut.view(f.novel)
        if c[0] != 'legacy':
            ctx.same(model_view(p), v, 'reading', f'{c}: the opened project differs from the file')
        f.write()
        after = prj.canonical(path)
        if c[0] == 'legacy' and not (p.get('vars') or c[1] or c[2]):
            after.pop('PROJECTVARS')
            before.pop('PROJECTVARS')
        if c[0] == 'vars':
            # Nothing happens to the variables, whatever they are called.
            ctx.same(variables, prj.load(path).get('PROJECTVARS'), 'variables', c)
        d = prj.diff(before, after)
        ctx.expect(not d, 'saving', f'{c}: ' + '; '.join(d))
        ctx.evaluated()
        with open(path, 'rb') as h:
            first = h.read()
        g = sut.read(path)
        if c[0] != 'legacy':
            ctx.same(v, sut.view(g.novel), 'reopening', f'{c}: the saved project reads differently')
        g.write()
        with open(path, 'rb') as h:
            ctx.same(first, h.read(), 'idempotence', f'{c}: saving twice gives different files')
        ctx.evaluated()
        # The complete managed content also reaches a new file.
        other = w.path('q.yw7')
        n = sut.Yw7File(other)
        n.novel = sut.read(path).novel
        n.write()
        expected = managed(p)
        q = w.path('r.yw7')
        prj.save(expected, q)
        if c[0] != 'legacy':
            d = prj.diff(drop_own_vars(prj.canonical(q)), drop_own_vars(prj.canonical(other)))
            ctx.expect(not d, 'new-file', f'{c}: ' + '; '.join(d))
            ctx.same(v, sut.view(sut.read(other).novel), 'new-file-view', f'{c}')
        ctx.evaluated()


def drop_own_vars(info):
    pv = info['PROJECTVARS']
    info['PROJECTVARS'] = {k: v for k, v in pv.items() if k in ('Language', 'Country')}
    # A saved project tells whether it is exported at all, and has a type for everything.
    return info


def managed(p):
    """Return the project without the content only the file carries."""
    p = proj.clone(p)
    for k in ('raw_project', 'raw_root'):
        p.pop(k, None)
    p.pop('fields', None)
    for s in p['scenes'].values():
        s.pop('raw', None)
        s.pop('exportrtf', None)
        s.pop('fields', None)
    for s in p['chapters']:
        s.pop('raw', None)
        s.pop('fields', None)
    return p


def _n(d):
    return {k: v for k, v in d.items() if v not in (None, '', False) and v != [] and v != {}}


def model_view(p):
    """Independent statement of what an opened project shows."""
    chtype = {}
    chapters = []
    for c in p['chapters']:
        t = c.get('title', '') or ''
        chapters.append((c['id'], _n({
            'title': t, 'desc': c.get('desc'), 'chLevel': 1 if c.get('level') else 0, 'chType': c.get('type', 0),
            'suppressChapterTitle': bool(c.get('suppresstitle')) or t.startswith('@'),
            'suppressChapterBreak': bool(c.get('suppressbreak')), 'isTrash': bool(c.get('trash')),
            'srtScenes': c.get('scenes', [])})))
        for s in c.get('scenes', []):
            chtype[s] = c.get('type', 0)
    scenes = {}
    for i, s in p['scenes'].items():
        d = {'title': s.get('title'), 'desc': s.get('desc'), 'sceneContent': s.get('content'), 'notes': s.get('notes'),
             'tags': s.get('tags'), 'goal': s.get('goal'), 'conflict': s.get('conflict'), 'outcome': s.get('outcome'),
             'image': s.get('image'), 'scType': chtype.get(i) or s.get('type', 0), 'doNotExport': bool(s.get('noexport')),
             'status': s.get('status', 2) and int(s.get('status', 2)), 'appendToPrev': bool(s.get('append')),
             'isReactionScene': bool(s.get('reaction')), 'isSubPlot': bool(s.get('subplot')),
             'characters': s.get('chars'), 'locations': s.get('locs'), 'items': s.get('items'), 'day': s.get('day'),
             'lastsDays': s.get('lastsdays'), 'lastsHours': s.get('lastshours'), 'lastsMinutes': s.get('lastsminutes'),
             'scnArcs': s.get('arcs'), 'scnMode': int(s.get('mode') or 0)}
        for n in '1234':
            d['field' + n] = s.get('field' + n)
        if s.get('datetime'):
            d['date'], d['time'] = s['datetime'].split(' ')
        elif s.get('hour') or s.get('minute'):
            d['time'] = f"{int(s.get('hour') or 0):02}:{int(s.get('minute') or 0):02}:00"
        scenes[i] = d
    out = {'chapters': chapters, 'scenes': {i: _n(d) for i, d in scenes.items()}}

    def world(e, more=()):
        d = {'title': e.get('title'), 'desc': e.get('desc'), 'image': e.get('image'), 'tags': e.get('tags'), 'aka': e.get('aka')}
        kw = {}
        for k, n in (('link', 'Field_Link'), ('birth', 'Field_BirthDate'), ('death', 'Field_DeathDate')):
            if e.get(k):
                kw[n] = e[k]
        d['kwVar'] = kw
        for k, n in more:
            d[n] = e.get(k)
        return _n(d)

    crt = (('notes', 'notes'), ('bio', 'bio'), ('goals', 'goals'), ('fullname', 'fullName'), ('major', 'isMajor'))
    out['characters'] = [(e['id'], world(e, crt)) for e in p['characters']]
    out['locations'] = [(e['id'], world(e)) for e in p['locations']]
    out['items'] = [(e['id'], world(e)) for e in p['items']]
    out['notes'] = [(e['id'], _n({'title': e.get('title'), 'desc': e.get('desc')})) for e in p.get('notes', [])]
    pv = {v.get('title'): v.get('desc') for v in p.get('vars') or []}
    langs = [k[5:] for k in pv if k and k.startswith('lang=')]
    out['novel'] = _n({
        'title': p.get('title'), 'desc': p.get('desc'), 'authorName': p.get('author'), 'authorBio': p.get('bio'),
        'fieldTitle1': p.get('fieldtitle1'), 'fieldTitle2': p.get('fieldtitle2'), 'fieldTitle3': p.get('fieldtitle3'),
        'fieldTitle4': p.get('fieldtitle4'), 'wordTarget': int(p.get('wordtarget') or 0),
        'wordCountStart': int(p.get('wordcountstart') or 0), 'languageCode': pv.get('Language'), 'countryCode': pv.get('Country'),
        'languages': langs})
    return out
