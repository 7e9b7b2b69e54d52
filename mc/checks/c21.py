"""C21: documents that are older than the project overwrite what they show, and nothing else."""
import copy
import os
import re
import zipfile

from mc import prj, sut

ID = 'C21'
TITLE = 'Old documents update what they show and leave newer changes alone'
LEVEL = 'model_checking'
RULE = ('Breadth-first exploration of histories of a project with up to two of its documents: editing all or some elements, '
        'deleting, adding, and moving chapters, scenes, and elements, exporting, and importing in any order. State: the content of the '
        'project and of the documents. Each import must set the fields a document shows, of the elements that still exist, '
        'to the values at the time of the export; all other fields, elements, orders, and references must be as before the import. '
        'Elements that do not exist any more may be restored, or the import may be refused without changing a file. '
        'In every state the project can be reopened and saved without a difference, and no reference dangles. '
        'States are distinct contents; transitions are operations carried out by the real code.')
ASSUMPTIONS = ['Texts are plain single lines (other texts are the subject of other checks).']
BOUNDS = {'quick': 'all histories of up to 4 operations with one document, and with two documents of the same elements (edits: some, del, add)',
          'thorough': 'all histories with one document up to 8, with any two documents up to 5 operations'}

WORLD = ('desc', 'title', 'aka', 'tags')
OWNED = {
    '_manuscript': ('scenes', ('sceneContent',)), '_proof': ('scenes', ('sceneContent',)), '_notes': ('scenes', ('sceneContent',)),
    '_todo': ('scenes', ('sceneContent',)), '_scenes': ('scenes', ('desc',)), '_chapters': ('chapters', ('desc',)),
    '_parts': ('chapters', ('desc',)), '_characters': ('characters', ('desc', 'bio', 'goals', 'notes')),
    '_locations': ('locations', ('desc',)), '_items': ('items', ('desc',)),
    '_charlist': ('characters', WORLD + ('bio', 'goals', 'notes', 'fullName', 'isMajor')), '_loclist': ('locations', WORLD),
    '_itemlist': ('items', WORLD),
    '_scenelist': ('scenes', ('title', 'desc', 'status', 'notes', 'tags', 'field1', 'field2', 'field3', 'field4', 'goal',
                              'conflict', 'outcome', 'isReactionScene')),
}
LISTS = ('_charlist', '_loclist', '_itemlist')
LOCALE = ('_manuscript', '_proof', '_notes', '_todo')
PREFIX = {'scenes': 'ScID', 'chapters': 'ChID', 'characters': 'CrID', 'locations': 'LcID', 'items': 'ItID'}
EDITS = ('all', 'some', 'del', 'delch', 'add', 'move')
FEW = ('some', 'del', 'add')
RELATED = [('_manuscript', '_proof'), ('_manuscript', '_scenes'), ('_manuscript', '_scenelist'), ('_scenes', '_scenelist'),
           ('_proof', '_notes'), ('_notes', '_todo'), ('_chapters', '_parts'), ('_characters', '_charlist'),
           ('_locations', '_loclist'), ('_items', '_itemlist'), ('_manuscript', '_chapters'), ('_manuscript', '_charlist')]


def cases(tier):
    docs = list(OWNED)
    # A case is a set of documents and its first two operations.
    for doc in docs:
        for a in first([doc]):
            yield [[doc], 4 if tier == 'quick' else 8, a, list(EDITS)]
    if tier == 'quick':
        pairs = RELATED
    else:
        pairs = [(a, b) for i, a in enumerate(docs) for b in docs[i + 1:]]
    for pair in pairs:
        for a in first(list(pair)):
            yield [list(pair), 4 if tier == 'quick' else 5, a, list(EDITS if tier == 'thorough' else FEW)]


def first(docs):
    """Without an export at the beginning there is nothing to import later."""
    return [['exp', d] for d in docs]


def base():
    p = {'title': 'T', 'author': 'A', 'desc': 'D', 'fieldtitle1': 'F1', 'fieldtitle2': 'F2', 'fieldtitle3': 'F3', 'fieldtitle4': 'F4',
         'vars': [{'id': '1', 'title': 'Language', 'desc': 'en', 'tags': '0'}, {'id': '2', 'title': 'Country', 'desc': 'US', 'tags': '0'}],
         'chapters': [{'id': '1', 'title': 'K1', 'desc': 'ch one', 'scenes': ['1', '2', '3', '4']},
                      {'id': '9', 'title': 'P9', 'desc': 'part', 'level': 1, 'scenes': []},
                      {'id': '5', 'title': 'K5', 'desc': 'ch five', 'scenes': ['5']}],
         'scenes': {i: {'title': f'S{i}', 'content': f'content {i}', 'desc': f'desc {i}', 'type': t, 'status': '2', 'notes': f'n{i}',
                        'tags': ['t'], 'goal': 'g', 'conflict': 'c', 'outcome': 'o', 'field1': '2', 'field2': '3', 'field3': '4', 'field4': '5',
                        'chars': ['1', '2'], 'locs': ['2', '1'], 'items': ['1']}
                    for i, t in (('1', 0), ('2', 0), ('3', 1), ('4', 2), ('5', 0))}}
    for k, x in (('characters', 'C'), ('locations', 'L'), ('items', 'I')):
        p[k] = [{'id': i, 'title': f'{x}{i}', 'desc': f'd{i}', 'aka': f'a{i}', 'tags': ['t'], 'image': 'i.png', 'link': 'l'} for i in ('1', '2')]
    for e in p['characters']:
        e.update(fullname='F', bio='b', goals='g', notes='n')
    # Some fields are empty at the beginning.
    p['scenes']['4'] = {'title': 'S4', 'type': 2}
    p['scenes']['5'] = {'title': 'S5', 'status': '2', 'content': 'content 5', 'chars': ['2']}
    p['chapters'][2].pop('desc')
    for k in ('characters', 'locations', 'items'):
        p[k].append({'id': '4', 'title': f'{k} 4'})
    return p


# -- edits, made with the real reader and writer (see C03)

def toggle(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return 3 if v != 3 else 4
    if isinstance(v, list):
        return [toggle(x) for x in v] or ['t']
    v = v or 'x'
    if v.isdigit():
        return '7' if v != '7' else '6'
    return v[:-1] if v.endswith('*') else v + '*'


ATTRS = {'scenes': ('title', 'desc', 'sceneContent', 'status', 'notes', 'tags', 'field1', 'field2', 'field3', 'field4', 'goal', 'conflict',
                    'outcome', 'image'),
         'chapters': ('title', 'desc'), 'characters': ('title', 'desc', 'aka', 'tags', 'bio', 'goals', 'notes', 'fullName', 'image', 'isMajor'),
         'locations': ('title', 'desc', 'aka', 'tags', 'image'), 'items': ('title', 'desc', 'aka', 'tags', 'image')}


def parts(n):
    return {'scenes': n.scenes, 'chapters': n.chapters, 'characters': n.characters, 'locations': n.locations, 'items': n.items}


def edit(path, op):
    f = sut.read(path)
    n = f.novel
    orders = {'characters': n.srtCharacters, 'locations': n.srtLocations, 'items': n.srtItems}
    if op in ('all', 'some'):
        for k, d in parts(n).items():
            for i, e in d.items():
                if op == 'some' and i not in ('1', '4'):
                    continue
                for a in ATTRS[k]:
                    v = getattr(e, a)
                    setattr(e, a, toggle({'status': 1, 'tags': [], 'isMajor': False, 'field1': '1', 'field2': '1', 'field3': '1', 'field4': '1'}.get(a) if v is None else v))
                if k == 'scenes':
                    e.isReactionScene = not e.isReactionScene
        if op == 'all':
            n.languageCode, n.countryCode = ('de', 'AT') if n.languageCode == 'en' else ('en', 'US')
    elif op == 'del':
        if '1' not in n.scenes and '3' not in n.scenes and '1' not in n.characters:
            return False
        for i in ('1', '3', '4'):
            n.scenes.pop(i, None)
            for c in n.chapters.values():
                if i in c.srtScenes:
                    c.srtScenes.remove(i)
        for k, srt in orders.items():
            parts(n)[k].pop('1', None)
            if '1' in srt:
                srt.remove('1')
            for s in n.scenes.values():
                refs = getattr(s, k)
                if refs and '1' in refs:
                    setattr(s, k, [x for x in refs if x != '1'])
    elif op == 'delch':
        if '5' not in n.chapters and '9' not in n.chapters:
            return False
        for c in ('5', '9'):
            if c in n.chapters:
                for s in n.chapters[c].srtScenes:
                    del n.scenes[s]
                del n.chapters[c]
                n.srtChapters.remove(c)
    elif op == 'add':
        if '20' in n.scenes:
            return False
        s = sut.Scene()
        s.title, s.sceneContent, s.desc, s.status, s.scType = 'new', 'new content', 'new desc', 1, 0
        n.scenes['20'] = s
        n.chapters['1'].srtScenes.insert(1, '20')
        c = sut.Chapter()
        c.title, c.desc, c.chLevel, c.chType = 'new', 'new desc', 0, 0
        n.chapters['20'] = c
        n.srtChapters.insert(0, '20')
        for k, srt in orders.items():
            e = (sut.Character if k == 'characters' else sut.WorldElement)()
            e.title, e.desc = 'new', 'new desc'
            parts(n)[k]['20'] = e
            srt.insert(0, '20')
    elif op == 'move':
        if '2' not in n.scenes or '5' not in n.chapters:
            return False
        here, there = ('1', '5') if '2' in n.chapters['1'].srtScenes else ('5', '1')
        n.chapters[here].srtScenes.remove('2')
        n.chapters[there].srtScenes.insert(0, '2')
        n.srtChapters.reverse()
        for srt in orders.values():
            srt.reverse()
    f.write()
    return True


# -- the model

def shown(path, part):
    """Return the IDs that a document refers to."""
    with zipfile.ZipFile(path) as z:
        text = z.read('content.xml').decode('utf-8')
    return set(re.findall(PREFIX[part] + r'(?:_desc)?:(\d+)', text))


def as_dict(view, part):
    return view[part] if part == 'scenes' else dict(view[part])


def snapshot(view, doc, path):
    part, attrs = OWNED[doc]
    ids = shown(path, part)
    if part == 'chapters':
        ids = {i for i in ids if (as_dict(view, part)[i].get('chLevel') == 1) == (doc == '_parts')}
    snap = {i: {a: as_dict(view, part)[i].get(a) for a in attrs} for i, __ in (view[part].items() if part == 'scenes' else view[part]) if i in ids}
    if doc == '_scenelist':
        for s in snap.values():
            for a in ('field1', 'field2', 'field3', 'field4'):
                s[a] = s[a] or '1'
    return snap, tuple(view['novel'].get(a) for a in ('languageCode', 'countryCode')) if doc in LOCALE else None


def imported(view, doc, snap):
    """Return the view after the import, as far as the elements exist."""
    v = copy.deepcopy(view)
    part = OWNED[doc][0]
    elems = as_dict(v, part)
    if doc in LISTS:
        # The rows are the elements, in this order.
        v[part] = [(i, elems[i]) for i in snap[0] if i in elems]
        ref = part
        for s in v['scenes'].values():
            if ref in s:
                s[ref] = [x for x in s[ref] if x in snap[0]]
                if not s[ref]:
                    del s[ref]
    for i, values in snap[0].items():
        if i in elems:
            for a, x in values.items():
                if x is None:
                    elems[i].pop(a, None)
                else:
                    elems[i][a] = x
    if snap[1]:
        v['novel']['languageCode'], v['novel']['countryCode'] = snap[1]
    return v


def without_new(view, old):
    """Remove the elements that are not in the old view."""
    v = copy.deepcopy(view)
    v['scenes'] = {i: s for i, s in v['scenes'].items() if i in old['scenes']}
    for part in ('chapters', 'characters', 'locations', 'items', 'notes'):
        v[part] = [(i, d) for i, d in v[part] if i in dict(old[part])]
    for __, c in v['chapters']:
        if 'srtScenes' in c:
            c['srtScenes'] = [i for i in c['srtScenes'] if i in old['scenes']]
            if not c['srtScenes']:
                del c['srtScenes']
    return v


def dangling(path):
    info = prj.load(path)
    out = []
    seen = []
    for c in info.get('CHAPTERS', []):
        seen += c.get('Scenes', (0, []))[1]
    out += [f'chapter shows missing scene {i}' for i in seen if i not in info['SCENES']]
    out += [f'scene {i} is twice in chapters' for i in set(seen) if seen.count(i) > 1]
    for part, tag in (('CHARACTERS', 'Characters'), ('LOCATIONS', 'Locations'), ('ITEMS', 'Items'), ('CHAPTERS', None)):
        ids = [e['ID'] for e in info.get(part, [])]
        if len(ids) != len(set(ids)):
            out.append(f'{part}: IDs {ids}')
        for i, s in info['SCENES'].items():
            out += [f'scene {i}: {tag} {x}' for x in s.get(tag, (0, []))[1] if x not in ids]
    return out


# -- exploration

def files(w):
    return {k: v for k, v in sut.listing(w.dir).items() if k.endswith(('.yw7', '.odt', '.ods'))}


def restore(w, state):
    for name in os.listdir(w.dir):
        os.remove(w.path(name))
    for name, data in state.items():
        with open(w.path(name), 'wb') as h:
            h.write(data)


def case(c, ctx):
    docs, depth, start, edits = c
    ops = edits + [[x, d] for d in docs for x in ('exp', 'imp')]
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(base(), path)
        sut.rewrite(path)
        view = sut.view(sut.read(path).novel)
        level = [(files(w), view, {}, ())]
        seen = set()
        for n in range(depth):
            following = []
            for state, view, snaps, done in level:
                for op in [start] if not n else ops:
                    if op[0] == 'imp' and op[1] not in snaps:
                        continue
                    restore(w, state)
                    r = step(ctx, w, path, view, snaps, op, done)
                    if r is None:
                        continue
                    new_view, new_snaps = r
                    key = repr((new_view, sorted((d, s[1], sorted(s[0].items())) for d, s in new_snaps.items())))
                    if key in seen:
                        continue
                    seen.add(key)
                    ctx.state((docs, start, key))
                    if op[0] == 'imp':
                        stable(ctx, path, new_view, done + (op,))
                    following.append((files(w), new_view, new_snaps, done + (op,)))
                    if len(ctx.violations) > 8:
                        return
            level = following
            if not level:
                ctx.bump('complete state spaces')
                break


def stable(ctx, path, view, done):
    bad = dangling(path)
    ctx.expect(not bad, 'dangling', f'{done}: {bad}')
    with open(path, 'rb') as h:
        data = h.read()
    sut.rewrite(path)
    again = sut.view(sut.read(path).novel)
    ctx.same([], prj.diff(view, again), 'save', f'{done}')
    with open(path, 'wb') as h:
        h.write(data)


def step(ctx, w, path, view, snaps, op, done):
    """Carry out one operation; return the new view and snapshots."""
    if isinstance(op, str):
        if not edit(path, op):
            return None
        ctx.step()
        return sut.view(sut.read(path).novel), snaps
    what, doc = op
    ctx.step()
    target = path[:-4] + doc + sut.EXPORTS[doc]
    with open(path, 'rb') as h:
        before = h.read()
    if what == 'exp':
        r = sut.convert(path, doc)
        if not ctx.expect(r.ok and not r.failed and os.path.isfile(target), 'export', f'{done + (op,)}: {r}'):
            return None
        with open(path, 'rb') as h:
            ctx.expect(h.read() == before, 'export-changes', f'{done + (op,)}')
        return view, {**snaps, doc: snapshot(view, doc, target)}
    ctx.trace()
    ctx.sample(done + (op,))
    with open(target, 'rb') as h:
        text = h.read()
    r = sut.convert(target)
    snap = snaps[doc]
    missing = [i for i in snap[0] if i not in as_dict(view, OWNED[doc][0])]
    with open(target, 'rb') as h:
        ctx.expect(h.read() == text, 'document', f'{done + (op,)}: the import changed the document')
    if r.failed or not r.ok:
        gone = missing or len([i for i, __ in view['chapters'] if i in ('1', '5', '9')]) < 3
        ctx.expect(gone, 'refused', f'{done + (op,)}: {r}')
        with open(path, 'rb') as h:
            ctx.expect(h.read() == before, 'refused-changes', f'{done + (op,)}')
        return view, snaps
    after = sut.view(sut.read(path).novel)
    old = without_new(after, view)
    expected = imported(view, doc, snap)
    ctx.same([], prj.diff(expected, old), f'import{doc}', f'{done + (op,)}')
    # Whatever is new was in the document.
    for part in PREFIX:
        new = [i for i in as_dict(after, part) if i not in as_dict(view, part)]
        if part == OWNED[doc][0]:
            new = [i for i in new if i not in snap[0]]
        if part == 'chapters' and OWNED[doc][0] in ('scenes', 'chapters'):
            new = [i for i in new if i not in ('1', '5', '9', '20')]
        ctx.expect(not new, f'new{doc}', f'{done + (op,)}: {part} {new}')
    return after, snaps
