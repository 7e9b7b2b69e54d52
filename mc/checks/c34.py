"""C34: whatever sequence of imports, splits, purges, and edits a project goes through, its file stays a consistent project."""
import copy
import itertools
import os
import xml.etree.ElementTree as ET

from mc import editor, prj, proj, sut
from mc.checks import c09

from pywriter.model.id_generator import create_id  # noqa: E402
from pywriter.yw.yw7_purge import reset_custom_variables  # noqa: E402

ID = 'C34'
TITLE = 'A project stays consistent, whatever mix of operations it goes through'
LEVEL = 'model_checking'
RULE = ('All sequences of at most n operations on one project file, each on the reopened file: adding, deleting, moving, and relating chapters, scenes, '
        'characters, locations, items, and notes; lists imported with added, deleted, moved, and renamed rows; manuscripts imported with new scenes, '
        'chapters, and parts; unchanged documents of each type imported; custom fields purged; texts in new languages. After each operation, the file, read as plain XML, must hold '
        'each part once, only known and unique IDs, each scene in one chapter, no reference to something that does not exist, and no element '
        'twice; the names, order, relations, texts, and foreign content it shows must be those of a model that knows names only, no IDs, so that '
        'nothing new inherits anything from what was deleted before. Distinct states: model states.')
ASSUMPTIONS = ['Elements that are deleted with the programming interface are taken from the dictionary and the list, the way the program does it itself.']
BOUNDS = {'quick': 'n=2 over all operations, n=3 over 12 structural operations',
          'thorough': 'n=3 over all operations, n=4 over 12 structural operations, and n=5 over 6'}

KINDS = {'characters': '_charlist', 'locations': '_loclist', 'items': '_itemlist'}
REFS = {'characters': ('Characters', 'CharID'), 'locations': ('Locations', 'LocID'), 'items': ('Items', 'ItemID')}
RECORDS = {'LOCATIONS': 'LOCATION', 'ITEMS': 'ITEM', 'CHARACTERS': 'CHARACTER', 'PROJECTNOTES': 'PROJECTNOTE', 'PROJECTVARS': 'PROJECTVAR', 'SCENES': 'SCENE',
           'CHAPTERS': 'CHAPTER'}
DOCS = [s for s in sut.IMPORTS]

OPS = []
for _k in KINDS:
    OPS += [['add', _k], ['del', _k, 0], ['del', _k, -1], ['row add', _k], ['row del', _k, 0], ['row del', _k, -1], ['row turn', _k], ['row name', _k], ['row twice', _k],
            ['link', _k, 0], ['link', _k, -1], ['unlink', _k]]
OPS += [['add note'], ['del note'], ['add scene', 0, 0], ['add scene', -1, 9], ['del scene', 0], ['del scene', -1], ['move scene'],
        ['add chapter', 0, 0], ['add chapter', 9, 1], ['del chapter', 0], ['del chapter', -1], ['move chapter'],
        ['split', '###'], ['split', '##'], ['split', '#'], ['purge'], ['speak', 'fr-CA'], ['speak', 'de-DE']]
OPS += [['import', s] for s in DOCS]
CORE = [['add', 'characters'], ['row del', 'characters', 0], ['row add', 'characters'], ['link', 'characters', 0], ['del', 'characters', -1],
        ['add scene', 0, 0], ['del scene', 0], ['add chapter', 0, 0], ['del chapter', 0], ['split', '###'], ['split', '##'], ['move scene']]
INNER = [['row del', 'characters', 0], ['row add', 'characters'], ['link', 'characters', 0], ['del scene', 0], ['split', '##'], ['del chapter', 0]]


def cases(tier):
    for a in OPS:
        yield [[a], 'all', 1 if tier == 'quick' else 2]
    for a in CORE:
        if tier == 'quick':
            yield [[a], 'core', 2]
        else:
            for b in CORE:
                yield [[a, b], 'core', 2]
    if tier != 'quick':
        for a in itertools.product(INNER, repeat=2):
            yield [list(a), 'inner', 3]


def project():
    p = proj.plain()
    p['characters'] = [{'id': i, 'title': f'C{i}', 'desc': f'about C{i}'} for i in ('3', '1', '12')]
    p['locations'] = [{'id': i, 'title': f'L{i}', 'tags': [f'L{i}']} for i in ('2', '1')]
    p['items'] = [{'id': i, 'title': f'I{i}', 'aka': f'I{i}'} for i in ('1', '4')]
    p['notes'] = [{'id': i, 'title': f'N{i}', 'desc': 'n'} for i in ('1', '3')]
    p['scenes'] = {}
    for i, refs in (('2', ([0, 1], [1], [0])), ('1', ([2, 0], [0, 1], [1])), ('5', ([], [], [])), ('4', ([1], [0], [1, 0]))):
        p['scenes'][i] = proj.scene(title=f'S{i}', content=f'Text of S{i}.', raw=f'<Foreign>S{i}</Foreign>',
                                    chars=[p['characters'][n]['id'] for n in refs[0]], locs=[p['locations'][n]['id'] for n in refs[1]],
                                    items=[p['items'][n]['id'] for n in refs[2]])
    p['scenes']['4']['content'] = 'Text [lang=de-DE]von[/lang=de-DE] S4.'
    for n, x in enumerate(('lang=de-DE', '/lang=de-DE', 'own')):
        p['vars'].append({'id': str(n + 3), 'title': x, 'desc': x, 'tags': '0'})
    p['chapters'] = [{'id': '2', 'title': 'H2', 'scenes': ['2', '1'], 'level': 1}, {'id': '4', 'title': 'H4', 'scenes': []},
                     {'id': '1', 'title': 'H1', 'scenes': ['4', '5']}]
    return p


def start():
    p = project()
    m = {k: [e['title'] for e in p[k]] for k in (*KINDS, 'notes')}
    names = {k: {e['id']: e['title'] for e in p[k]} for k in KINDS}
    m['chapters'] = [[c['title'], 1 if c.get('level') else 0, [p['scenes'][i]['title'] for i in c['scenes']]] for c in p['chapters']]
    m['vars'] = sorted(v['title'] for v in p['vars'])
    m['scenes'] = {}
    for s in p['scenes'].values():
        m['scenes'][s['title']] = {'text': s['content'], 'foreign': s['title'],
                                   **{k: [names[k][i] for i in s[f]] for k, f in (('characters', 'chars'), ('locations', 'locs'), ('items', 'items'))}}
    return m


def fresh(text):
    return {'text': text, 'foreign': '', 'characters': [], 'locations': [], 'items': []}


def drop(m, kind, name):
    m[kind].remove(name)
    for s in m['scenes'].values():
        s[kind] = [x for x in s[kind] if x != name]


# -- the model: return False if the operation does not apply.
def apply_model(m, op, new):
    """new is the name of what may be created."""
    name = op[0]
    order = [s for __, __, scenes in m['chapters'] for s in scenes]
    if name == 'add':
        m[op[1]].append(new)
    elif name in ('del', 'row del'):
        if not m[op[1]]:
            return False
        drop(m, op[1], m[op[1]][op[2]])
    elif name == 'row add':
        m[op[1]].insert(0, new)
    elif name == 'row turn':
        if len(m[op[1]]) < 2:
            return False
        m[op[1]].reverse()
    elif name in ('row name', 'row twice'):
        if not m[op[1]]:
            return False
        old = m[op[1]][0]
        m[op[1]][0] = new
        for s in m['scenes'].values():
            s[op[1]] = [new if x == old else x for x in s[op[1]]]
    elif name in ('link', 'unlink'):
        if not order:
            return False
        if name == 'link':
            m['scenes'][order[op[2]]][op[1]] = list(m[op[1]])
        else:
            m['scenes'][order[0]][op[1]] = []
    elif name == 'add note':
        m['notes'].append(new)
    elif name == 'del note':
        if not m['notes']:
            return False
        del m['notes'][0]
    elif name == 'add scene':
        if not m['chapters']:
            return False
        m['chapters'][op[1]][2].insert(op[2], new)
        m['scenes'][new] = fresh('New text.')
    elif name == 'del scene':
        if not order:
            return False
        gone = order[op[1]]
        del m['scenes'][gone]
        for c in m['chapters']:
            c[2] = [s for s in c[2] if s != gone]
    elif name == 'move scene':
        if not order:
            return False
        for c in m['chapters']:
            c[2] = [s for s in c[2] if s != order[0]]
        m['chapters'][-1][2].append(order[0])
    elif name == 'add chapter':
        m['chapters'].insert(op[1], [new, op[2], []])
    elif name == 'del chapter':
        if not m['chapters']:
            return False
        for s in m['chapters'][op[1]][2]:
            del m['scenes'][s]
        del m['chapters'][op[1]]
    elif name == 'move chapter':
        if len(m['chapters']) < 2:
            return False
        m['chapters'].append(m['chapters'].pop(0))
    elif name == 'speak':
        if not order:
            return False
        m['scenes'][order[-1]]['text'] = f'A [lang={op[1]}]word[/lang={op[1]}].'
        m['vars'] = sorted({*m['vars'], f'lang={op[1]}', f'/lang={op[1]}'})
    elif name == 'split':
        if not order:
            return False
        at = order[0]
        m['scenes'][new] = fresh('Second half.')
        m['scenes'][at]['text'] = 'First half.'
        for n, c in enumerate(m['chapters']):
            if at in c[2]:
                k = c[2].index(at) + 1
                if op[1] == '###':
                    c[2].insert(k, new)
                else:
                    rest = c[2][k:]
                    c[2] = c[2][:k]
                    m['chapters'].insert(n + 1, [f'H{new}', 1 if op[1] == '#' else 0, [new] + rest])
                break
    return True


# -- the code under test
def edit_novel(n, op, new):
    name = op[0]
    parts = {'characters': (n.characters, n.srtCharacters, sut.Character), 'locations': (n.locations, n.srtLocations, sut.WorldElement),
             'items': (n.items, n.srtItems, sut.WorldElement), 'notes': (n.projectNotes, n.srtPrjNotes, sut.BasicElement)}
    order = [i for c in n.srtChapters for i in n.chapters[c].srtScenes]
    if name in ('add', 'add note'):
        d, srt, cls = parts['notes' if name == 'add note' else op[1]]
        i = create_id(d)
        d[i] = cls()
        d[i].title = new
        srt.append(i)
    elif name in ('del', 'del note'):
        d, srt, __ = parts['notes' if name == 'del note' else op[1]]
        del d[srt.pop(0 if name == 'del note' else op[2])]
    elif name == 'link':
        setattr(n.scenes[order[op[2]]], op[1], list(parts[op[1]][1]))
    elif name == 'unlink':
        setattr(n.scenes[order[0]], op[1], [])
    elif name == 'add scene':
        i = create_id(n.scenes)
        n.scenes[i] = sut.Scene()
        n.scenes[i].title, n.scenes[i].sceneContent, n.scenes[i].status = new, 'New text.', 1
        n.chapters[n.srtChapters[op[1]]].srtScenes.insert(op[2], i)
    elif name in ('del scene', 'move scene'):
        i = order[op[1] if name == 'del scene' else 0]
        for c in n.chapters.values():
            if i in c.srtScenes:
                c.srtScenes.remove(i)
        if name == 'del scene':
            del n.scenes[i]
        else:
            n.chapters[n.srtChapters[-1]].srtScenes.append(i)
    elif name == 'add chapter':
        i = create_id(n.chapters)
        n.chapters[i] = sut.Chapter()
        n.chapters[i].title, n.chapters[i].chLevel, n.chapters[i].chType = new, op[2], 0
        n.srtChapters.insert(op[1], i)
    elif name == 'del chapter':
        i = n.srtChapters.pop(op[1])
        for s in n.chapters[i].srtScenes:
            del n.scenes[s]
        del n.chapters[i]
    elif name == 'move chapter':
        n.srtChapters.append(n.srtChapters.pop(0))
    elif name == 'speak':
        n.scenes[order[-1]].sceneContent = f'A [lang={op[1]}]word[/lang={op[1]}].'
    elif name == 'split':
        head = f'### {new}' if op[1] == '###' else f'{op[1]} H{new}\n### {new}'
        n.scenes[order[0]].sceneContent = f'First half.\n{head}\nSecond half.'


def apply_real(path, op, new):
    """Return the warnings."""
    name = op[0]
    if name.startswith('row'):
        suffix = KINDS[op[1]]
        doc = sut.export(path, suffix)
        view = sut.view(sut.read(path).novel)
        old = c09.show(suffix, view)
        rows = copy.deepcopy(old)
        if name == 'row add':
            rows.insert(0, [create_id([r[0] for r in rows]), new] + [''] * (len(c09.COLS[suffix]) - 1))
        elif name == 'row del':
            del rows[op[2]]
        elif name == 'row turn':
            rows.reverse()
        elif name == 'row twice':
            # The row was copied, and only the name of the copy was changed.
            rows.insert(1, list(rows[0]))
            rows[1][1] = new
        else:
            rows[0][1] = new
        editor.edit(doc, doc, c09.put_rows(old, rows, suffix, 'spans' if name == 'row twice' else 'plain'))
        return sut.imp(doc).ui.warnings
    if name == 'import':
        return sut.imp(sut.export(path, op[1])).ui.warnings
    f = sut.read(path)
    if name == 'purge':
        reset_custom_variables(f)
    else:
        edit_novel(f.novel, op, new)
    f.write()
    if name == 'split':
        return sut.imp(sut.export(path, '_manuscript')).ui.warnings
    return []


def problems(root):
    """What is wrong with a project file."""
    out = []
    if root.tag != 'YWRITER7':
        out.append(f'root {root.tag}')
    tags = [e.tag for e in root]
    out += [f'{t} twice' for t in sorted(set(tags)) if tags.count(t) > 1]
    out += [f'{t} missing' for t in ('PROJECT', 'SCENES', 'CHAPTERS', 'LOCATIONS', 'ITEMS', 'CHARACTERS') if t not in tags]
    ids = {}
    for t, record in RECORDS.items():
        ids[t] = []
        for e in root.find(t) if t in tags else ():
            names = [x.tag for x in e]
            if e.tag != record:
                out.append(f'{e.tag} in {t}')
            out += [f'{x} twice in {record}' for x in sorted(set(names)) if names.count(x) > 1]
            i = e.findtext('ID') or ''
            if not i.isdigit() or i in ids[t]:
                out.append(f'ID {i!r} of {record}')
            ids[t].append(i)
    used = [e.text for e in root.iterfind('CHAPTERS/CHAPTER/Scenes/ScID')]
    if sorted(used) != sorted(ids['SCENES']):
        out.append(f'scenes {ids["SCENES"]}, in chapters {used}')
    for group, tag in REFS.values():
        for s in root.iterfind('SCENES/SCENE'):
            have = [e.text for e in s.iterfind(f'{group}/{tag}')]
            known = ids[group.upper()]
            if len(set(have)) < len(have) or not set(have) <= set(known):
                out.append(f'{group} {have} of scene {s.findtext("ID")}, known {known}')
    titles = [e.findtext('Title') for e in root.iterfind('PROJECTVARS/PROJECTVAR')]
    if len(set(titles)) < len(titles):
        out.append(f'project variables {titles}')
    return out


def shown(root):
    """The names in the file."""
    names = {k: {e.findtext('ID'): e.findtext('Title') for e in root.iterfind(f'{g.upper()}/*')} for k, (g, __) in REFS.items()}
    names['notes'] = {e.findtext('ID'): e.findtext('Title') for e in root.iterfind('PROJECTNOTES/*')}
    m = {k: list(v.values()) for k, v in names.items()}
    scenes = {e.findtext('ID'): e for e in root.iterfind('SCENES/SCENE')}
    m['chapters'] = [[c.findtext('Title'), 1 if c.find('SectionStart') is not None else 0,
                      [scenes[x.text].findtext('Title') for x in c.iterfind('Scenes/ScID')]] for c in root.iterfind('CHAPTERS/CHAPTER')]
    m['vars'] = sorted(e.findtext('Title') for e in root.iterfind('PROJECTVARS/PROJECTVAR'))
    m['scenes'] = {}
    for s in scenes.values():
        m['scenes'][s.findtext('Title')] = {'text': s.findtext('SceneContent') or '', 'foreign': s.findtext('Foreign') or '',
                                            **{k: [names[k][x.text] for x in s.iterfind(f'{g}/{t}')] for k, (g, t) in REFS.items()}}
    return m


def model_of_novel(n):
    """The names in an opened project."""
    part = {'characters': n.characters, 'locations': n.locations, 'items': n.items}
    m = {'characters': [n.characters[i].title for i in n.srtCharacters], 'locations': [n.locations[i].title for i in n.srtLocations],
         'items': [n.items[i].title for i in n.srtItems], 'notes': [n.projectNotes[i].title for i in n.srtPrjNotes]}
    m['chapters'] = [[n.chapters[i].title, n.chapters[i].chLevel or 0, [n.scenes[s].title for s in n.chapters[i].srtScenes]] for i in n.srtChapters]
    m['scenes'] = {s.title: {'text': s.sceneContent or '', **{k: [part[k][i].title for i in getattr(s, k) or ()] for k in part}} for s in n.scenes.values()}
    return m


def case(c, ctx):
    first, alphabet, n = c
    last = {'all': OPS, 'core': CORE, 'inner': INNER}[alphabet]
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(project(), path)
        m = start()
        sut.rewrite(path)
        if not agree(ctx, path, m, ['opened']):
            return
        done = []
        for op in first:
            if not (m := step(ctx, path, m, op, done, n == 1 or len(done) + 1 == len(first))):
                return
            done.append(op)
        explore(ctx, path, m, done, last, n)


def explore(ctx, path, m, done, ops, n):
    if not n:
        return
    with open(path, 'rb') as h:
        data = h.read()
    for op in ops:
        k = step(ctx, path, m, op, done, True)
        if k:
            explore(ctx, path, k, done + [op], ops, n - 1)
        with open(path, 'wb') as h:
            h.write(data)


def step(ctx, path, m, op, done, judge):
    """Return the model state after an operation, or None."""
    m = copy.deepcopy(m)
    new = f'new{len(done)}'
    if not apply_model(m, op, new):
        return None
    warnings = apply_real(path, op, new)
    ctx.step()
    if judge:
        ctx.trace()
        if not agree(ctx, path, m, done + [op]):
            return None
        ctx.same(op[0] == 'split', 'New scenes created during conversion.' in warnings, 'warning', done + [op])
    return m


def agree(ctx, path, m, trace):
    ctx.state(m)
    root = ET.parse(path).getroot()
    found = problems(root)
    if found:
        ctx.violation('inconsistent', f'{trace}: ' + '; '.join(found[:4]))
        return False
    if not ctx.same(m, shown(root), 'file', trace):
        return False
    want = copy.deepcopy(m)
    del want['vars']
    for s in want['scenes'].values():
        del s['foreign']
    return ctx.same(want, model_of_novel(sut.read(path).novel), 'reopened', trace)
