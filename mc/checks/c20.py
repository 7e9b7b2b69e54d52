"""C20: custom fields of any kind of element survive, change, and go as told."""
import copy
import itertools

from mc import prj, sut

from pywriter.yw.yw7_purge import reset_custom_variables, remove_language_tags

ID = 'C20'
TITLE = 'Custom fields and their removal affect exactly the fields in question'
LEVEL = 'model_checking'
RULE = ('A project file class with two custom fields for each of the seven kinds of elements. State: the values of both fields '
        'of two elements of a kind (and of the project). From every state of the file, every history of at most n edits '
        '(set to one of two texts, cleared by the empty text, None, or by deleting the entry), each saved and continued in the same session or after '
        'reopening: the reopened project and the file must hold exactly the values of the model, with all other fields and elements as they were. '
        'Purging: every combination of kinds that have values, every state of one kind; it reports whether something was '
        'removed, and after saving exactly the custom fields are gone. Language tags: all texts of at most m tokens. '
        'States: distinct field states; transitions: saved edits.')
ASSUMPTIONS = ['A subclass that defines project fields keeps the two fields of the base class.',
               'Fields of locations, items, characters, and project notes that the class does not define are not kept, because these sections are rebuilt.']
BOUNDS = {'quick': 'n=1 from every state, n=2 from the empty state; m=4', 'thorough': 'n=2 from every state, m=5'}

A, B = 'Field_MyA', 'Field_MyB'
KINDS = ('project', 'chapter', 'scene', 'character', 'location', 'item', 'note')
T1, T2 = 'x', 'y & <z> ]]>'
VALUES = (None, T1, T2)
EDITS = (T1, T2, '', None, 'del')


class CustomFile(sut.Yw7File):
    PRJ_KWVAR = sut.Yw7File.PRJ_KWVAR + [A, B]
    CHP_KWVAR = sut.Yw7File.CHP_KWVAR + [A, B]
    SCN_KWVAR = sut.Yw7File.SCN_KWVAR + [A, B]
    CRT_KWVAR = sut.Yw7File.CRT_KWVAR + [A, B]
    LOC_KWVAR = sut.Yw7File.LOC_KWVAR + [A, B]
    ITM_KWVAR = sut.Yw7File.ITM_KWVAR + [A, B]
    PNT_KWVAR = sut.Yw7File.PNT_KWVAR + [A, B]


def vals(d):
    return {k: v for k, v in zip((A, B), d) if v is not None}


def project(kind, one, two, native=False):
    """Build a project; kind None: fields of every kind."""

    def rec(k, n, **kw):
        f = {'project': {'Field_Unknown': 'u & v'}, 'chapter': {'Field_Unknown': 'cu'}, 'scene': {'Field_Unknown': 'su'}}.get(k, {})
        f = dict(f) if native else {}
        state = (one, two)[n] if kind == k else (None, None)
        if isinstance(kind, (tuple, list)) and k in kind:
            state = (one, two)[n]
        f.update(vals(state))
        kw['fields'] = f
        return kw

    nat = {'link': 'l & m'} if native else {}
    p = rec('project', 0, title='T', author='A')
    p['chapters'] = [rec('chapter', 0, id='5', title='K5', scenes=['1']), rec('chapter', 1, id='1', title='K1', scenes=['2'])]
    if native:
        p['chapters'][0].update(suppresstitle=True, trash=True)
    p['scenes'] = {'1': rec('scene', 0, title='S1', content='c1'), '2': rec('scene', 1, title='S2', content='c2')}
    if native:
        p['scenes']['1'].update(arcs='arc', mode='2')
        p['scenes']['2'].update(type=2)
    p['characters'] = [rec('character', 0, id='2', title='C2', **nat), rec('character', 1, id='1', title='C1')]
    p['locations'] = [rec('location', 0, id='3', title='L3', **nat), rec('location', 1, id='1', title='L1')]
    p['items'] = [rec('item', 0, id='4', title='I4', **nat), rec('item', 1, id='1', title='I1')]
    p['notes'] = [rec('note', 0, id='7', title='N7', desc='d'), rec('note', 1, id='1', title='N1')]
    p['vars'] = [{'id': '1', 'title': 'Language', 'desc': 'en', 'tags': '0'}, {'id': '2', 'title': 'Country', 'desc': 'US', 'tags': '0'}]
    return p


def cases(tier):
    pairs = list(itertools.product(VALUES, repeat=2))
    for kind in KINDS:
        for one in pairs:
            for two in pairs if kind != 'project' else [(None, None)]:
                if tier == 'thorough':
                    for native in (False, True):
                        yield ['edit', kind, one, two, native, 2]
                else:
                    yield ['edit', kind, one, two, one != two, 2 if one == two == (None, None) else 1]
    for r in range(len(KINDS) + 1):
        for kinds in itertools.combinations(KINDS, r):
            for one, two in (((T1, None), (None, T2)), ((None, T1), (T1, T1)), ((T2, T1), (None, None))):
                yield ['purge', list(kinds), one, two, True]
                yield ['purge', list(kinds), one, two, False]
                yield ['new', list(kinds), one, two]
    for kind in KINDS:
        for one in pairs:
            for two in pairs:
                yield ['purge', [kind], one, two, True]
    n = 4 if tier == 'quick' else 5
    for first in range(len(TOKENS)):
        for second in range(len(TOKENS)):
            yield ['lang', n, first, second]
    yield ['lang', 1, None, None]


def records(info, kind):
    if kind == 'project':
        return [info['PROJECT']]
    if kind == 'scene':
        return [info['SCENES'][i] for i in ('1', '2')]
    return info[{'chapter': 'CHAPTERS', 'character': 'CHARACTERS', 'location': 'LOCATIONS', 'item': 'ITEMS', 'note': 'PROJECTNOTES'}[kind]]


def elements(novel, kind):
    if kind == 'project':
        return [novel]
    if kind == 'scene':
        return [novel.scenes[i] for i in ('1', '2')]
    part, srt = {'chapter': (novel.chapters, novel.srtChapters), 'character': (novel.characters, novel.srtCharacters),
                 'location': (novel.locations, novel.srtLocations), 'item': (novel.items, novel.srtItems),
                 'note': (novel.projectNotes, novel.srtPrjNotes)}[kind]
    return [part[i] for i in srt]


def read(path):
    f = CustomFile(path)
    f.novel = sut.Novel()
    f.read()
    return f


def stored(path):
    """Return the custom fields in the file, and the rest of the file."""
    info = prj.load(path)
    out = {}
    for kind in KINDS:
        out[kind] = []
        for r in records(info, kind):
            f = r.get('Fields', {})
            out[kind].append({k: f.pop(k) for k in (A, B) if k in f})
            if not f:
                r.pop('Fields', None)
    return out, prj.canon(info)


def shown(novel):
    return {k: [{x: e.kwVar[x] for x in (A, B) if e.kwVar.get(x)} for e in elements(novel, k)] for k in KINDS}


def rest_view(novel):
    v = sut.view(novel)

    def strip(d):
        kw = {k: x for k, x in d.pop('kwVar', {}).items() if k not in (A, B)}
        if kw:
            d['kwVar'] = kw

    strip(v['novel'])
    for s in v['scenes'].values():
        strip(s)
    for part in ('chapters', 'characters', 'locations', 'items', 'notes'):
        for __, d in v[part]:
            strip(d)
    return v


def model(kind, one, two):
    m = {k: [{}] if k == 'project' else [{}, {}] for k in KINDS}
    for k in KINDS:
        if k == kind or isinstance(kind, (tuple, list)) and k in kind:
            m[k][0] = vals(one)
            if k != 'project':
                m[k][1] = vals(two)
    return m


def case(c, ctx):
    if c[0] == 'lang':
        return language(c, ctx)
    kind, one, two = c[1], c[2], c[3]
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(project(kind, one, two, c[0] != 'new' and c[4]), path)
        f = read(path)
        m = model(kind, one, two)
        got, rest = stored(path)
        if not (ctx.same(m, got, 'machinery') and ctx.same(m, shown(f.novel), 'read', f'{c}')):
            return
        view = rest_view(f.novel)
        if c[0] == 'edit':
            ctx.state((kind, one, two))
            edits(ctx, c, f, m, rest, view, c[5], ())
        elif c[0] == 'new':
            g = CustomFile(w.path('new.yw7'))
            g.novel = f.novel
            g.write()
            ctx.step()
            ctx.trace()
            ctx.state(('new', c[1], one, two))
            agree(ctx, c, g.filePath, m, None, view, 'saved to a new file')
        else:
            had = any(d for k in KINDS for d in m[k])
            before = any(x for x in (f.novel.kwVar, *(e.kwVar for k in KINDS for e in elements(f.novel, k))) for x in x.values())
            said = reset_custom_variables(f)
            ctx.expect(bool(said) == bool(before), 'purge-report', f'{c}: {said}')
            f.write()
            ctx.step()
            ctx.trace()
            ctx.state(('purge', c[1], one, two, c[4]))
            # The fields the program itself defines are custom fields, too.
            drop = {'kwVar', 'scnArcs', 'scnMode'}
            view['novel'] = {k: v for k, v in view['novel'].items() if k not in drop}
            view['scenes'] = {i: {k: v for k, v in s.items() if k not in drop} for i, s in view['scenes'].items()}
            for part in ('chapters', 'characters', 'locations', 'items', 'notes'):
                view[part] = [(i, {k: v for k, v in d.items() if k not in drop}) for i, d in view[part]]
            for e in rest['CHARACTERS'] + rest['LOCATIONS'] + rest['ITEMS']:
                e.pop('Fields', None)
            for e in rest['SCENES'].values():
                for k in ('Field_SceneArcs', 'Field_SceneMode'):
                    e.get('Fields', {}).pop(k, None)
                if not e.get('Fields'):
                    e.pop('Fields', None)
            agree(ctx, c, path, model((), None, None), rest, view, f'purged, had {had}')


def agree(ctx, c, path, m, rest, view, what):
    got, now = stored(path)
    ctx.same(m, got, 'file', f'{c}: {what}')
    if rest is not None:
        ctx.same([], prj.diff(rest, now), 'rest-file', f'{c}: {what}')
    f = read(path)
    ctx.same(m, shown(f.novel), 'reopened', f'{c}: {what}')
    ctx.same([], prj.diff(view, rest_view(f.novel)), 'rest', f'{c}: {what}')
    return f


def edits(ctx, c, f, m, rest, view, n, done):
    kind = c[1]
    with open(f.filePath, 'rb') as h:
        data = h.read()
    for which in range(len(m[kind])):
        for name in (A, B):
            for v in EDITS:
                m2 = copy.deepcopy(m)
                g = copy.deepcopy(f)
                e = elements(g.novel, kind)[which]
                m2[kind][which].pop(name, None)
                if v == 'del':
                    e.kwVar.pop(name, None)
                else:
                    e.kwVar[name] = v
                    if v:
                        m2[kind][which][name] = v
                g.write()
                ctx.step()
                ctx.trace()
                here = done + ((which, name, v),)
                r = agree(ctx, c, g.filePath, m2, rest, view, here)
                ctx.sample([kind, *here])
                if n > 1:
                    with open(g.filePath, 'rb') as h:
                        after = h.read()
                    edits(ctx, c, g, m2, rest, view, n - 1, here)
                    with open(g.filePath, 'wb') as h:
                        h.write(after)
                    edits(ctx, c, r, m2, rest, view, n - 1, here + ('reopen',))
                with open(g.filePath, 'wb') as h:
                    h.write(data)


TOKENS = ['a', 'b c', ' ', '\n', '[lang=de]', '[/lang=de]', '[lang=fr-CH]', '[/lang=fr-CH]', '[i]', '[/i]', '[', ']', 'lang=', '/* [i] */']


def strip_tags(text):
    """Remove language tags by scanning."""
    out = []
    i = 0
    while i < len(text):
        for head in ('[lang=', '[/lang='):
            if text.startswith(head, i):
                end = text.find(']', i)
                line = text.find('\n', i)
                if end >= 0 and (line < 0 or end < line):
                    i = end + 1
                    break
        else:
            out.append(text[i])
            i += 1
    return ''.join(out)


def language(c, ctx):
    for r in range(c[1] - 1) if c[2] is not None else range(2):
        for rest in itertools.product(TOKENS, repeat=r):
            text = ('' if c[2] is None else TOKENS[c[2]] + TOKENS[c[3]]) + ''.join(rest)
            n = sut.Novel()
            n.srtChapters = ['1']
            n.chapters['1'] = sut.Chapter()
            n.chapters['1'].srtScenes = ['1', '2']
            for i, t in (('3', None), ('1', text), ('2', 'x [lang')):
                n.scenes[i] = sut.Scene()
                if t is not None:
                    n.scenes[i].sceneContent = t
            want = strip_tags(text)
            said = remove_language_tags(n)
            ctx.step()
            ctx.trace()
            ctx.key(text)
            ctx.expect((n.scenes['1'].sceneContent, n.scenes['2'].sceneContent, n.scenes['3'].sceneContent) == (want, 'x [lang', None),
                       'language-tags', f'{text!r} -> {n.scenes["1"].sceneContent!r}, expected {want!r}')
            ctx.expect(bool(said) == (want != text), 'language-report', f'{text!r}: {said}')
