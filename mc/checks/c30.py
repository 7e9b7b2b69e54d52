"""C30: an opened project stays what it is when documents are made from it, and reloading shows the file."""
import copy
import io
import itertools
import os
import re
import zipfile

from mc import prj, proj, sut

ID = 'C30'
TITLE = 'Exporting leaves the open project alone, and reloading shows the file'
LEVEL = 'model_checking'
RULE = ('All sequences of at most n operations on one opened project: replacing its file by another version of the project, damaging, locking, and '
        'unlocking it, reloading, editing, saving, and exporting documents with new and with already used exporters. After every operation what the '
        'open project shows must be what a model says: that of a newly opened project after reloading, unchanged after exports and '
        'refused reloads, and edited after edits. Saved files must hold the same, and every exported document must be identical with that of a '
        'project opened just for it. Distinct states: contents of the file and of the open project.')
ASSUMPTIONS = ['A project whose file could not be read is not used before it has been reloaded.',
               'Exporting may complete the language of a project that has none.']
BOUNDS = {'quick': 'all pairs of versions, with and without an operation between them; all pairs of exports; n=3 with two versions', 'thorough': 'all triples of versions and of exports; n=5 with two versions'}

OPS = ['other', 'damage', 'lock', 'reload', 'edit', 'edit2', 'save', 'export', 'again', 'list']
BETWEEN = ['save', 'damage', 'export']
DOCS = list(sut.EXPORTS)


def variants():
    rich = proj.rich()
    out = {'rich': rich, 'plain': proj.plain()}

    def less(name, f):
        p = copy.deepcopy(rich)
        f(p)
        out[name] = p

    for k in ('title', 'author', 'bio', 'desc', 'wordtarget', 'wordcountstart', 'fieldtitle1', 'fieldtitle2', 'fieldtitle4', 'fields', 'raw_project', 'raw_root', 'notes'):
        less(f'no {k}', lambda p: p.pop(k))
    less('no locale', lambda p: p.update(vars=[]))
    less('no language', lambda p: p.update(vars=[v for v in p['vars'] if 'lang=' not in v['title']]))
    for k in ('characters', 'locations', 'items'):
        less(f'one {k}', lambda p: p.update({k: p[k][:1]}))
        less(f'bare {k}', lambda p: p.update({k: [{'id': x['id'], 'title': x['title']} for x in reversed(p[k])]}))
    less('bare scenes', lambda p: p.update(scenes={i: {'title': s['title'], 'content': s['content'], 'status': '1'} for i, s in p['scenes'].items()}))

    def fewer(p):
        gone = {'1', '9', '31'}
        p['scenes'] = {i: s for i, s in p['scenes'].items() if i not in gone}
        for c in p['chapters']:
            c['scenes'] = [i for i in c['scenes'] if i not in gone]

    less('fewer scenes', fewer)

    def chapters(p):
        p['chapters'] = [c for c in p['chapters'] if c['id'] not in ('1', '5')]
        del p['scenes']['9']

    less('fewer chapters', chapters)
    less('bare chapters', lambda p: p.update(chapters=[{'id': c['id'], 'title': c['title'], 'scenes': c['scenes']} for c in p['chapters']]))
    less('other types', lambda p: (p['chapters'][1].update(type=2), [p['scenes'][i].update(type=2) for i in p['chapters'][1]['scenes']]))
    return out


VARIANTS = variants()
NAMES = list(VARIANTS)


def cases(tier):
    for a in NAMES:
        yield ['reload', a]
        if tier != 'quick':
            yield ['reload', a, a]
            for b in NAMES:
                yield ['reload3', a, b]
    for a in DOCS:
        for v in ('rich', 'plain', 'no locale', 'other types'):
            if tier == 'quick':
                yield ['exports', v, a, None]
            else:
                for b in DOCS:
                    yield ['exports', v, a, b]
    for a in DOCS:
        yield ['again', a]
    n = 3 if tier == 'quick' else 5
    for t in itertools.product(range(len(OPS)), repeat=2):
        yield ['history', n, list(t)]


def canon(name, data):
    """Return the content of a file without time stamps."""
    if not zipfile.is_zipfile(io.BytesIO(data)):
        return data
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return {n: re.sub(rb'\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d[.\dZ]*', b'', z.read(n)) if n == 'meta.xml' else z.read(n) for n in z.namelist()}


def put(path, name):
    prj.save(VARIANTS[name], path)


def load(path):
    with open(path, 'rb') as f:
        return f.read()


def exporter(path, suffix):
    for c in sut.Yw7Converter.EXPORT_TARGET_CLASSES:
        if c.SUFFIX == suffix:
            return c(path[:-4] + suffix + c.EXTENSION)


def made(x, novel):
    """Write the document; return its content, and remove it."""
    x.novel = novel
    x.write()
    with open(x.filePath, 'rb') as f:
        data = f.read()
    os.remove(x.filePath)
    if os.path.isfile(x.filePath + '.bak'):
        os.remove(x.filePath + '.bak')
    return canon(x.filePath, data)


def without(view, *names):
    view = dict(view)
    view['novel'] = {k: v for k, v in view['novel'].items() if k not in names}
    return view


def same_view(ctx, want, novel, kind, what, locale=False, languages=False):
    """The languages of the texts are collected when they are needed; a missing locale may be completed."""
    drop = [] if languages else ['languages']
    if locale and not {'languageCode', 'countryCode'} <= set(want['novel']):
        drop += ['languageCode', 'countryCode']
    d = prj.diff(without(want, *drop), without(sut.view(novel), *drop))
    return ctx.expect(not d, kind, f'{what}: ' + '; '.join(d[:5]))


def fresh(path):
    return sut.view(sut.read(path).novel)


_saved = {}


def saved(path, name):
    """Return the information in the file after a newly opened version was saved."""
    if name not in _saved:
        put(path, name)
        sut.rewrite(path)
        _saved[name] = prj.canonical(path)
    return _saved[name]


def clean(w):
    for n in os.listdir(w.dir):
        if n.endswith('.bak'):
            os.remove(os.path.join(w.dir, n))


def case(c, ctx):
    {'reload': reload, 'reload3': reload, 'exports': exports, 'again': again, 'history': history}[c[0]](c, ctx)


def reload(c, ctx):
    with sut.Work() as w:
        path = w.path('p.yw7')
        for b in NAMES:
            k = NAMES.index(c[1]) + NAMES.index(b)
            for between in (['', BETWEEN[k % 3]] if len(c) == 2 else [''] + BETWEEN):
                for a in c[1:]:
                    ctx.step()
                    if a == c[1]:
                        put(path, a)
                        f = sut.read(path)
                    else:
                        put(path, a)
                        f.read()
                if between == 'save':
                    f.write()
                elif between == 'damage':
                    with open(path, 'wb') as h:
                        h.write(prj.build(VARIANTS[b]).encode()[:-400])
                    try:
                        f.read()
                        ctx.violation('damaged', f'{c} {b}')
                    except sut.Error:
                        pass
                elif between == 'export':
                    made(exporter(path, '_manuscript'), f.novel)
                put(path, b)
                want = fresh(path)
                f.read()
                ctx.step()
                ctx.state([load(path), c[1:], between])
                what = f'{c[1:]}, {between or "then"}, {b}'
                if not same_view(ctx, want, f.novel, 'reloaded', what, languages=True):
                    return
                f.write()
                ctx.step()
                d = prj.diff(saved(w.path('q.yw7'), b), prj.canonical(path))
                ctx.expect(not d, 'saved', f'{what}: ' + '; '.join(d[:5]))
                ctx.trace()


def exports(c, ctx):
    __, v, a, b = c
    with sut.Work() as w:
        path = w.path('p.yw7')
        put(path, v)
        before = load(path)
        want = fresh(path)
        second = {}
        for s in [b] if b is not None else DOCS:
            f = sut.read(path)
            ref = made(exporter(path, s), f.novel)
            f = sut.read(path)
            for i, t in enumerate((a, s, a) if b is None else (a, s, b, a)):
                x = exporter(path, t)
                got = made(x, f.novel)
                ctx.step()
                if not same_view(ctx, want, f.novel, f'changed{t}', f'{c} {s} {i}', locale=True):
                    return
                if t == s and i == 1:
                    ctx.same(sorted(ref), sorted(got), 'files', [c, s])
                    for n in ref:
                        if ref[n] != got.get(n):
                            ctx.violation(f'document{t}', f'after {a}: {n}: {first(ref[n], got.get(n, b""))}')
                if t == a:
                    if t in second:
                        ctx.expect(second[t] == got, f'repeated{t}', f'{c} {s}')
                    second[t] = got
            ctx.state([v, a, s])
            ctx.same(before, load(path), 'project file', [c, s])
            # Saving writes the project as it was opened.
            f.write()
            d = prj.diff(saved(w.path('q.yw7'), v), prj.canonical(path))
            d = [x for x in d if 'no locale' != v or 'PROJECTVARS' not in x]
            ctx.expect(not d, 'saved', f'{c} {s}: ' + '; '.join(d[:5]))
            put(path, v)
            clean(w)
            ctx.trace()


def first(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'{a[max(0, i - 60):i + 60]!r} | {b[max(0, i - 60):i + 60]!r}'


def again(c, ctx):
    """The same exporter, after the project was reloaded."""
    s = c[1]
    with sut.Work() as w:
        path = w.path('p.yw7')
        for a, b in itertools.permutations(('rich', 'plain', 'fewer scenes', 'bare scenes', 'bare characters', 'bare items', 'bare locations', 'bare chapters', 'other types', 'no title'), 2):
            put(path, b)
            ref = made(exporter(path, s), sut.read(path).novel)
            put(path, a)
            f = sut.read(path)
            x = exporter(path, s)
            made(x, f.novel)
            put(path, b)
            f.read()
            got = made(x, f.novel)
            ctx.step(2)
            ctx.state([s, a, b])
            for n in sorted(set(ref) | set(got)):
                if ref.get(n) != got.get(n):
                    ctx.violation(f'again{s}', f'{a}, {b}: {n}: {first(ref.get(n, b""), got.get(n, b""))}')
                    return


def history(c, ctx):
    __, n, start = c
    for rest in itertools.product(range(len(OPS)), repeat=n - len(start)):
        one_history(ctx, [OPS[i] for i in start + list(rest)])
        if len(ctx.violations) >= 5:
            return


def one_history(ctx, h):
    with sut.Work() as w:
        path = w.path('p.yw7')
        which = 0
        names = ('fewer scenes', 'rich')
        put(path, names[0])
        f = sut.read(path)
        want = fresh(path)
        usable = True
        old = exporter(path, '_xref')
        for k, op in enumerate(h):
            what = f'{h[:k + 1]}'
            locked = os.path.exists(path + '.lock')
            disk = load(path)
            ctx.step()
            if op == 'other':
                which = 1 - which
                put(path, names[which])
            elif op == 'damage':
                with open(path, 'wb') as g:
                    g.write(prj.build(VARIANTS['rich']).encode()[:-400])
            elif op == 'lock':
                if locked:
                    os.remove(path + '.lock')
                else:
                    with open(path + '.lock', 'w'):
                        pass
            elif op == 'reload':
                try:
                    ref = None
                    if not locked:
                        ref = fresh(path)
                except sut.Error:
                    pass
                try:
                    f.read()
                except sut.Error:
                    if ref is not None:
                        ctx.violation('reload refused', what)
                        return
                    # What it shows need not be trusted now, unless nothing was read.
                    usable = False
                else:
                    if ref is None:
                        ctx.violation('reload accepted', what)
                        return
                    want, usable = ref, True
                ctx.same(disk, load(path), 'file changed by reloading', what)
                if not usable:
                    continue
            elif not usable:
                continue
            elif op == 'edit':
                i = next(iter(f.novel.scenes))
                f.novel.scenes[i].sceneContent = f'New text {k} [lang=es]uno[/lang=es]'
                f.novel.title = f'Title {k}'
                want = copy.deepcopy(sut.view(f.novel))
            elif op == 'edit2':
                for ch in f.novel.srtChapters:
                    if f.novel.chapters[ch].srtScenes:
                        i = f.novel.chapters[ch].srtScenes.pop()
                        del f.novel.scenes[i]
                        break
                if f.novel.srtItems:
                    i = f.novel.srtItems.pop(0)
                    del f.novel.items[i]
                    for s in f.novel.scenes.values():
                        if s.items and i in s.items:
                            s.items.remove(i)
                want = copy.deepcopy(sut.view(f.novel))
            elif op == 'save':
                try:
                    f.write()
                except sut.Error:
                    ctx.same(disk, load(path), 'file changed by a refused save', what)
                    if not locked:
                        ctx.violation('save refused', what)
                        return
                else:
                    if locked:
                        ctx.violation('save over a locked project', what)
                        return
                    same_view(ctx, want, sut.read(path).novel, 'saved', what)
            elif op in ('export', 'again', 'list'):
                suffix = {'export': '_manuscript', 'again': '_xref', 'list': '_scenelist'}[op]
                x = old if op == 'again' else exporter(path, suffix)
                got = made(x, f.novel)
                # Compare with the document of a project opened for it.
                other = sut.Yw7File(w.path('r.yw7'))
                other.novel = copy.deepcopy(f.novel)
                other.write()
                other = sut.read(other.filePath)
                os.remove(other.filePath)
                ref = made(exporter(path, suffix), other.novel)
                for m in sorted(set(ref) | set(got)):
                    if ref.get(m) != got.get(m):
                        ctx.violation(f'history{suffix}', f'{what}: {m}: {first(ref.get(m, b""), got.get(m, b""))}')
                ctx.same(disk, load(path), 'file changed by exporting', what)
            if usable and not same_view(ctx, want, f.novel, f'shown after {op}', what, languages=op == 'reload'):
                return
            if ctx.state([load(path), repr(sut.view(f.novel)), usable, locked]):
                ctx.trace()
