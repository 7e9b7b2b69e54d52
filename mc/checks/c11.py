"""C11: every document contains exactly the chapters and scenes it is for, in order."""
import itertools

from mc import docmodel, odf, prj, proj, sut

ID = 'C11'
TITLE = 'Exports contain exactly the chapters and scenes they are for, in order'
LEVEL = 'exploration'
RULE = ('One evaluation is one project exported to one kind of document, compared block by block with an independent model of '
        'the document (headings and their levels, sections, paragraph styles of scene beginnings, dividers, suppressed titles, '
        'scene numbers and totals). All chapters with at most n scenes over the product of chapter types, levels, and '
        'title suppression with scene types, export switches, appending, and kinds of contents; all ordered pairs of kinds of '
        'chapters; all of these also exported from the open project after chapters and scenes have been moved. Distinct: by document and blocks.')
ASSUMPTIONS = ['Scenes of a notes, to-do, or unused chapter have the type of the chapter when the project is opened.']
BOUNDS = {'quick': 'n=2 scenes per chapter', 'thorough': 'n=3 scenes per chapter'}
CHAPTERS = [(t, lv, sup) for t in (0, 1, 2, 3) for lv in (0, 1) for sup in (False, True)]
SCENES = ([(0, ne, ap, c) for ne in (False, True) for ap in (False, True) for c in ('Text', '', '<HTML>', '<TEX>') if not (ne and c == '<TEX>')]
          + [(t, False, ap, 'Text') for t in (1, 2, 3) for ap in (False, True)] + [(1, True, False, 'Text'), (3, True, True, '')])
DOCS = ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_notes', '_todo', '_scenelist']


def chapters(tier):
    n = 2 if tier == 'quick' else 3
    for c in CHAPTERS:
        # The type of a scene in a chapter that is not normal is determined by the chapter.
        kinds = SCENES if c[0] == 0 else [(c[0], ne, ap, x) for ne in (False, True) for ap in (False, True) for x in ('Text', '')]
        for r in range(n + 1):
            for s in itertools.product(range(len(kinds)), repeat=r):
                yield [list(c), [list(kinds[i]) for i in s]]


def pairs():
    kinds = [[list(c), []] for c in CHAPTERS] + [[[0, lv, False], [list(s)]] for lv in (0, 1) for s in SCENES[:1] + SCENES[8:9] + SCENES[-2:]]
    for a in kinds:
        row = []
        for b in kinds:
            row += [a, b]
        yield row


def cases(tier):
    size = 24
    batch = []
    for c in chapters(tier):
        batch.append(c)
        if len(batch) == size:
            yield batch
            batch = []
    yield batch
    for row in pairs():
        yield row


def project(batch):
    p = proj.plain()
    p['scenes'], p['chapters'] = {}, []
    k = 0
    for n, ((t, level, suppress), scenes) in enumerate(batch, 1):
        ids = []
        for st, ne, ap, content in scenes:
            k += 1
            i = str(1000 - k)
            ids.append(i)
            p['scenes'][i] = proj.scene(title=f'S{k}', type=st, noexport=ne, append=ap, desc=f'D{k}' if k % 3 else '',
                                        content=f'{content} and {"word " * (k % 5)}{k}' if content else '', status='1')
        p['chapters'].append({'id': str(n), 'title': f'Title {n}', 'desc': f'CD{n}' if n % 3 else '', 'type': t, 'level': level,
                              'suppresstitle': suppress, 'scenes': ids})
    return p


def moved(novel):
    """Turn the chapters around, the middle ones first; and the scenes of every other chapter."""
    n = len(novel.srtChapters) // 3
    novel.srtChapters = list(reversed(novel.srtChapters[n:])) + novel.srtChapters[:n]
    for i in novel.srtChapters[::2]:
        novel.chapters[i].srtScenes.reverse()
    # Scenes go to the next chapter of the type.
    last = {}
    for i in novel.srtChapters:
        c = novel.chapters[i]
        if c.chType in last and len(c.srtScenes) > 1:
            last[c.chType].srtScenes.append(c.srtScenes.pop())
        last[c.chType] = c


def words(text):
    return len(text.split())


def letters(text):
    return len(text)


def case(batch, ctx):
    with sut.Work() as w:
        path = w.path('My Novel.yw7')
        prj.save(project(batch), path)
        v = sut.view(sut.read(path).novel)
        # What the model starts from must be what was written.
        ctx.same([[c[0], c[1]] for c, __ in batch], [[c.get('chType', 0), c.get('chLevel', 0)] for __, c in v['chapters']], 'view', batch)
        # The same project, and the open project with chapters and scenes moved.
        novel = sut.read(path).novel
        moved(novel)
        for suffix, v, export in [(s, v, sut.export) for s in DOCS] + [(s, sut.view(novel), lambda p, s: sut.write_as(novel, p, s)) for s in DOCS]:
            doc = odf.Odf(export(path, suffix))
            ctx.evaluated()
            ctx.same(docmodel.links(v, suffix, 'My Novel'), [x for x in doc.links() if x.startswith('../')], f'links{suffix}', '')
            if suffix == '_scenelist':
                ctx.same(docmodel.formulas(v, w.dir, 'My Novel'), doc.formulas(), 'formulas', batch)
                rows = [[r[0]] + r[9:11] + r[15:17] for r in doc.rows()[1:] if r]
                want = [[f'ScID:{i}'] + n for (i, __), n in zip(docmodel.listed(v), docmodel.numbers(v, words, letters))]
                ctx.key(repr(rows))
                ctx.same(want, rows, 'scenelist', batch)
                continue
            want, have = docmodel.text_doc(v, suffix), docmodel.skeleton(doc.blocks())
            ctx.key((suffix, have))
            if want != have:
                i = next((i for i, (a, b) in enumerate(zip(want, have)) if a != b), min(len(want), len(have)))
                ctx.violation(f'blocks{suffix}', f'{batch}: expected {want[i:i + 2]}, actual {have[i:i + 2]}')
        ctx.sample(batch[-1:])
