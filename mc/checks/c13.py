"""C13: the cross reference lists every relation exactly once, in the order of the novel."""
import itertools

from mc import docmodel, odf, prj, proj, sut

from pywriter.model.cross_references import CrossReferences

ID = 'C13'
TITLE = 'The cross reference lists every relation exactly once, in order'
LEVEL = 'exploration'
RULE = ('One evaluation is one project: the cross reference computed by the real code, and the exported document, must contain '
        'for every character, location, item, and tag exactly the scenes (with number, chapter, title, type) and elements the '
        'relations say, in the order of the novel. All relations between the elements and scenes of small projects, all '
        'distributions of the scenes over chapters, scene and chapter types, export switches, and element orders up to the bound; each also after moving everything in the open project. Distinct: by relations.')
ASSUMPTIONS = ['References to missing elements are dropped when the project is opened.']
BOUNDS = {'quick': '3 scenes, 2 elements of each kind', 'thorough': '4 scenes, 2 elements; 3 scenes, 3 elements'}
CONTENT = ['x', '', '<HTML>', '<TEX>']
PARTS = ('characters', 'locations', 'items')
KEYS = {'characters': 'chars', 'locations': 'locs', 'items': 'items'}


def lists(n):
    """All ordered selections of n elements."""
    return [list(t) for r in range(n + 1) for t in itertools.permutations(range(n), r)]


def cases(tier):
    bounds = [(3, 2)] if tier == 'quick' else [(4, 2), (3, 3)]
    for s, e in bounds:
        rel = lists(e)
        for k, combo in enumerate(itertools.product(range(len(rel)), repeat=s)):
            batch = []
            for part in range(3):
                # The three kinds of elements and the tags get different relations out of all.
                batch.append([rel[combo[(i + part) % s]] for i in range(s)])
            batch.append([rel[combo[(i + 1 + k) % s]] for i in range(s)])
            yield [s, e, batch]


def distributions(s, tier):
    """Ways to distribute the scenes over up to three chapters, with an order."""
    out = []
    for cut in range(s + 1):
        for cut2 in range(cut, s + 1):
            out.append([list(range(cut)), list(range(cut, cut2)), list(range(cut2, s))])
    return out


def case(c, ctx):
    s, e, rel = c
    xr = CrossReferences()
    k = sum(len(x) * 7 ** i for i, r in enumerate(rel) for x in r)
    ways = distributions(s, 'quick')
    with sut.Work() as w:
        for n in range(4):
            way = ways[(k + n * 3) % len(ways)]
            types = [(k + n * (i + 1) + i) % 4 for i in range(s)] if n % 2 else [0] * s
            p = proj.plain()
            ids = [str(5 - i) if n % 2 else str(i + 1) for i in range(s)]
            p['scenes'] = {i: proj.scene(title=f'Scene {i}', content=CONTENT[(k + n + j) % 4], type=t, status='1', noexport=bool((k + n) >> j & 1),
                                         append=(k + j) % 3 == 1, reaction=(k + j) % 2 == 1, subplot=j % 2 == 1)
                           for j, (i, t) in enumerate(zip(sorted(ids), types))}
            names = ['Tag & <1>', 'b', 'a']
            order = list(range(e))[::-1] if n > 1 else list(range(e))
            for part, r in zip(PARTS, rel):
                p[part] = [{'id': str(i + 1), 'title': f'{part} {i}', 'fullname': f'Full {i}', 'tags': [names[t] for t in rel[3][i % s] if t < 3]} for i in order]
                for sid, x in zip(ids, r):
                    p['scenes'][sid][KEYS[part]] = [str(i + 1) for i in x]
            for sid, x in zip(ids, rel[3]):
                p['scenes'][sid]['tags'] = [names[i] for i in x]
            p['chapters'] = [{'id': str(9 - j), 'title': f'C{j}', 'scenes': [ids[i] for i in way[j]], 'level': (k + j) % 2,
                              'type': (k + j) // 2 % 4 if n == 3 else 0} for j in range(3)]
            path = w.path('p.yw7')
            prj.save(p, path)
            novel = sut.read(path).novel
            v = sut.view(novel)
            ctx.evaluated()
            ctx.key((n, c))
            # The same instance for all projects.
            xr.generate_xref(novel)
            check(xr, v, ctx, c)
            doc = odf.Odf(sut.export(path, '_xref'))
            want, have = docmodel.text_doc(v, '_xref'), docmodel.skeleton(doc.blocks())
            ctx.same(stripped(want), stripped(have), 'document', c)
            ctx.same(docmodel.links(v, '_xref', 'p'), doc.links(), 'links', c)
            # Chapters, scenes, and elements moved in the open project.
            for part in (novel.srtChapters, novel.srtCharacters, novel.srtLocations, novel.srtItems, *(x.srtScenes for x in novel.chapters.values())):
                part.reverse()
            v = sut.view(novel)
            ctx.evaluated()
            ctx.key(('moved', n, c))
            xr.generate_xref(novel)
            check(xr, v, ctx, c)
            doc = odf.Odf(sut.write_as(novel, path, '_xref'))
            want, have = docmodel.text_doc(v, '_xref'), docmodel.skeleton(doc.blocks())
            ctx.same(stripped(want), stripped(have), 'document-moved', c)
            ctx.same(docmodel.links(v, '_xref', 'p'), doc.links(), 'links-moved', c)
        ctx.sample(c)


def stripped(blocks):
    return [tuple(x.strip() if isinstance(x, str) else x for x in b) for b in blocks]


def check(xr, v, ctx, c):
    order = docmodel.all_scenes(v)
    ctx.same([i for i, *__ in order], xr.srtScenes, 'scenes', c)
    ctx.same({i: v['chapters'][n - 1][0] for i, __, n in order}, xr.chpPerScn, 'chapter', c)
    for part, have in (('characters', xr.scnPerChr), ('locations', xr.scnPerLoc), ('items', xr.scnPerItm)):
        want = {i: [sid for sid, s, __ in order if i in s.get(part, [])] for i, __ in v[part]}
        ctx.same(list(want.items()), list(have.items()), f'per-{part}', c)
    ctx.same(list(docmodel.tags([(i, s) for i, s, __ in order]).items()), list(xr.scnPerTag.items()), 'per-tag', c)
    for part, have in (('characters', xr.chrPerTag), ('locations', xr.locPerTag), ('items', xr.itmPerTag)):
        ctx.same(list(docmodel.tags(v[part]).items()), list(have.items()), f'{part}-per-tag', c)
