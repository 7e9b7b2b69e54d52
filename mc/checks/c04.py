"""C04: chapter and scene types."""
import itertools

from mc import prj, sut

ID = 'C04'
TITLE = 'Chapter and scene types are read and written the way yWriter defines them'
LEVEL = 'exploration'
RULE = ('One evaluation is one combination of the elements that encode the type of a chapter and of its scenes (all of them, '
        'including those older versions wrote), opened, saved and opened again, or one transition from a type to another; '
        "compared with yWriter's tables. Distinct: by combination.")
ASSUMPTIONS = ['Type elements hold the values yWriter versions write: 0, 1, 2 or nothing.']
BOUNDS = {'quick': 'complete product, one and two scenes per chapter; all chains of 3 types',
          'thorough': 'complete product, one and two scenes per chapter; all chains of 4 types'}

CH = list(itertools.product((False, True), (None, '0', '1', ''), (None, '0', '1', '2')))
SC = list(itertools.product((False, True), (None, '0', '1', '2')))


def chapter_type(unused, typ, chtyp):
    if chtyp is not None:
        return {'2': 2, '1': 1}.get(chtyp, 3 if unused else 0)
    if typ == '1':
        return 1
    if typ is not None and unused:
        return 3
    return 0


def scene_type(unused, field):
    if field in ('1', '2'):
        return int(field)
    return 3 if unused else 0


def cases(tier):
    for ch in CH:
        yield ['read', list(ch)]
    n = 3 if tier == 'quick' else 4
    for chain in itertools.product(range(4), repeat=n):
        yield ['chain', list(chain)]


def project(ch, scenes):
    return {'title': 't', 'characters': [], 'scenes': {str(i + 1): {'title': str(i), 'content': 'x', 'rawtype': s}
                                                       for i, s in enumerate(scenes)},
            'chapters': [{'id': '1', 'title': 'c', 'rawtype': ch, 'scenes': [str(i + 1) for i in range(len(scenes))]},
                         {'id': '2', 'title': 'd', 'scenes': []}]}


def encoded(info):
    c = info['CHAPTERS'][0]
    yield ('Unused' in c, c.get('Type'), c.get('ChapterType'))
    for s in info['SCENES'].values():
        yield ('Unused' in s, s.get('Fields', {}).get('Field_SceneType'))


CHENC = {0: (False, '0', '0'), 1: (True, '1', '1'), 2: (True, '1', '2'), 3: (True, '1', '0')}
SCENC = {0: (False, None), 1: (True, '1'), 2: (True, '2'), 3: (True, '0')}


def types(f):
    return [f.novel.chapters['1'].chType] + [s.scType for s in f.novel.scenes.values()]


def case(c, ctx):
    with sut.Work() as w:
        path = w.path('p.yw7')
        if c[0] == 'read':
            ch = tuple(c[1])
            groups = [(s,) for s in SC] + list(itertools.product(SC, SC))
            for group in groups:
                ctx.evaluated()
                ctx.key((ch, group))
                prj.save(project(ch, group), path)
                t = chapter_type(*ch)
                expected = [t] + [t or scene_type(*s) for s in group]
                what = f'chapter {ch}, scenes {group}'
                f = sut.read(path)
                if not ctx.same(expected, types(f), 'read', what):
                    return
                f.write()
                ctx.same([CHENC[expected[0]]] + [SCENC[x] for x in expected[1:]], list(encoded(prj.load(path))), 'write', what)
                ctx.same(expected, types(sut.read(path)), 'reread', what)
            ctx.sample(what)
        else:
            chain = c[1]
            for shift in range(4):
                ctx.evaluated()
                ctx.key((tuple(chain), shift))
                prj.save(project(CHENC[0], [SCENC[chain[0]], SCENC[(chain[0] + shift) % 4]]), path)
                f = sut.read(path)
                for t in chain:
                    # scenes
                    f.novel.scenes['1'].scType = t
                    f.novel.scenes['2'].scType = (t + shift) % 4
                    f.write()
                    expected = [0, t, (t + shift) % 4]
                    ctx.same([CHENC[0]] + [SCENC[x] for x in expected[1:]], list(encoded(prj.load(path))), 'chain', f'{chain} {shift}')
                    ctx.same(expected, types(sut.read(path)), 'chain-read', f'{chain} {shift}')
                for t in chain:
                    # chapters
                    f.novel.chapters['1'].chType = t
                    f.write()
                    last = f.novel.scenes['1'].scType, f.novel.scenes['2'].scType
                    ctx.same([CHENC[t]] + [SCENC[x] for x in last], list(encoded(prj.load(path))), 'chapter-chain', f'{chain} {shift}')
                    ctx.same([t] + [t or x for x in last], types(sut.read(path)), 'chapter-chain-read', f'{chain} {shift}')
