"""C14: part, chapter, and scene markers in an imported document split it there, and lose nothing."""
import itertools
import re

from mc import editor, odf, prj, proj, sut
from mc.editor import E

ID = 'C14'
TITLE = 'Dividers in an imported document create exactly the structure they say'
LEVEL = 'model_checking'
RULE = ('All sequences of at most n paragraphs over an alphabet of text and divider paragraphs (parts, chapters, scenes, with '
        'title and description or without), written into the scenes of a document of each formatted type. A model of the '
        'divider rules steps through the paragraphs; the imported project must have exactly its chapters and scenes (order, '
        'titles, descriptions, types, inherited data), contain every text paragraph once and in order, use unique IDs, keep '
        'all existing IDs and data, and show a warning if and only if something was created. The result, exported and '
        'imported again, must not change. States: distinct resulting structures; transitions: paragraphs.')
ASSUMPTIONS = ['The number in the generated title of a scene without a title is not checked.',
               'A chapter divider in a document of notes or to-dos creates a normal chapter, as in a manuscript.']
LINES = ['text', '', '# P', '#', '## C | d', '##', '### S|desc|x', '###', '####', '> q # x', 'a # b']
HEADS = ['h1', 'h2']
BOUNDS = {'quick': f'n=3 over {len(LINES)} paragraphs, n=2 with headings', 'thorough': f'n=4 over {len(LINES)} paragraphs, n=3 with headings'}
DOCS = {'_manuscript': 0, '_proof': 0, '_notes': 1, '_todo': 2}
META = [
    {'title': 'Short', 'desc': 'De & sc', 'goal': 'g', 'conflict': 'c', 'outcome': 'o', 'status': '5', 'datetime': '2020-01-02 03:04:05',
     'lastsdays': '1', 'lastshours': '2', 'lastsminutes': '3', 'chars': ['1'], 'tags': ['t'], 'notes': 'n', 'field1': '4', 'arcs': 'A'},
    {'title': 'A title that is longer than twenty characters', 'status': '1', 'day': '3', 'hour': '01', 'minute': '02'},
    {'title': '', 'status': '2', 'desc': '(!)Already', 'append': True},
    {'title': 'Not touched', 'status': '4', 'desc': 'd', 'goal': 'g'},
    {'title': 'Exactly twenty signs', 'status': '3', 'desc': 'd', 'goal': '(!)g', 'conflict': 'c'},
]
KINDS = (0, 1, 2, 4)


def cases(tier):
    n = 3 if tier == 'quick' else 4
    for doc in DOCS:
        batch = []
        for r in range(1, n + 1):
            for t in itertools.product(range(len(LINES)), repeat=r):
                ls = [LINES[i] for i in t]
                # The text before the first divider may be empty.
                batch += [['start'] + ls] + ([ls] if ls[0].startswith('#') else [])
                if len(batch) >= 30:
                    yield [doc, batch]
                    batch = []
        for r in range(1, n):
            for t in itertools.product(HEADS + LINES[:1] + LINES[2:3] + LINES[6:7], repeat=r):
                if any(x in HEADS for x in t):
                    batch += [['start'] + list(t)] + ([list(t)] if t[0] != LINES[0] else [])
                    if len(batch) >= 30:
                        yield [doc, batch]
                        batch = []
        yield [doc, batch or [['start', 'text']]]
        # A single scene.
        for ls in (['start'], ['# P'], ['start', '##'], ['start', '### S'], ['##', 'text'], ['###', 'text']):
            yield [doc, [ls]]


def project(doc, batch):
    t = DOCS[doc]
    p = proj.plain()
    p['scenes'], p['chapters'] = {}, []
    per = 3
    for n, ls in enumerate(batch):
        i = str(2 * n + 1)
        s = dict(META[KINDS[n % 4]])
        s.update(type=t, content='\n'.join(ls))
        if t:
            s['status'] = '1'
        p['scenes'][i] = s
        if n % per == 0:
            # New chapters come in between, in front of, and behind the existing IDs.
            left = (len(batch) - 1 - n) // per
            p['chapters'].append({'id': str(left + 1 if left < 2 else left + 3), 'title': f'Ch {n}', 'desc': 'x', 'level': (n // per) % 2, 'scenes': [], 'type': t})
        p['chapters'][-1]['scenes'].append(i)
    if len(batch) == 1:
        return p
    p['scenes']['900'] = dict(META[3], type=t, content='Plain', status='1' if t else '4')
    p['chapters'][-1]['scenes'].append('900')
    return p


def heading(line):
    t, __, d = line.strip('# ').partition('|')
    return t.strip(), d.strip()


def model(v, batch):
    """Return the expected chapters [(id or None, title, desc, level, [scenes])] and the changed parents.

    A scene is {'id', 'parent', 'title', 'desc', 'lines'}.
    """
    out = []
    split = set()
    for cid, c in v['chapters']:
        out.append([cid, None, None, None, []])
        for sid in c.get('srtScenes', []):
            n = (int(sid) - 1) // 2
            lines = batch[n] if sid != '900' else ['Plain']
            cur = {'id': sid, 'lines': []}
            out[-1][4].append(cur)
            while lines and lines[-1] == '':
                # Empty paragraphs at the end of a scene do not count.
                lines = lines[:-1]
            n = 0  # new scenes of the chapter
            for line in lines:
                if line in HEADS:
                    line = {'h1': '# H', 'h2': '## H'}[line]
                if line.startswith('###'):
                    t, d = heading(line)
                    n += 1
                    cur = {'id': None, 'parent': sid, 'title': t, 'desc': d, 'lines': [], 'n': n}
                    out[-1][4].append(cur)
                    split.add(sid)
                elif line.startswith('#'):
                    t, d = heading(line)
                    part = not line.startswith('##')
                    out.append([None, t or ('New Part' if part else 'New Chapter'), d, 1 if part else 0, []])
                    n = 0
                    cur = None
                else:
                    if cur is None:
                        n += 1
                        cur = {'id': None, 'parent': sid, 'title': '', 'desc': '', 'lines': [], 'n': n}
                        out[-1][4].append(cur)
                        split.add(sid)
                    cur['lines'].append(line)
    return out, split


def set_headings(root):
    """Marked paragraphs become headings."""
    for parent in list(root.iter()):
        for i, p in enumerate(list(parent)):
            if p.tag == odf.q('text:p') and p.text in HEADS:
                level = p.text[1]
                parent[i] = E('text:h', 'H', text__style_name=f'Heading_20_{level}', text__outline_level=level)


def inherited(attr, parent):
    return parent.get(attr)


def case(c, ctx):
    doc, batch = c
    t = DOCS[doc]
    with sut.Work() as w:
        path = w.path('p.yw7')
        p = project(doc, batch)
        prj.save(p, path)
        sut.rewrite(path)
        before = sut.view(sut.read(path).novel)
        target = sut.export(path, doc)
        if any(x in HEADS for ls in batch for x in ls):
            editor.edit(target, target, set_headings)
        r = sut.imp(target)
        novel = sut.read(path).novel
        after = sut.view(novel)
        want, split = model(before, batch)
        ctx.trace(len(batch))
        created = sum(1 for x in want if x[0] is None) + sum(1 for x in want for s in x[4] if s['id'] is None)
        ctx.same(bool(created), 'New scenes created during conversion.' in r.ui.warnings, 'warning', r)
        have = after['chapters']
        ids = [i for i, __ in have]
        scene_ids = [i for __, x in have for i in x.get('srtScenes', [])]
        ctx.expect(len(ids) == len(set(ids)), 'chapter-ids', ids)
        ctx.expect(len(scene_ids) == len(set(scene_ids)) and set(scene_ids) == set(after['scenes']), 'scene-ids',
                   f'{scene_ids} {sorted(after["scenes"])}')
        if len(want) != len(have):
            ctx.violation('chapters', f'{c}: expected {len(want)} chapters, actual {len(have)}')
            return
        old = dict(before['chapters'])
        for (cid, title, desc, level, scenes), (hid, hc) in zip(want, have):
            ctx.step(sum(len(s['lines']) + 1 for s in scenes) + 1)
            ctx.key((title, desc, level, [(s['id'], s.get('title'), s['lines']) for s in scenes]))
            if cid:
                a, b = dict(old[cid]), dict(hc)
                a.pop('srtScenes', 0), b.pop('srtScenes', 0)
                ctx.same((cid, a), (hid, b), 'old-chapter', c)
            else:
                ctx.expect(hid not in old, 'new-id', f'{c}: {hid}')
                ctx.same([title, desc, level, 0], [hc.get('title', '').strip(), hc.get('desc', '').strip(), hc.get('chLevel', 0), hc.get('chType', 0)], 'new-chapter', c)
            hs = hc.get('srtScenes', [])
            if len(hs) != len(scenes):
                ctx.violation('scenes', f'{c}: chapter {hid} {title!r}: expected {[s["lines"] for s in scenes]}, actual '
                                        f'{[after["scenes"][i].get("sceneContent") for i in hs]}')
                return
            for s, i in zip(scenes, hs):
                check_scene(s, i, after['scenes'][i], before, split, c, ctx)
        for k in ('novel', 'characters', 'locations', 'items', 'notes'):
            ctx.same(before[k], after[k], k, c)
        # Nothing happens if the result is exported and imported again.
        first = prj.canonical(path)
        r = sut.imp(sut.export(path, doc))
        ctx.expect(not r.ui.warnings, 'again-warning', f'{c}: {r}')
        second = prj.canonical(path)
        for info in (first, second):
            for s in info['SCENES'].values():
                s['SceneContent'] = visible(s.get('SceneContent'))
        d = prj.diff(first, second)
        if d:
            ctx.violation('again', f'{c}: ' + '; '.join(d[:4]))
        ctx.sample([doc, batch[-1]])


def visible(text):
    lines = [x.strip() for x in (text or '').split('\n')]
    return '\n'.join(lines).strip('\n')


def check_scene(s, i, have, before, split, c, ctx):
    ctx.same(visible('\n'.join(s['lines'])), visible(have.get('sceneContent')), 'text', f'{c}: scene {i}')
    if s['id']:
        want = dict(before['scenes'][i])
        ctx.same(s['id'], i, 'old-id', c)
        if i in split:
            for k in ('desc', 'goal', 'conflict', 'outcome'):
                if k in want and not want[k].startswith('(!)'):
                    want[k] = '(!)' + want[k]
            want['status'] = min(want.get('status', 2), 2)
        want.pop('sceneContent', 0)
        have = {k: v for k, v in have.items() if k != 'sceneContent'}
        ctx.same(want, have, 'old-scene', f'{c}: scene {i}')
        return
    ctx.expect(i not in before['scenes'], 'new-scene-id', f'{c}: {i}')
    parent = before['scenes'][s['parent']]
    title = have.get('title', '')
    if s['title']:
        ctx.same(s['title'], title.strip(), 'new-title', c)
    else:
        old = parent.get('title', '')
        lead = (old if len(old) <= 20 else old[:20] + '...') or 'New Scene'
        ctx.same(f'{lead} Split: {s["n"]}', title, 'new-title', c)
    ctx.same(s['desc'], have.get('desc', '').strip(), 'new-desc', c)
    want = {k: parent[k] for k in ('scType', 'date', 'time', 'day', 'lastsDays', 'lastsHours', 'lastsMinutes') if k in parent}
    want['status'] = min(parent.get('status', 2), 2)
    have = {k: v for k, v in have.items() if k not in ('sceneContent', 'title', 'desc')}
    ctx.same(want, have, 'new-scene', f'{c}: scene {i} of {s["parent"]}')
