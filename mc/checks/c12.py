"""C12: exported documents are complete packages showing any name and metadata literally."""
import itertools
import re

from mc import docmodel, odf, prj, proj, sut
from mc.checks import c09

ID = 'C12'
TITLE = 'Exported files are complete OpenDocument packages for any names and metadata'
LEVEL = 'exploration'
RULE = ('One evaluation is one exported file of one project: the ZIP package must be complete, consistent with its manifest and '
        'mimetype, and well-formed in every part; metadata, locale, headings, names, tags, links, and cells must show '
        'exactly the texts of the project. All texts of at most n tokens over an alphabet of special tokens in all one-line '
        'fields (rotated against each other), all combinations of missing metadata, all locales of a list, and file names of '
        'a list. Distinct: by document and texts.')
ASSUMPTIONS = ['Names have no line breaks and no comment marks "/*"; leading, trailing, and repeated blanks do not count.',
               'Language and country codes that do not have two letters each say "no linguistic content".']
TOKENS = ['a', 'B c', '&', '<', '>', '"', "'", '&amp;', '&#38;', '\\', '\\1', '$ID', '${Title}', '$$', '$', '%s', '{', '}', '{0}', ']]>', '<!--', '-->',
          '<text:p>', '</text:p>', '[i]', '[/b]', '[lang=fr]', '|', 'é', '中', '\U0001d11e', '\u00a0', '#', '@', '~', '*', '1', ';', ',', '/', '?>', '[ScID:1]',
          '0', '\u2028', '\u0085', '\x7f']
CORE = ['a', '&', '<', '"', '$ID', '\\', ']]>', "'"]
BOUNDS = {'quick': f'n=1 over {len(TOKENS)} tokens and n=3 over {len(CORE)}', 'thorough': f'n=2 over {len(TOKENS)} tokens and n=5 over {len(CORE)}'}
LOCALES = [('de', 'DE'), ('en', 'US'), ('fr', 'CH'), ('zxx', 'none'), ('sr', 'RS'), (None, None),
           ('de', None), ('de', ''), ('de', 'DEU'), ('deutsch', 'DE'), ('d', 'DE'), ('de', 'D')]
NAMES = ['p', 'My Novel', 'a & b', "it's", 'üñí', 'x%20y', 'a#b', '$ID', 'v1.2', 'p_manuscript', 'yw7', '<n>', '中', '[1]', '{x}', 'a;b', '100%', 'ends.', 'a.odt', 'yw7.yw7', 'a.yw7 b'] + [f'Our{s} book' for s in sut.EXPORTS if s] + [f'x{s}{sut.EXPORTS[s]}' for s in ('_xref', '_scenelist')]
META = ('title', 'author', 'desc', 'fieldtitle1')
SINGLE = ('', '_xref', '_charlist', '_scenelist')


def texts(tier):
    n, m = (1, 3) if tier == 'quick' else (2, 5)
    seen = set()
    for toks, k in ((TOKENS, n), (CORE, m)):
        for r in range(1, k + 1):
            for t in itertools.product(toks, repeat=r):
                s = ' '.join(''.join(t).split(' ')).strip()
                if s and s not in seen and '/*' not in s:
                    seen.add(s)
                    yield s


def cases(tier):
    batch = []
    for t in texts(tier):
        batch.append(t)
        if len(batch) == 12:
            yield ['texts', batch, 'p', ['de', 'DE'], 15]
            batch = []
    yield ['texts', batch + ['z'], 'p', ['de', 'DE'], 15]
    for k in range(15):
        yield ['meta', ['m & <n>', 'x'], 'p', ['de', 'DE'], k]
    yield ['long', [' '.join([f'{t} & <long>'] * 700) for t in ('a', 'b')], 'p', ['de', 'DE'], 15]
    for loc in LOCALES:
        yield ['locale', ['x', 'y'], 'p', list(loc), 15]
    for name in NAMES:
        yield ['name', ['x', 'y'], name, ['de', 'DE'], 15]


def project(batch, locale, present):
    n = len(batch)

    def t(k):
        return batch[k % n]

    p = proj.plain()
    for k, f in enumerate(META):
        p.pop(f, None)
        if present & (1 << k):
            p[f] = t(k) if f != 'desc' else '\n'.join(t(k + i) for i in range(1 + n % 3)) + ('\n\n' + t(0) if n > 2 else '')
    p.update(fieldtitle2=t(4), fieldtitle3=t(5), fieldtitle4='')
    p['scenes'] = {str(k + 1): proj.scene(title=t(k), content=f'Text {k}', tags=[x for x in (t(k + 1), t(k + 2)) if ';' not in x and ',' not in x],
                                          chars=['1', str(1 + k % 3)] if k % 3 else ['1'], locs=['2'], items=['1', '2']) for k in range(n + 1)}
    ids = list(p['scenes'])
    half = (n + 1) // 2
    p['chapters'] = [{'id': str(k + 1), 'title': t(k), 'level': k % 2, 'desc': 'd', 'scenes': [ids[half * (k // 2)]] if k in (0, 2) else []} for k in range(n)]
    p['chapters'].append({'id': '99', 'title': 'Rest', 'scenes': [i for i in ids if all(i not in c['scenes'] for c in p['chapters'])]})
    for kind in ('characters', 'locations', 'items'):
        p[kind] = []
        for k in range(max(3, n)):
            e = {'id': str(k + 1), 'title': t(k), 'tags': [x for x in (t(k + 2),) if ';' not in x and ',' not in x]}
            if k % 3 != 1:
                e['aka'] = t(k + 1)
            if k % 3 != 2 and kind == 'characters':
                e['fullname'] = t(k + 3)
            p[kind].append(e)
    p['vars'] = []
    if locale[0]:
        p['vars'] = [{'id': '1', 'title': 'Language', 'desc': locale[0], 'tags': '0'}, {'id': '2', 'title': 'Country', 'desc': locale[1], 'tags': '0'}]
    return p


def unmarked(x):
    """The proof reading document shows formatting in names, too."""
    if isinstance(x, str):
        return re.sub(r'\[/?(i|b|lang=fr)\]', '', x)
    return tuple(unmarked(y) for y in x) if isinstance(x, (list, tuple)) else x


def squeeze(x):
    if isinstance(x, str):
        return ' '.join(x.split(' ')).strip()
    return tuple(squeeze(y) for y in x) if isinstance(x, (list, tuple)) else x


def case(c, ctx):
    what, batch, name, locale, present = c
    with sut.Work() as w:
        path = w.path(name + '.yw7')
        p = project(batch, locale, present)
        prj.save(p, path)
        before = open(path, 'rb').read()
        v = sut.view(sut.read(path).novel)
        ctx.same([p.get('title') or '', p.get('author') or ''], [v['novel'].get('title', ''), v['novel'].get('authorName', '')], 'view', c)
        ctx.same([s['title'] for s in p['scenes'].values()], [s.get('title') for s in v['scenes'].values()], 'view', c)
        for suffix in sut.EXPORTS:
            doc = odf.Odf(sut.export(path, suffix))
            ctx.evaluated()
            ctx.key((suffix, c))
            m = doc.meta()
            ctx.same([p.get('title') or '', p.get('author') or '', p.get('desc') or ''], [m['title'], m['author'], m['desc']], f'meta{suffix}', c)
            if suffix in sut.ODT and locale[0]:
                ctx.same(tuple(locale) if [len(x or '') for x in locale] == [2, 2] else ('zxx', 'none'), doc.locale(), f'locale{suffix}', c)
            ctx.same(docmodel.links(v, suffix, name), [x for x in doc.links() if x.startswith('../')], f'links{suffix}', c)
            if suffix in sut.ODT:
                want, have = docmodel.text_doc(v, suffix), docmodel.skeleton(doc.blocks())
                if suffix == '_proof':
                    want, have = unmarked(want), unmarked(have)
                want, have = squeeze(want), squeeze(have)
                if want != have:
                    i = next((i for i, (a, b) in enumerate(zip(want, have)) if a != b), min(len(want), len(have)))
                    ctx.violation(f'blocks{suffix}', f'{c}: expected {want[i:i + 2]}, actual {have[i:i + 2]}')
            else:
                ctx.same([], doc.contradictions(), f'values{suffix}', c)
                rows, head = c09.shown(suffix, doc.path)
                want = c09_rows(suffix, v)
                for r, e in zip(rows, want):
                    for i, x in enumerate(e):
                        if x is None:
                            r[i] = None
                ctx.same(squeeze(want), squeeze(rows), f'rows{suffix}', c)
                if suffix == '_scenelist':
                    ctx.same(squeeze([p.get('fieldtitle1') or '', p['fieldtitle2'], p['fieldtitle3'], '']), squeeze(head[11:15]), 'head', c)
                    ctx.same(docmodel.formulas(v, w.dir, name), doc.formulas(), 'formulas', c)
        ctx.same(before, open(path, 'rb').read(), 'project', c)
        ctx.sample([what, batch[:3], name])


def c09_rows(suffix, v):
    if suffix != '_scenelist':
        return c09.show(suffix, v)
    v = dict(v)
    v['chapters'] = [(None, {'srtScenes': [i for i, __ in docmodel.listed(v)]})]
    return c09.show(suffix, v)
