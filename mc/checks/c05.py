"""C05: unchanged formatted documents can be re-imported without loss."""
import itertools
import re

from mc import markup, prj, proj, sut

ID = 'C05'
TITLE = 'Re-importing an unchanged formatted document loses nothing'
LEVEL = 'exploration'
RULE = ('One evaluation is one scene text exported in one kind of document (manuscript, proof, notes, to do) and imported '
        'again, compared by an independent model of the markup; the rest of the project is compared literally. All texts of '
        'at most n tokens over an alphabet of markup and text tokens whose tags may overlap, repeat, or be left open; and texts that look like markup. Distinct: by text and document.')
ASSUMPTIONS = ['Languages are not nested in each other, and a language does not end that has not begun.',
               'Comments contain plain text and are not placed directly before a quotation mark "> ".',
               'Runs of blanks count as one; blanks at the end of a paragraph do not count; quotations are not empty.',
               'No paragraph begins with "#" (this is a split marker), and no text looks like a scene mark of the proof document.']
TOKENS = ['a', 'B', ' ', '\n', '\n\n', '\n> ', '[i]', '[/i]', '[b]', '[/b]', '[lang=fr]', '[/lang=fr]', '[lang=de-CH]', '[/lang=de-CH]',
          '/*n & m*/', '/*@fn f*/', '/*@en e*/', '/*@fn* s*/', '&', '<x>', "'", '"', '\\', '/*m\nk*/', '* * *', 'é']
WORDS = ['[x]', '[see x]', '[1]', '[sic]', '[s. 4]', '[u.a.]', '[citation needed]', '[him]', '[', ']', '[/', '[]', '[/x]', '[lang]', '[bold]', '[italic]', '[I]', '[/I]', '[/B]',
         '[ i ]', '[H1]', '[h 1]', '[r', 's]', '[i', 'i]', '[/i', '[cc]', '[0]', '/*', '*/', '/', '*', '@fn x', '<!-- x -->', '</text:p>', '$x', '${Title}', '$$', '%', 'x\u00a0y',
         'x > y', '- x', '~x~', '-- x', '\u2013', '{x}', '^', '`', '#1']
CORE = ['a', ' ', '\n', '\n> ', '[i]', '[/i]', '[b]', '[/b]', '/*n*/']
FORMATS = ['[i]', '[/i]', '[b]', '[/b]', '[lang=fr]', '[/lang=fr]']
BOUNDS = {'quick': f'n=3 over {len(TOKENS)} tokens, n=5 over {len(CORE)}, n=5 tags', 'thorough': f'n=4 over {len(TOKENS)} tokens, n=7 over {len(CORE)}, n=7 tags'}
DOCS = {'_manuscript': 0, '_proof': 0, '_notes': 1, '_todo': 2}
PER_PROJECT = 60


def texts(tier):
    n, m, deep = (3, 5, 5) if tier == 'quick' else (4, 7, 7)
    for r in range(n + 1):
        for t in itertools.product(TOKENS, repeat=r):
            if ok(t):
                yield ''.join(t)
    for r in range(n + 1, m + 1):
        for t in itertools.product(CORE, repeat=r):
            if ok(t):
                yield ''.join(t)
    for t in itertools.product(('', '> '), TOKENS, TOKENS):
        if ok(t):
            yield ''.join(t)
    # Three pieces of formatting that begin, end, and are repeated in any order.
    for r in range(1, deep + 1):
        for t in itertools.product(FORMATS, repeat=r):
            t = tuple(x for tag in t for x in (tag, 'a'))
            if markup.clear(t):
                yield ''.join(t)
    # What looks like markup.
    for x in WORDS:
        for a, b in itertools.product(('', 'a', 'a ', 'a\n', 'a\n> ', '[i]', 'a [i]b '), ('', 'b', ' b', '\nb', '[/i]', ' [/i]b')):
            if (a + b).count('[i]') == (a + b).count('[/i]') and (a or not x.startswith('#')) and not (a.endswith('\n') and x.startswith('#')):
                yield a + x + b
    for x, y in itertools.permutations(WORDS, 2):
        if (x + y).count('/*') <= 1 and not re.search(r'/\*.*\*/', x + 'b ' + y):
            yield f'a{x}b {y}'


def ok(t):
    """Keep what is properly nested, and drop what says the same as another text."""
    if not markup.clear(t):
        return False
    s = ''.join(t)
    if re.search(r'(^|\n)> (\[[^]]*\]| )*(\n|$)', s):
        return False
    return not (t and (t[0].startswith('\n') and t[0] != '\n> ' or t[-1] in ('\n', '\n\n', '\n> ', ' ') or t[0] == ' ')) \
        and '*/\n> ' not in s and '*/> ' not in s and '  ' not in s


def cases(tier):
    batch = []
    for t in texts(tier):
        if t.startswith('\n'):
            t = t[1:]
        batch.append(t)
        if len(batch) == PER_PROJECT:
            for d in DOCS:
                yield [d, batch]
            batch = []
    for d in DOCS:
        yield [d, batch]


def ident(i):
    """IDs have one to five digits."""
    return str(i + 1 if i < 30 else (i + 1) * 1009)


def project(texts, typ):
    p = proj.plain()
    p['vars'] += [{'id': '7', 'title': 'keep', 'desc': 'me', 'tags': '0'},
                  {'id': '8', 'title': 'lang=pt-BR', 'desc': '<HTM <SPAN LANG="pt-BR"> /HTM>', 'tags': '0'}]
    p['scenes'] = {ident(i): proj.scene(title=f'Scene & {i}', content=t, type=typ, desc='d', notes='n') for i, t in enumerate(texts)}
    ids = list(p['scenes'])
    cut = len(ids) // 2
    p['chapters'] = [{'id': '1', 'title': 'One', 'scenes': ids[:cut], 'type': typ}, {'id': '2', 'title': 'Two', 'scenes': ids[cut:], 'type': typ}]
    return p


def case(c, ctx):
    doc, batch = c
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(project(batch, DOCS[doc]), path)
        sut.rewrite(path)
        before = prj.canonical(path)
        r = sut.imp(sut.export(path, doc))
        ctx.expect(not r.ui.warnings, 'warning', f'{r}')
        after = prj.canonical(path)
    for i, t in enumerate(batch):
        ctx.evaluated()
        ctx.key((doc, t))
        a = before['SCENES'][ident(i)].pop('SceneContent', '')
        b = after['SCENES'].get(ident(i), {}).pop('SceneContent', '')
        # The proof document shows quotation marks; both mean the same.
        ma, mb = markup.text_model(a), markup.text_model(b)
        if ma != mb:
            ctx.violation(f'text{doc}', f'{t!r} became {b!r}: {markup.show(ma)} -> {markup.show(mb)}')
    ctx.sample(f'{doc}: {t!r}')
    # Languages used in the text may be declared now.
    declared = [[k for k in info['PROJECTVARS'] if 'lang=' in k] for info in (before, after)]
    ctx.expect(set(declared[0]) <= set(declared[1]), 'declared', f'{doc}: the languages {declared[0]} became {declared[1]}')
    for info in (before, after):
        info['PROJECTVARS'] = {k: v for k, v in info['PROJECTVARS'].items() if 'lang=' not in k}
    d = prj.diff(before, after)
    ctx.expect(not d, f'rest{doc}', '; '.join(d[:5]))
