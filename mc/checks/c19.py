"""C19: word and letter counts count what can be read, and nothing else."""
import itertools

from mc import odf, prj, proj, sut

ID = 'C19'
TITLE = 'Word and letter counts count exactly the visible text'
LEVEL = 'exploration'
RULE = ('One evaluation is one scene text: the counts of the scene in the opened project, after setting it, and in the '
        'exported scene list (with numbers and totals) must be what an independent scanner counts. All texts of at most n '
        'tokens over an alphabet of letters, blanks, dashes, hyphens, line breaks, quotation marks, markup, and comments. '
        'Distinct: by text.')
ASSUMPTIONS = ['Brackets are markup on a line; comments may reach across line breaks.',
               'Double hyphens and dashes separate words, hyphens join them, as in an office program; a quotation mark counts as letters.']
TOKENS = ['a', 'bc', 'é', ' ', '\n', '-', '--', '—', '–', '\n> ', '[i]', '[/i]', '[lang=fr-CH]', '/* x -- y */', '/* x\n-- y */', '.', "'", '\t']
BOUNDS = {'quick': f'n=4 over {len(TOKENS)} tokens, n=2 in the scene list', 'thorough': f'n=5 over {len(TOKENS)} tokens, n=3 in the scene list'}


def count(text):
    """Scan the text; return (words, letters)."""
    words = letters = 0
    in_word = False
    i = 0
    start = True
    while i < len(text):
        if text[i] == '[' and ']' in text[i + 2:] and '\n' not in text[i:text.index(']', i + 2)]:
            i = text.index(']', i + 2) + 1
            start = False
            continue
        if text.startswith('/*', i) and '*/' in text[i + 3:]:
            i = text.index('*/', i + 3) + 2
            start = False
            continue
        c = text[i]
        if c == '\n':
            in_word = False
            start = True
            i += 1
            continue
        letters += 1
        if text.startswith('--', i):
            letters += 1
            i += 2
            in_word = False
            start = False
            continue
        if c in '—–' or c.isspace():
            in_word = False
        elif c == '-' or c == '>' and start:
            pass
        elif not in_word:
            in_word = True
            words += 1
        start = False
        i += 1
    return words, letters


def texts(n, least=0):
    for r in range(least, n + 1):
        for t in itertools.product(TOKENS, repeat=r):
            yield ''.join(t)


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for first in range(len(TOKENS)):
        for second in range(len(TOKENS)):
            yield ['set', n, first, second]
    yield ['short']
    for k in range(len(TOKENS)):
        yield ['list', 2 if tier == 'quick' else 3, k]


def case(c, ctx):
    if c[0] == 'set':
        s = sut.Scene()
        for rest in texts(c[1] - 2):
            one(TOKENS[c[2]] + TOKENS[c[3]] + rest, s, ctx)
    elif c[0] == 'short':
        s = sut.Scene()
        for t in texts(1):
            one(t, s, ctx)
    else:
        in_list(c, ctx)


def one(text, s, ctx):
    s.sceneContent = text
    ctx.evaluated()
    ctx.key(text)
    if (s.wordCount, s.letterCount) != count(text):
        ctx.violation('count', f'{text!r}: {(s.wordCount, s.letterCount)}, expected {count(text)}')


def in_list(c, ctx):
    batch = [TOKENS[c[2]] + t for t in texts(c[1] - 1)]
    p = proj.plain()
    p['scenes'], p['chapters'] = {}, []
    for n, t in enumerate(batch):
        i = str(n + 1)
        p['scenes'][i] = proj.scene(title=f'S{i}', content=f'{t}')
        if n % 7 == 0:
            p['chapters'].append({'id': i, 'title': 'C', 'scenes': []})
        p['chapters'][-1]['scenes'].append(i)
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(p, path)
        novel = sut.read(path).novel
        doc = odf.Odf(sut.export(path, '_scenelist'))
        rows = doc.rows()
        ctx.same([], doc.contradictions(), 'values', 'scene list')
    head = [x for x in rows[0]]
    words_total = letters_total = 0
    col_total, col_words, col_letters = head.index('Words total'), head.index('Word count'), head.index('Letter count')
    for n, t in enumerate(batch):
        s = novel.scenes[str(n + 1)]
        want = count(s.sceneContent)
        # Blank lines at both ends do not survive in the file.
        ctx.evaluated()
        ctx.key(('list', t))
        if (s.wordCount, s.letterCount) != want:
            ctx.violation('read-count', f'{t!r}: {(s.wordCount, s.letterCount)}, expected {want}')
        words_total += want[0]
        letters_total += want[1]
        row = rows[n + 1]
        have = (row[col_total], row[col_words], row[col_letters])
        if have != (str(words_total), str(want[0]), str(want[1])):
            ctx.violation('list-count', f'{t!r}: {have}, expected {(words_total,) + want}')
