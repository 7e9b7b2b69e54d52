"""C24: every message of the program gets its translation, and no translation gets lost."""
import ast
import contextlib
import gettext
import io
import itertools
import json
import os
import subprocess
import sys

from mc import env, faults, sut

sys.path.insert(0, env.SRC)
import msgfmt  # noqa: E402
import pgettext  # noqa: E402
import translations  # noqa: E402

ID = 'C24'
TITLE = 'Messages reach the user translated, and translations are never lost'
LEVEL = 'model_checking'
RULE = ('messages: all messages and translations of up to m tokens, in the source in both kinds of quotes, go through the message scanner, the '
        'translation update, the dictionary, and the catalog compiler; the standard gettext must then translate what the program evaluates. '
        'histories: breadth-first exploration, with state matching, to the fixpoint: adding and removing messages in the source, '
        'translating and clearing, deleting the translation file, updates with and without dictionary. State: messages, translation file, dictionary, and '
        'their backups; after each operation the files and the result must be as the model says. programs: started in all ways from all places, with the catalog beside them complete, missing, or damaged. Besides, updates with a fault at every '
        'file operation and write position: old or new contents are always there. Transitions: operations.')
TOKENS = ['a', '"', "'", '\\', '\n', 'é', '{}', '")', "')", '_("', '#', ' ', 'msgid', '\u2028', '%']
BOUNDS = {'quick': f'm=2 over {len(TOKENS)} tokens; 2 messages, to the fixpoint', 'thorough': f'm=3 over {len(TOKENS)} tokens; 3 messages, to the fixpoint'}
ASSUMPTIONS = ['A message is one string literal, all in one line; a translation is one line in the translation file; both are not empty.',
               'The files are in the folders that the documentation of translations.py shows.']
LANG = 'de'
PLACES = ['app', 'my app', 'app/src', 'é', "it's", '%s', 'a.b']


def cases(tier):
    for k in range(len(TOKENS)):
        yield ['messages', 2 if tier == 'quick' else 3, k]
    for part in range(16):
        yield ['histories', 2 if tier == 'quick' else 3, part]
    yield ['together']
    yield ['catalogs']
    for k in range(len(PLACES)):
        yield ['program', k]
    for withJson in (0, 1):
        for k in range(2):
            yield ['faults', withJson, k]


class Place:
    """The folders of the toolchain."""

    def __init__(self, w):
        self.root = w.dir
        for d in ('PyWriter/i18n', 'project/i18n', 'project/src/sub', 'project/tools'):
            os.makedirs(os.path.join(w.dir, d))
        self.po = os.path.join(w.dir, 'project/i18n', LANG + '.po')
        self.json = os.path.join(w.dir, 'PyWriter/i18n', LANG + '.json')
        self.pot = os.path.join(w.dir, 'project/i18n/messages.pot')
        self.source = os.path.join(w.dir, 'project/src/sub/a.py')
        self.mo = os.path.join(w.dir, LANG + '.mo')

    @contextlib.contextmanager
    def tools(self):
        old = os.getcwd()
        os.chdir(os.path.join(self.root, 'project/tools'))
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield
        finally:
            os.chdir(old)

    def scan(self):
        with self.tools():
            p = pgettext.PotFile('../i18n/messages.pot', 'App', '1.0')
            p.scan_dir('../src')
            p.write_pot()

    def update(self, withJson):
        with self.tools():
            return translations.main(LANG, app='App', appVersion='1.0', json=withJson)

    def compiled(self):
        with self.tools():
            msgfmt.make(self.po, self.mo)
        with open(self.mo, 'rb') as h:
            return gettext.GNUTranslations(h)


def put(path, text):
    with open(path, 'w', encoding='utf-8', newline='\n') as h:
        h.write(text)


def text(path):
    try:
        with open(path, encoding='utf-8', newline='') as h:
            return h.read()
    except FileNotFoundError:
        return None


def quoted(v, q):
    return q + v.replace('\\', '\\\\').replace(q, '\\' + q).replace('\n', '\\n') + q


def entries(po):
    """The messages and translations of a po or pot file, by an independent parser."""
    result, last = {}, None
    for line in po.split('\n'):
        for key in ('msgid', 'msgstr'):
            if line.startswith(key + ' '):
                v = ast.literal_eval(line[len(key) + 1:].strip())
                if key == 'msgid':
                    last = v
                    if v in result:
                        raise AssertionError(f'{v!r} is there twice')
                    result[v] = None
                else:
                    result[last] = v
                break
        else:
            if line.startswith('"'):
                result[last] += ast.literal_eval(line.strip())
            elif line.strip() and not line.startswith('#'):
                raise AssertionError(f'unexpected line {line!r}')
    head = result.pop('', None)
    return result, head


def translate(place, values):
    """What a translator does: replace the text of a msgstr."""
    lines = text(place.po).split('\n')
    for n, line in enumerate(lines):
        if line.startswith('msgid '):
            v = ast.literal_eval(line[6:])
            if v in values:
                lines[n + 1] = 'msgstr ' + quoted(values[v], '"')
    put(place.po, '\n'.join(lines))


def case(c, ctx):
    {'messages': messages, 'histories': histories, 'together': together, 'catalogs': catalogs, 'faults': with_faults, 'program': program}[c[0]](c, ctx)


def strings(m, first=None):
    for r in range(m):
        for t in itertools.product(TOKENS, repeat=r + 1):
            if first is None or t[0] == first:
                yield ''.join(t)


def messages(c, ctx):
    __, m, k = c
    for value in strings(m, TOKENS[k]):
        for q in '"\'':
            source = f'x = 1\nprint(_({quoted(value, q)}), y("z"))\nprint(_("other"), _(\'more\'))\n'
            with sut.Work() as w:
                p = Place(w)
                put(p.source, source)
                p.scan()
                want = {value, 'other', 'more'}
                ctx.same(want, set(entries(text(p.pot))[0]), 'scan', f'{source!r}')
                ctx.same(False, p.update(True), 'untranslated', f'{source!r}')
                # The translation is another string of the same kind.
                given = {value: value[::-1] + '.', 'other': value, 'more': 'm'}
                translate(p, given)
                ctx.same(True, p.update(True), 'translated', f'{source!r}')
                ctx.same(given, entries(text(p.po))[0], 'kept', f'{source!r}')
                t = p.compiled()
                ctx.same(given, {x: t.gettext(x) for x in given}, 'catalog', f'{source!r}')
                # The dictionary gives it back.
                os.remove(p.po)
                ctx.same(True, p.update(True), 'from the dictionary', f'{source!r}')
                t = p.compiled()
                ctx.same(given, {x: t.gettext(x) for x in given}, 'catalog from the dictionary', f'{source!r}')
                ctx.step(3)
                ctx.trace()
                ctx.state((value, q))
            if len(ctx.violations) > 5:
                return
    ctx.sample(source)


def together(c, ctx):
    """All single tokens and pairs in one source tree, in several files and lines."""
    values = sorted(set(strings(2)))
    with sut.Work() as w:
        p = Place(w)
        files = {p.source: [], os.path.join(p.root, 'project/src/b.py'): [], os.path.join(p.root, 'project/src/c.txt'): ['_("no source")']}
        for n, v in enumerate(values):
            list(files.values())[n % 2].append(f'f(_({quoted(v, chr(34))})) if _({quoted(v, chr(34))}) else g("x", _({quoted(v, chr(34))}), "y")')
        for path, lines in files.items():
            put(path, '\n'.join(lines) + '\n')
        p.scan()
        ctx.same(values, sorted(entries(text(p.pot))[0]), 'scan all')
        p.update(False)
        given = {v: f'<{v}>' for v in values}
        translate(p, given)
        ctx.same(True, p.update(False), 'translated')
        ctx.same(None, text(p.json), 'no dictionary without need')
        t = p.compiled()
        for v in values:
            ctx.step()
            ctx.same(given[v], t.gettext(v), 'catalog', v)
        ctx.state('together')


def catalogs(c, ctx):
    """All sets of entries, one catalog compiled after the other in the same process."""
    with sut.Work() as w:
        pool = [('a', 'A'), ('b', ''), ('c "q"', 'C \\ "Q"'), ('d', 'Ä\nÖ')]
        sets = [s for r in range(5) for s in itertools.combinations(pool, r)]
        for s1 in sets:
            for s2 in sets:
                for s in (s1, s2):
                    for style in ('one line', 'lines', 'comments', 'fuzzy'):
                        po = 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n'
                        for n, (m, t) in enumerate(s):
                            if style == 'comments':
                                po += '# comment\n#: a.py:1\n'
                            if style == 'fuzzy' and n == 0:
                                po += '#, fuzzy\n'
                            if style == 'lines':
                                po += f'msgid ""\n{quoted(m[:1], chr(34))}\n{quoted(m[1:], chr(34))}\nmsgstr ""\n{quoted(t, chr(34))}\n\n'
                            else:
                                po += f'msgid {quoted(m, chr(34))}\nmsgstr {quoted(t, chr(34))}\n\n'
                        if s is s1 and style != 'lines':
                            continue
                        put(w.path('x.po'), po)
                        with contextlib.redirect_stderr(io.StringIO()):
                            msgfmt.make(w.path('x.po'), w.path('x.mo'))
                        with open(w.path('x.mo'), 'rb') as h:
                            got = gettext.GNUTranslations(h)
                        known = {m: t for n, (m, t) in enumerate(s) if t and not (style == 'fuzzy' and n == 0)}
                        ctx.same({m: known.get(m, m) for m, __ in pool}, {m: got.gettext(m) for m, __ in pool}, 'one after the other', f'{s1} {s2} {style}')
                        ctx.step()
                        ctx.state((s, style))
                if len(ctx.violations) > 5:
                    return


MSG = ('first', 'sec "2" ', 'third')
TR = ('T1', 'é "\\\n')


def step(s, op, n):
    """The model. State: messages in the source, po, po backup, dictionary, its backup; dictionaries as sorted tuples. Return state and result."""
    source, po, pobak, js, jsbak = s
    if op[0] == 'source':
        return (tuple(sorted(set(source) ^ {op[1]})), po, pobak, js, jsbak), None
    if op[0] == 'translate':
        if po is None or op[1] not in dict(po):
            return None, None
        d = dict(po)
        d[op[1]] = op[2]
        return (source, tuple(sorted(d.items())), pobak, js, jsbak), None
    if op[0] == 'delete':
        if po is None:
            return None, None
        return (source, None, pobak, js, jsbak), None
    known = dict(js or ()) if op[1] else {}
    known.update({m: t for m, t in po or () if t})
    if op[1]:
        if js is not None:
            jsbak = js
        js = tuple(sorted((m, t) for m, t in known.items() if t))
    if po is not None:
        pobak = po
    po = tuple((m, known.get(m, '')) for m in source)
    return (source, po, pobak, js, jsbak), all(t for __, t in po)


def ops(n):
    for m in MSG[:n]:
        yield ['source', m]
        for t in ('', *TR[:1 if n > 2 else 2]):
            yield ['translate', m, t]
    yield ['delete']
    yield ['update', False]
    yield ['update', True]


def po_text(entries_):
    return 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n' + ''.join(
        f'msgid {quoted(m, chr(34))}\nmsgstr {quoted(t, chr(34))}\n\n' for m, t in entries_)


def js_text(entries_):
    # The dictionary holds what is between the quotes of the po file.
    return json.dumps({quoted(m, '"')[1:-1]: quoted(t, '"')[1:-1] for m, t in entries_})


def histories(c, ctx):
    __, n, part = c
    start = ((), None, None, None, None)
    level, seen, number = [(start, ())], {start}, 0
    with sut.Work() as w:
        p = Place(w)
        while level:
            following = []
            for state, done in level:
                mine = number % 16 == part
                number += 1
                if mine:
                    ctx.state(state)
                for op in ops(n):
                    after, result = step(state, op, n)
                    if after is None:
                        continue
                    if mine and op[0] == 'update':
                        run(ctx, p, state, op, after, result, done + (op,))
                    if after not in seen:
                        seen.add(after)
                        following.append((after, done + (op,)))
                if len(ctx.violations) > 5:
                    return
            level = following
            if done:
                ctx.sample(done)
    ctx.bump('complete state spaces')


def run(ctx, p, state, op, after, result, done):
    # Editing the source and the translation file is what people do; only the update is the code's.
    source, po, pobak, js, jsbak = state
    put(p.source, '\n'.join(f'_({quoted(m, chr(39))})' for m in source))
    for path, value, form in ((p.po, po, po_text), (p.po + '.bak', pobak, po_text), (p.json, js, js_text), (p.json + '.bak', jsbak, js_text)):
        if value is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            put(path, form(value))
    p.scan()
    got = p.update(op[1])
    ctx.step()
    ctx.trace()
    ctx.same(result, got, 'result', f'{done}')
    files = [source]
    for path in (p.po, p.po + '.bak'):
        t = text(path)
        files.append(None if t is None else tuple(sorted(entries(t)[0].items())))
    for path in (p.json, p.json + '.bak'):
        t = text(path)
        files.append(None if t is None else tuple(sorted((ast.literal_eval(f'"{m}"'), ast.literal_eval(f'"{v}"')) for m, v in json.loads(t).items())))
    want = (after[0], None if after[1] is None else tuple(sorted(after[1])), after[2] and tuple(sorted(after[2])), *after[3:])
    ctx.same(want, tuple(files), 'files', f'{done}')


def _update(p, withJson):
    with p.tools():
        return translations.main(LANG, app='App', appVersion='1.0', json=withJson)


def update_with(p, withJson, start, ctx, mode, n):
    for path in (p.po, p.json, p.po + '.bak', p.json + '.bak'):
        if os.path.exists(path):
            os.remove(path)
    for path, t in start.items():
        put(path, t)
    before = {path: text(path) for path in (p.po, p.json)}
    out = faults.run(_update, (p, withJson), p.root, mode, n)
    kept = all(before[x] is None or before[x] in (text(x), text(x + '.bak')) for x in before)
    ctx.expect(kept, f'lost-{mode}', f'{mode} {n}: {[text(x) for x in before]}')
    ctx.step()
    ctx.state((withJson, mode, n, len(start)))
    return out


def _scan(p):
    with p.tools():
        pgettext.main('../src')


def scans(ctx):
    """The messages are collected anew, with a fault at every operation."""
    with sut.Work() as w:
        p = Place(w)
        put(p.source, '_("first")\n_("second")\n')
        old = 'msgid ""\nmsgstr ""\n"X: y\\n"\n\nmsgid "old"\nmsgstr ""\n'

        def once(mode, n, there):
            for path in (p.pot, p.pot + '.bak'):
                if os.path.exists(path):
                    os.remove(path)
            if there:
                put(p.pot, old)
            out = faults.run(_scan, (p,), p.root, mode, n)
            ctx.step()
            ctx.state(('scan', mode, n, there))
            ctx.expect(not there or old in (text(p.pot), text(p.pot + '.bak')), f'messages-lost-{mode}', f'{mode} {n}: {text(p.pot)!r}')
            if mode == 'fail' and there and set(entries(text(p.pot) or '')[0]) not in ({'old'}, {'first', 'second'}):
                ctx.violation('messages-damaged', f'{mode} {n}: {text(p.pot)!r}')
            return out

        for there in (False, True):
            out = once('none', 0, there)
            ctx.same({'first', 'second'}, set(entries(text(p.pot))[0]), 'messages', there)
            ctx.same(old if there else None, text(p.pot + '.bak'), 'messages-backup', there)
            for mode in ('fail', 'full', 'gone', 'memory', 'crash'):
                for n in range(len(out.events)):
                    once(mode, n, there)


def with_faults(c, ctx):
    __, withJson, k = c
    if not withJson and not k:
        scans(ctx)
    with sut.Work() as w:
        p = Place(w)
        put(p.source, '_("first")\n_("second")\n')
        p.scan()
        start = {p.po: po_text([('first', 'T1')])}
        if k:
            start[p.json] = js_text([('second', 'T2'), ('third', 'T3')])
        out = update_with(p, withJson, start, ctx, 'none', 0)
        good = {x: text(x) for x in (p.po, p.json)}
        ctx.same(bool(k and withJson), out.value, 'result')
        count = len(out.events)
        for mode in ('fail', 'full', 'gone', 'memory', 'crash'):
            for n in range(count):
                update_with(p, withJson, start, ctx, mode, n)
        for mode in ('limit', 'torn'):
            for n in range(0, max(len(x or '') for x in good.values()) + 60):
                out = update_with(p, withJson, start, ctx, mode, n)
                if mode == 'limit' and out.value is True:
                    ctx.same([entries(good[p.po])[0], good[p.json]], [entries(text(p.po))[0], text(p.json)], 'complete', f'{mode} {n}')
        # The update after the failure still finds everything.


PROGRAM = """import sys
sys.path.insert(0, sys.argv[1])
from pywriter.pywriter_globals import _, LOCALE_PATH
from pywriter.converter.yw7_converter import Yw7Converter
from pywriter.ui.ui import Ui
c = Yw7Converter()
c.ui = Ui('')
c.run('nothing.yw7')
print(ascii([_('File written'), c.ui.infoHowText]))
"""


def program(c, ctx):
    """A program finds its translations, however it has been started."""
    place = PLACES[c[1]]
    with sut.Work() as w:
        d = w.path(place)
        os.makedirs(os.path.join(d, 'locale/en/LC_MESSAGES'))
        put(os.path.join(d, 'app.py'), PROGRAM)
        po = os.path.join(w.dir, 'en.po')
        put(po, 'msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\nmsgid "File written"\nmsgstr "Gut \u00e9"\n\nmsgid "File not found"\nmsgstr "Weg"\n')
        mo = os.path.join(d, 'locale/en/LC_MESSAGES/pywriter.mo')
        with contextlib.redirect_stdout(io.StringIO()):
            msgfmt.make(po, mo)
        with open(mo, 'rb') as h:
            complete = h.read()
        os.makedirs(w.path('elsewhere'))
        for state in ('complete', 'missing', 'damaged', 'other'):
            if state == 'missing':
                os.remove(mo)
            elif state == 'damaged':
                with open(mo, 'wb') as h:
                    h.write(complete[:30])
            elif state == 'other':
                os.remove(mo)
                with open(mo.replace('pywriter.mo', 'other.mo'), 'wb') as h:
                    h.write(complete)
            for cwd in (d, os.path.dirname(d), w.path('elsewhere'), '/'):
                for name in (os.path.join(d, 'app.py'), os.path.relpath(os.path.join(d, 'app.py'), cwd), os.path.join('.', os.path.relpath(os.path.join(d, 'app.py'), cwd))):
                    r = subprocess.run([sys.executable, '-B', name, env.SRC], cwd=cwd, capture_output=True, text=True, timeout=60)
                    ctx.step()
                    ctx.evaluated()
                    what = (place, state, cwd.replace(w.dir, 'W'), name.replace(w.dir, 'W'))
                    ctx.state(what)
                    if r.returncode:
                        ctx.violation('program', f'{what}: {r.stderr[-300:]}')
                        continue
                    want = ['Gut \xe9', 'Weg'] if state == 'complete' else ['File written', 'File not found']
                    got = ast.literal_eval(r.stdout)
                    ctx.same(want, [got[0], got[1].replace('FAIL: ', '').split(':')[0]], 'program', what)
