"""C25: the user interface shows what is the case."""
import builtins
import contextlib
import io
import itertools
import os
import sys

from mc import faketk, sut

faketk.install()
from pywriter.config.configuration import Configuration  # noqa: E402
from pywriter.file.doc_open import open_document  # noqa: E402
from pywriter.ui.main_tk import MainTk  # noqa: E402
from pywriter.ui.set_icon_tk import set_icon  # noqa: E402
from pywriter.ui.ui import Ui  # noqa: E402
from pywriter.ui.ui_cmd import UiCmd  # noqa: E402
from pywriter.ui.ui_mb import UiMb  # noqa: E402
from pywriter.ui.ui_tk import UiTk  # noqa: E402

ID = 'C25'
TITLE = 'The user interface shows the open project, errors, and results as they are'
LEVEL = 'model_checking'
RULE = ('Breadth-first exploration, with state matching, to the fixpoint, of the main window: opening projects by menu, key, and call (good, untitled, damaged, missing '
        'ones, cancelled dialogs), closing, messages, restoring the status, clicks, changes of the file by others, resizing, quitting and restarting with '
        'saved settings. Every transition is run on the real class with a tkinter that records what is shown, and window title, path, status text and '
        'look, menu, project, and settings must be as the model says. messages: all message strings of up to m tokens through '
        'all user interfaces. conversions: all conversions of a list through all user interfaces, with all answers. documents: all file names of up to d tokens, opened with a recording '
        'application under either name, or none. '
        'icons: all combinations of where the program was started, where icons are, which are good, damaged, or missing, and what is asked for. States: model states; transitions: operations.')
BOUNDS = {'quick': 'main window to the fixpoint; m=4; d=2', 'thorough': 'main window to the fixpoint, with two more projects and longer texts; m=6; d=3'}
ASSUMPTIONS = ['tkinter shows what it is told.', 'The colours of errors, results, and normal status texts differ; which ones they are is not checked.']
FILES = {'A': ('Tïtle & more', 'Au Thor'), 'B': ('', ''), 'D': ('', 'Only author'), 'damaged': None, 'gone': None}
MORE = {'C': ('Only title', ''), 'E': ('Other', 'Another')}
NAME = ['a', ' ', '"', "'", '$HOME', '`echo x`', '$(echo x)', '\\', 'é', ';', '&', '(', '%s', '*', '-', '!', '#', '\n', '~', '|']
TOK = ['!', 'a', ' ', '\n', 'é', 'FAIL: ']


def cases(tier):
    for part in range(16):
        yield ['window', 0 if tier == 'quick' else 1, part]
    for k in range(len(TOK)):
        yield ['messages', 4 if tier == 'quick' else 6, k]
    for n in range(4):
        yield ['conversions', n]
    for k in range(len(NAME)):
        yield ['documents', 2 if tier == 'quick' else 3, k]
    yield ['icons']


def case(c, ctx):
    {'window': window, 'messages': messages, 'conversions': conversions, 'documents': documents, 'icons': icons}[c[0]](c, ctx)


def put(path, title, author):
    t = title.replace('&', '&amp;')
    a = author.replace('&', '&amp;')
    with open(path, 'w', encoding='utf-8') as h:
        h.write('<?xml version="1.0" encoding="utf-8"?>\n<YWRITER7>\n<PROJECT>\n<Ver>7</Ver>\n'
                + (f'<Title>{t}</Title>\n' if title else '') + (f'<AuthorName>{a}</AuthorName>\n' if author else '')
                + '</PROJECT>\n<LOCATIONS>\n</LOCATIONS>\n<ITEMS>\n</ITEMS>\n<CHARACTERS>\n</CHARACTERS>\n<SCENES>\n<SCENE>\n<Title>S</Title>\n<ID>1</ID>\n'
                '<SceneContent>text</SceneContent>\n</SCENE>\n</SCENES>\n<CHAPTERS>\n<CHAPTER>\n<Title>C</Title>\n<ID>1</ID>\n<Scenes>\n<ScID>1</ScID>\n'
                '</Scenes>\n</CHAPTER>\n</CHAPTERS>\n</YWRITER7>\n')


# Model states: (open project or None, shown heading or None, status kind, status text, remembered status, last opened, version of A, size, last size)
START = (None, None, 'normal', '', '', None, 0, 0, None)


def ops(more):
    for f in list(FILES) + (list(MORE) if more else []):
        yield ['open', 'call', f]
        yield ['open', 'menu', f]
    yield ['open', 'key', 'A']
    for via in ('menu', 'key', 'call'):
        yield ['open', via, '']
    yield ['open', 'none', 'B']
    yield ['close', 'menu']
    yield ['close', 'call']
    yield ['how', '!', 'an error']
    yield ['how', '', 'done']
    for t in ('', 'status') + (('two\nlines',) if more else ()):
        yield ['status', t]
    yield ['restore', 'key']
    yield ['restore', 'click']
    yield ['edit']
    yield ['resize']
    for via in ('menu', 'key', 'window'):
        yield ['restart', via]


def heading(name, version):
    title, author = {**FILES, **MORE}[name]
    if name == 'A' and version:
        title = 'Other'
    return f'{title or "Untitled project"} by {author or "Unknown author"} - App'


def step(s, op):
    prj_, head, kind, text, status, last, version, size, saved = s
    if op[0] == 'open':
        __, via, name = op
        # An error is not shown any longer.
        kind, text = 'normal', status
        if name == '':
            return (prj_, head, kind, text, status, last, version, size, saved), False
        if via == 'call' and name == 'gone':
            # The dialog is shown, and cancelled.
            return (prj_, head, kind, text, status, last, version, size, saved), False
        if prj_ is not None:
            prj_, head, text, status = None, None, '', ''
        last = name
        if {**FILES, **MORE}[name] is None:
            return (None, None, 'error', name, '', last, version, size, saved), False
        return (name, heading(name, version), 'normal', status, status, last, version, size, saved), True
    if op[0] == 'close':
        if op[1] == 'menu' and prj_ is None:
            return s, None
        return (None, None, 'normal', '', '', last, version, size, saved), None
    if op[0] == 'how':
        return (prj_, head, 'error' if op[1] else 'result', op[2], status, last, version, size, saved), None
    if op[0] == 'status':
        return (prj_, head, 'normal', op[1], op[1], last, version, size, saved), None
    if op[0] == 'restore':
        return (prj_, head, 'normal', status, status, last, version, size, saved), None
    if op[0] == 'edit':
        return (prj_, head, kind, text, status, last, 1 - version, size, saved), None
    if op[0] == 'resize':
        return (prj_, head, kind, text, status, last, version, 1 - size, saved), None
    if op[0] == 'restart':
        return (None, None, 'normal', '', '', last, version, size, size), None


SIZES = ('300x200+10+20', '1000x700+0+0')


class App:
    """The application, as its user sees it."""

    def __init__(self, w):
        self.w = w
        self.colours = None
        self.paths = {}
        for n, d in enumerate({**FILES, **MORE}):
            os.makedirs(w.path(f'd{n}'), exist_ok=True)
            self.paths[d] = os.path.join(w.path(f'd{n}'), f'{d}.yw7')
        for name, data in {**FILES, **MORE}.items():
            if data:
                put(self.paths[name], *data)
        with open(self.paths['damaged'], 'w') as h:
            h.write('<YWRITER7><PROJECT>')
        self.version = 0
        self.settings = {'yw_last_open': '', 'root_geometry': ''}
        self.launch()
        self.tk.root.size = SIZES[0]

    def launch(self):
        faketk.log.__init__()
        self.tk = MainTk('App', **self.settings)
        self.tk.start()
        if self.colours is None:
            self.colours = {'normal': self.look()}
            self.tk.set_info_how('!x')
            self.colours['error'] = self.look()
            self.tk.set_info_how('x')
            self.colours['result'] = self.look()
            self.tk.restore_status()
            # A new label and one whose status was restored must look alike.
            self.colours['restored'] = self.look()

    def look(self):
        bar = self.tk.statusBar
        return bar.options['bg'], bar.options['fg']

    def do(self, op):
        tk = self.tk
        result = None
        if op[0] == 'open':
            __, via, name = op
            faketk.log.dirs = []
            faketk.log.file = self.paths[name] if name and not (via == 'call' and name == 'gone') else ''
            if via == 'call':
                result = tk.open_project(self.paths.get(name, ''))
            elif via == 'none':
                result = tk.open_project(None)
            elif via == 'menu':
                tk.fileMenu.choose('Open...')
            else:
                tk.root.fire('<Control-o>')
        elif op[0] == 'close':
            if op[1] == 'menu':
                tk.fileMenu.choose('Close')
            else:
                tk.close_project()
        elif op[0] == 'how':
            tk.set_info_how(op[1] + op[2])
        elif op[0] == 'status':
            tk.show_status(op[1])
        elif op[0] == 'restore':
            if op[1] == 'key':
                tk.root.fire('<Escape>')
            else:
                tk.statusBar.fire('<Button-1>')
        elif op[0] == 'edit':
            self.version = 1 - self.version
            put(self.paths['A'], 'Other' if self.version else FILES['A'][0], FILES['A'][1])
        elif op[0] == 'resize':
            tk.root.size = SIZES[1 - SIZES.index(tk.root.size)]
        elif op[0] == 'restart':
            if op[1] == 'menu':
                tk.fileMenu.choose('Exit')
            elif op[1] == 'key':
                tk.root.fire('<Control-q>')
            else:
                tk.root.protocols['WM_DELETE_WINDOW']()
            if tk.root.running or tk.root.ended != 1:
                raise AssertionError('the program did not end')
            # Save and load the settings, as applications do.
            c = Configuration(self.settings, {})
            for k in self.settings:
                c.settings[k] = tk.kwargs[k]
            c.write(self.w.path('app.ini'))
            c = Configuration(dict.fromkeys(self.settings, ''), {})
            c.read(self.w.path('app.ini'))
            self.settings = c.settings
            self.launch()
        return result

    def shows(self):
        """The state, in the terms of the model."""
        tk = self.tk
        names = {os.path.normpath(p): n for n, p in self.paths.items()}
        opened = None if tk.prjFile is None else names[os.path.normpath(tk.prjFile.filePath)]
        path = tk.pathBar.options['text']
        title = tk.root.title()
        consistent = (path == (os.path.normpath(self.paths[opened]) if opened else '')
                      and tk.fileMenu.entries['Close']['state'] == ('normal' if opened else 'disabled')
                      and (opened is None or tk.novel is tk.prjFile.novel and tk.novel.scenes['1'].sceneContent == 'text')
                      and (opened is not None or title == 'App') and tk.root.running)
        look = self.look()
        kind = [k for k, v in self.colours.items() if v == look]
        kind = 'normal' if 'normal' in kind or 'restored' in kind else kind[0]
        last = tk.kwargs.get('yw_last_open')
        return (consistent, opened, title if opened else None, kind, tk.statusBar.options['text'],
                names[os.path.normpath(last)] if last else None, tk.root.size, faketk.log.shown)


def window(c, ctx):
    __, more, part = c
    level, seen, number = [(START, ())], {START}, 0
    all_ops = list(ops(more))
    with sut.Work() as w:
        while level:
            following = []
            for state, done in level:
                mine = number % 16 == part
                number += 1
                if mine:
                    ctx.state(state)
                for op in all_ops:
                    after, result = step(state, op)
                    if mine:
                        transition(ctx, w, state, done, op, after, result)
                    if after not in seen:
                        seen.add(after)
                        following.append((after, done + (op,)))
                    if len(ctx.violations) > 5:
                        return
            level = following
        ctx.sample(done)
    ctx.bump('complete state spaces')


def transition(ctx, w, state, done, op, after, result):
    app = App(w)
    if len({app.colours[k] for k in ('normal', 'error', 'result')}) != 3:
        ctx.violation('colours', f'{app.colours}')
    last = None
    for o in done:
        app.do(o)
    last = state[5]
    got = app.do(op)
    ctx.step()
    ctx.trace()
    what = f'{done + (op,)}'
    if op[0] == 'open':
        if op[1] in ('call', 'none'):
            ctx.same(result, got, 'open-result', what)
        if op[1] == 'call' and op[2] not in ('', 'gone'):
            ctx.same([], faketk.log.dirs, 'dialog', what)
        else:
            ctx.same([os.path.dirname(app.paths[last]) if last else './'], faketk.log.dirs, 'dialog', what)
    shown = app.shows()
    text = after[3]
    if after[2] == 'error' and text in FILES:
        # Some message about the file.
        ctx.expect(bool(shown[4].strip()) and not shown[4].startswith('!'), 'no message', what)
        text = shown[4]
    size = SIZES[after[7]]
    ctx.same((True, after[0], after[1], after[2], text, after[5], size, []), shown, f'window-{op[0]}', what)
    if after[8] is not None and op[0] == 'restart':
        ctx.same(SIZES[after[8]], app.settings['root_geometry'], 'geometry', what)


def interfaces():
    return {'Ui': Ui, 'UiCmd': UiCmd, 'UiMb': UiMb, 'UiTk': UiTk, 'MainTk': MainTk}


@contextlib.contextmanager
def console(answers=()):
    out, err = io.StringIO(), io.StringIO()
    answers = iter(answers)
    old = builtins.input

    def ask(prompt=''):
        out.write(prompt)
        return next(answers)

    builtins.input = ask
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err
    finally:
        builtins.input = old


_labels = {}


def label(ui, what='how'):
    """The widget that shows messages, whatever its name."""
    if (type(ui), what) not in _labels:
        probe = type(ui)('App')
        (probe.set_info_how if what == 'how' else probe.set_info_what)('a probe')
        _labels[type(ui), what] = [n for n, v in vars(probe).items() if isinstance(v, faketk.Label) and v.options['text'] == 'a probe'][0]
    return getattr(ui, _labels[type(ui), what])


def looks_bad(ui):
    probe = type(ui)('App')
    probe.set_info_how('!x')
    return label(ui).options['bg'] == label(probe).options['bg']


def messages(c, ctx):
    __, m, k = c
    for r in range(m):
        for rest in itertools.product(TOK, repeat=r):
            message = TOK[k] + ''.join(rest)
            error = message.startswith('!')
            text = message[1:].strip() if error else message
            for name, cls in interfaces().items():
                faketk.log.__init__()
                with console() as (out, err):
                    ui = cls('App')
                    out.truncate(0)
                    out.seek(0)
                    ui.set_info_how(message)
                ctx.step()
                ctx.state((name, message))
                shown = faketk.log.shown
                if name == 'UiMb':
                    ctx.same([('showerror' if error else 'showinfo', 'App', text)], shown, 'message-UiMb', f'{message!r}')
                    continue
                ctx.same([], shown, 'no box', f'{name} {message!r}')
                if name in ('Ui', 'UiCmd'):
                    ctx.same(f'FAIL: {text}' if error else text, ui.infoHowText, f'message-{name}', f'{message!r}')
                    if name == 'UiCmd':
                        ctx.same(ui.infoHowText + '\n', out.getvalue(), 'console', f'{message!r}')
                    else:
                        ctx.same((ui.infoHowText if error else '').strip(), err.getvalue().strip(), 'silent', f'{message!r}')
                else:
                    ctx.same((text, text), (ui.infoHowText, label(ui).options['text']), f'message-{name}', f'{message!r}')
                    look = label(ui).options['bg']
                    ui.set_info_how('!x' if error else 'x')
                    ctx.same(look, label(ui).options['bg'], 'look', f'{name} {message!r}')
                    ui.set_info_how('x' if error else '!x')
                    ctx.expect(look != label(ui).options['bg'], 'look', f'{name} {message!r}')
            if r < 2:
                boxes(ctx, message)
            if len(ctx.violations) > 5:
                return
    ctx.sample(message)


def boxes(ctx, message):
    """Questions, warnings, and messages about what is going on."""
    for name, cls in interfaces().items():
        for answer in (True, False):
            faketk.log.__init__()
            faketk.log.answer = answer
            for typed in (('y', 'Y') if answer else ('n', '', 'x', 'yn')) if name == 'UiCmd' else ('-',):
                with console([typed]) as (out, err):
                    ui = cls('App')
                    got = ui.ask_yes_no(message)
                ctx.step()
                ctx.same(True if name == 'Ui' else answer, got, 'answer', f'{name} {message!r} {typed!r}')
                if name == 'UiCmd':
                    ctx.expect(message in out.getvalue(), 'question', f'{name} {message!r}')
                elif name != 'Ui':
                    ctx.same(['askyesno', message], [faketk.log.shown[-1][i] for i in (0, 2)], 'question', f'{name} {message!r}')
        faketk.log.__init__()
        with console() as (out, err):
            ui = cls('App')
            ui.show_warning(message)
            ui.set_info_what(message)
        if name == 'UiCmd':
            ctx.same(2, out.getvalue().count(message) if message.strip() else 2, 'warning', f'{name} {message!r}')
        elif name != 'Ui':
            ctx.same([('showwarning', 'App', message)], faketk.log.shown, 'warning', f'{name} {message!r}')
            if name == 'UiTk':
                ctx.same((message, message), (ui.infoWhatText, label(ui, 'what').options['text']), 'what', f'{name} {message!r}')
        if name == 'MainTk':
            faketk.log.__init__()
            ui.show_error(message)
            ui.show_info(message)
            ui.show_warning(message, title='T')
            ui.show_error(message, title='T')
            ui.show_info(message, title='T')
            ui.ask_yes_no(message, title='T')
            ctx.same([('showerror', 'App', message), ('showinfo', 'App', message), ('showwarning', 'T', message), ('showerror', 'T', message),
                      ('showinfo', 'T', message), ('askyesno', 'T', message)], faketk.log.shown, 'boxes', f'{message!r}')


def conversions(c, ctx):
    """Whether a conversion worked is what the user sees, whatever the interface, and a refused question changes nothing."""
    for name, cls in list(interfaces().items()):
        for suffix in ('', '_manuscript', '_scenelist', '_unknown')[c[1]:c[1] + 1]:
            for state in ('new', 'exists', 'damaged'):
                for answer in (True, False):
                    with sut.Work() as w:
                        path = w.path('p.yw7')
                        put(path, 'Title', 'Author')
                        ext = sut.EXPORTS.get(suffix, '.odt')
                        target = w.path(f'p{suffix}{ext}')
                        if state == 'exists':
                            with open(target, 'w') as h:
                                h.write('old')
                        if state == 'damaged':
                            with open(path, 'w') as h:
                                h.write('<YWRITER7>')
                        faketk.log.__init__()
                        faketk.log.answer = answer
                        with console(['y' if answer else 'n'] * 5) as (out, err):
                            conv = sut.Yw7Converter()
                            conv.ui = cls('App')
                            conv.run(path, suffix=suffix)
                        ctx.step()
                        ctx.state((name, suffix, state, answer))
                        written = state != 'damaged' and suffix != '_unknown' and (state == 'new' or answer or name == 'Ui')
                        there = os.path.isfile(target) and open(target, 'rb').read() != b'old'
                        what = f'{name} {suffix} {state} {answer}'
                        ctx.same(written, there, 'written', what)
                        ctx.same(written, conv.newFile is not None, 'new file', what)
                        asked = [x for x in faketk.log.shown if x[0] == 'askyesno']
                        if name in ('UiMb', 'UiTk', 'MainTk'):
                            ctx.same(1 if state == 'exists' and suffix != '_unknown' else 0, len(asked), 'asked', what)
                        if name in ('Ui', 'UiCmd'):
                            bad = conv.ui.infoHowText.startswith('FAIL')
                        elif name == 'UiMb':
                            bad = faketk.log.shown[-1][0] == 'showerror'
                        else:
                            bad = looks_bad(conv.ui)
                        ctx.same(not written, bad, 'reported', what)


RECORDER = '#!/bin/sh\nfor a in "$@"; do printf "%s\\0" "$a"; done >> "$RECORD"\n'


def documents(c, ctx):
    """The application of the system gets exactly the path of the document."""
    __, m, k = c
    with sut.Work() as w:
        os.mkdir(w.path('bin'))
        old = dict(os.environ)
        os.environ.update(PATH=w.path('bin') + ':/usr/bin:/bin', RECORD=w.path('record'))
        # Absolutely nothing else can be found under these names.
        try:
            for program in ('xdg-open', 'open', None):
                for x in ('xdg-open', 'open'):
                    if os.path.exists(w.path('bin/' + x)):
                        os.remove(w.path('bin/' + x))
                if program:
                    with open(w.path('bin/' + program), 'w') as h:
                        h.write(RECORDER)
                    os.chmod(w.path('bin/' + program), 0o755)
                os.environ['PATH'] = w.path('bin')
                for r in range(m if program == 'xdg-open' else 1):
                    for rest in itertools.product(NAME, repeat=r):
                        path = w.path('d ' + NAME[k] + ''.join(rest) + '.odt')
                        if os.path.exists(w.path('record')):
                            os.remove(w.path('record'))
                        open_document(path)
                        got = None
                        if os.path.exists(w.path('record')):
                            with open(w.path('record'), encoding='utf-8', newline='') as h:
                                got = h.read()
                        ctx.step()
                        ctx.state((program, path[len(w.dir):]))
                        ctx.same(path + '\0' if program else None, got, 'document', f'{program} {path[len(w.dir):]!r}')
        finally:
            os.environ.clear()
            os.environ.update(old)


def icons(c, ctx):
    """The icon asked for is set for the window, or nothing is."""
    scripts = ('', 'app.pyw', 'sub/app.pyw', './app.pyw', 'ABS/app.pyw', 'ABS/sub dir/app.pyw')
    names = ('logo', 'näme', 'a.b')
    kinds = {'good': b'\x89PNG\r\n\x1a\n', 'damaged': b'GIF', 'missing': None}
    old = sys.argv[0], os.getcwd()
    n = 0
    try:
        for script, where, name, kind, default in itertools.product(scripts, (None, 'icons', 'pics', 'ABS/pics'), names, kinds, (True, False, None)):
            n += 1
            with sut.Work() as w:
                root = w.path('d')
                os.makedirs(root)
                os.chdir(root)
                # Every directory has a picture of its own.
                for d in ('icons', 'sub/icons', 'sub dir/icons', 'pics', 'sub', '.'):
                    os.makedirs(os.path.join(root, d), exist_ok=True)
                    for i in names:
                        if kinds[kind] is not None or i != name:
                            with open(os.path.join(root, d, f'{i}.png'), 'wb') as h:
                                h.write((kinds[kind] if i == name else kinds['good']) + f'{d} {i}'.encode())
                sys.argv[0] = script.replace('ABS', root)
                window_ = faketk.Tk()
                kw = {} if default is None else {'default': default}
                if where is not None:
                    kw['path'] = where.replace('ABS', root)
                if name != 'logo':
                    kw['icon'] = name
                got = set_icon(window_, **kw)
                ctx.step()
                ctx.trace()
                ctx.state((script, where, name, kind, default))
                if where is None:
                    d = os.path.dirname(script).replace('ABS', '').strip('./')
                    d = f'{d}/icons' if d else 'icons'
                else:
                    d = where.replace('ABS/', '')
                good = kind == 'good'
                ctx.same((good, [(default is not False, [kinds['good'] + f'{d} {name}'.encode()])] if good else []),
                         (got, getattr(window_, 'icons', [])), 'icon', f'{(script, where, name, kind, default)}')
                os.chdir(old[1])
            if len(ctx.violations) > 5:
                return
        ctx.sample((script, where, name, kind, default))
    finally:
        sys.argv[0] = old[0]
        os.chdir(old[1])
