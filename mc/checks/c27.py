"""C27: an application built as a single script does what it does with the package."""
import contextlib
import io
import itertools
import os
import pickle
import re
import runpy
import sys
import zipfile

from mc import env, faketk, odf, prj, proj, sut

if env.SRC not in sys.path:
    sys.path.insert(0, env.SRC)
import inliner  # noqa: E402

ID = 'C27'
TITLE = 'Applications built as a single script behave like those using the package'
LEVEL = 'exploration'
RULE = ('One evaluation is one program, run once with the package and once as the single script that the inliner makes of it. applications: each sample application, with each of a list '
        'of projects and documents, over existing and missing targets: same files, messages, dialogs, and results. programs: all acyclic import graphs of n modules with '
        'all orders of import statements, and all sequences of up to m constructs of a list (docstrings, comments, imports of any kind at any place, '
        'multi-line strings, endings not to be inlined) in a module and in the script: same output. Copying the package into the application: the copies are the modules. '
        'Distinct: by source code and input.')
BOUNDS = {'quick': 'all sample applications; n=3 modules; m=2 constructs in module and script', 'thorough': 'all sample applications; n=4 modules; m=3 constructs'}
ASSUMPTIONS = ['The programs follow docs/conventions.md: strings in three double quotes are docstrings, names defined in different modules differ, imports are not cyclic, '
               'every block has a statement besides its docstring, lines of strings do not look like comments or imports.']
SAMPLES = os.path.join(env.SRC, 'sample')


def samples():
    return sorted(x for x in os.listdir(SAMPLES) if x.endswith('.py'))


def cases(tier):
    for x in samples():
        yield ['application', x]
    n, m = (3, 2) if tier == 'quick' else (4, 3)
    graphs = list(itertools.product((0, 1), repeat=n * (n - 1) // 2))
    for g in range(len(graphs)):
        yield ['graph', n, list(graphs[g])]
    for k in range(len(CONSTRUCTS)):
        yield ['constructs', m, k]
    yield ['copy']


def case(c, ctx):
    {'application': application, 'graph': graph, 'constructs': constructs, 'copy': copy}[c[0]](c, ctx)


# --- running programs ------------------------------------------------------


def run(script, argv, cwd, extra_path=None, answer=True, name0='app.py'):
    """Run a script in a child process; return its output, messages, and error."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            for m in list(sys.modules):
                if m.split('.')[0] in ('pywriter', 'tkinter'):
                    del sys.modules[m]
            sys.path[:] = [p for p in sys.path if p != env.SRC] + ([extra_path] if extra_path else [])
            faketk.install()
            faketk.log.answer = answer
            # No document is really opened.
            os.environ['PATH'] = cwd
            os.chdir(cwd)
            sys.argv = [name0] + argv
            out, err = io.StringIO(), io.StringIO()
            failure = None
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    runpy.run_path(script, run_name='__main__')
                except BaseException as ex:
                    failure = f'{type(ex).__name__}: {ex}'
            data = pickle.dumps((out.getvalue(), err.getvalue(), failure, faketk.log.shown, faketk.log.texts))
            with os.fdopen(w, 'wb') as h:
                h.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h:
        data = h.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def build(script, target, package_path=env.SRC + '/', copyTo=False):
    with contextlib.redirect_stdout(io.StringIO()):
        inliner.run(script, target, 'pywriter', package_path, copyTo)


TIMES = re.compile(rb'\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?')


def contents(directory):
    result = {}
    for name in sorted(os.listdir(directory)):
        path = os.path.join(directory, name)
        if zipfile.is_zipfile(path):
            with zipfile.ZipFile(path) as z:
                result[name] = [(n, TIMES.sub(b'TIME', z.read(n)).replace(directory.encode(), b'DIR')) for n in sorted(z.namelist())]
        else:
            with open(path, 'rb') as h:
                result[name] = h.read().replace(directory.encode(), b'DIR')
    return result


def outline(w, name):
    """A document to make a new project of."""
    target = w.path(name)
    prj.save(proj.plain(), w.path('tmp.yw7'))
    os.rename(sut.export(w.path('tmp.yw7'), '_manuscript'), target)
    body = ''.join(f'<text:h text:style-name="Heading_20_{n}" text:outline-level="{n}">{t}</text:h><text:p text:style-name="Text_20_body">text &amp; <text:span text:style-name="Emphasis">it</text:span></text:p>'
                   for n, t in ((1, 'Part'), (2, 'Chapter'), (3, 'Scene'), (2, 'Next')))

    def new(text):
        start, end = text.index('<office:text>') + 13 if '<office:text>' in text else text.index('>', text.index('<office:text')) + 1, text.index('</office:text>')
        return text[:start] + body + text[end:]

    with zipfile.ZipFile(target) as z:
        data = new(z.read('content.xml').decode('utf-8')).encode('utf-8')
    odf.rezip(target, target, {'content.xml': data})
    os.remove(w.path('tmp.yw7'))


def application(c, ctx):
    __, name = c
    script = os.path.join(SAMPLES, name)
    with open(script, encoding='utf-8') as h:
        m = re.search(r"SUFFIX = '(.*?)'", h.read())
    suffix = m.group(1) if m else ''
    with sut.Work() as built:
        target = built.path('app.py')
        build(script, target)
        inputs = [('rich.yw7', 'new', True), ('plain.yw7', 'new', True), ('rich.yw7', 'exists', True), ('rich.yw7', 'exists', False), ('damaged.yw7', 'new', True), ('missing.yw7', 'new', True),
                  ('rich_manuscript.odt', 'new', True), ('rich_scenelist.ods', 'new', True), ('rich_charlist.ods', 'new', True), ('rich_characters.odt', 'new', True), ('rich_proof.odt', 'new', True),
                  ('work.odt', 'new', True), ('work.odt', 'exists', True), ('rich_xref.odt', 'new', True), ('odd.txt', 'new', True), (None, 'new', True)]
        for source, state, answer in inputs:
            results = []
            for path, extra in ((script, env.SRC), (target, None)):
                with sut.Work() as w:
                    stem = source.split('.')[0] if source else ''
                    if stem and stem.split('_')[0] in ('rich', 'plain'):
                        p = getattr(proj, stem.split('_')[0])()
                        if '_' in stem:
                            prj.save(p, w.path('rich.yw7'))
                            sut.export(w.path('rich.yw7'), '_' + stem.split('_')[1])
                            p['scenes']['1']['content'] = 'changed'
                            p['title'] = 'Changed'
                            prj.save(p, w.path('rich.yw7'))
                        else:
                            prj.save(p, w.path(source))
                    if source in ('damaged.yw7', 'odd.txt'):
                        with open(w.path(source), 'w') as h:
                            h.write('<YWRITER7>')
                    if source == 'work.odt':
                        outline(w, source)
                    if state == 'exists':
                        with open(w.path('work.yw7' if source == 'work.odt' else stem + suffix + sut.EXPORTS.get(suffix, '.odt')), 'w') as h:
                            h.write('old')
                    args = [source] if source else []
                    got = run(path, args, w.dir, extra, answer)
                    results.append((got, contents(w.dir)))
            ctx.evaluated()
            ctx.state((name, source, state, answer))
            ctx.bump('application runs that wrote a file', any('written' in x for x in results[0][0][4]))
            what = f'{name} {source} {state} {answer}'
            ctx.same(results[0][0], results[1][0], 'messages', what)
            if results[0][1] != results[1][1]:
                ctx.violation('files', f'{what}: {[(k, results[0][1].get(k), results[1][1].get(k)) for k in set(results[0][1]) | set(results[1][1]) if results[0][1].get(k) != results[1][1].get(k)]}'[:1500])
        ctx.sample(what)


# --- programs --------------------------------------------------------------


def modular(w, modules, script):
    """Write a package and a script; return the script's path and the directory of the package."""
    base = w.path('lib')
    for name, text in modules.items():
        path = os.path.join(base, *name.split('.')) + '.py'
        d = os.path.dirname(path)
        while d != base:
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, '__init__.py'), 'w').close()
            d = os.path.dirname(d)
        with open(path, 'w', encoding='utf-8') as h:
            h.write(text)
    os.makedirs(w.path('app'), exist_ok=True)
    with open(w.path('app/main.py'), 'w', encoding='utf-8') as h:
        h.write(script)
    return w.path('app/main.py'), base


def compare(ctx, w, modules, script, what):
    for base, __, files in os.walk(w.dir):
        for f in files:
            os.remove(os.path.join(base, f))
    path, lib = modular(w, modules, script)
    one = run(path, [], w.dir, lib)
    ctx.evaluated()
    ctx.state((tuple(modules.items()), script))
    if one[2]:
        raise AssertionError(f'the program is wrong: {one[2]}\n{modules}\n{script}')
    target = w.path('app/built.py')
    try:
        build(path, target, lib + '/')
    except Exception as ex:
        ctx.violation('build', f'{what}: {type(ex).__name__}: {ex}')
        return
    two = run(target, [], w.dir)
    if one != two:
        with open(target, encoding='utf-8') as h:
            ctx.violation('behaviour', f'{what}: {one[:3]} / {two[:3]}\n{h.read()[:1500]}')


HEAD = '"""Module docstring.\n\nimport nothing\n"""\n'


def graph(c, ctx):
    """All orders of the import statements of one graph."""
    __, n, edges = c
    pairs = list(itertools.combinations(range(n), 2))
    needs = {i: [] for i in range(n)}
    for (a, b), e in zip(pairs, edges):
        if e:
            needs[b].append(a)
    packages = ['pywriter.p.m', 'pywriter.q.m', 'pywriter.m', 'pywriter.p.q.m'][:n]
    orders = [list(itertools.permutations(needs[i])) for i in range(n)]
    with sut.Work() as w:
        for chosen in itertools.product(*orders):
            modules = {}
            for i in range(n):
                text = HEAD + 'import os\n' + ''.join(f'from {packages[j]} import C{j}\n' for j in chosen[i])
                base = f'C{chosen[i][0]}' if chosen[i] else 'object'
                text += f'\n\nclass C{i}({base}):\n    """A class."""\n    names = [{", ".join(f"C{j}.__name__" for j in chosen[i])}]\n\n    def who(self):\n        """Return a name.\n\n        Really.\n        """\n'
                text += f'        # comment\n        return f\'{i}{{os.sep}}\' + repr(self.names) + {"super().who()" if chosen[i] else repr("end")}\n'
                modules[packages[i]] = text
            for root in itertools.chain.from_iterable(itertools.permutations(range(n), r) for r in (1, n)):
                script = '"""The application.\n\nText.\n"""\nimport sys\n' + ''.join(f'from {packages[i]} import C{i}\n' for i in root)
                script += "\n\nif __name__ == '__main__':\n" + ''.join(f'    print(C{i}().who())\n' for i in root)
                compare(ctx, w, modules, script, f'{edges} {chosen} {root}')
            if len(ctx.violations) > 5:
                return
    ctx.sample(f'{edges} {chosen}')


# Each construct uses its own names, %s is a unique number.
CONSTRUCTS = {
    'import': 'import os\nprint(os.sep)\n',
    'import as': 'import xml.etree.ElementTree as ET\nprint(ET.__name__)\n',
    'from': 'from os import path\nprint(path.sep)\n',
    'from star': 'from string import *\nprint(digits)\n',
    'package': 'from pywriter.other import other\nprint(other(%s))\n',
    'package star': 'from pywriter.other import *\nprint(other(%s))\n',
    'class': 'class K%s:\n    """A class."""\n    x = 1\n\n\nprint(K%s.x)\n',
    'docstring': 'def f%s():\n    """Line.\n\n    # not a comment\n    import nothing\n    """\n    return %s\n\n\nprint(f%s())\n',
    'comment': 'def g%s():\n    # comment\n    return 1  # more\n# comment\n#\nprint(g%s())\n',
    'text': "T%s = '''one\n  two \"x\" $y\n\n'''\nprint(repr(T%s))\n",
    'inner import': 'def h%s():\n    import json\n    return json.dumps([1])\n\n\nprint(h%s())\n',
    'inner from': 'def i%s():\n    from json import dumps\n    return dumps([%s])\n\n\nprint(i%s())\n',
    'try': 'try:\n    import nothing_at_all%s\nexcept ImportError:\n    print("none")\n',
    'name': 'important = 1\nimportant = 2\nprint(important)\nimportant = 1\nprint(important)\nimportance = [important]\nprint(importance)\n',
    'string': "print('This is important.')\nprint('import os')\nprint('#', 'from x import y')\n",
    'two': 'import re, sys\nprint(re.sub("a", "b", "a"), len(sys.argv))\n',
    'dotted': 'import os.path\nprint(os.path.sep)\n',
    'raw': "print(re_%s := '\\\\\"', r'\\1')\n",
    'if': "if True:\n    print('yes')\n\n# end\n",
}
END = {'module': ['', "\n\ndef main():\n    print('not run')\n\n\nif __name__ == '__main__':\n    main()\n", "\n\nif __name__ == '__main__':\n    print('no')\n", '# do_not_inline\nprint("")\n'],
       'script': ['', '\n\ndef main():\n    print("run")\n\n\nif __name__ == \'__main__\':\n    main()\n']}
OTHER = HEAD + "__all__ = ['other']\n\n\ndef other(n):\n    \"\"\"Return n.\"\"\"\n    return f'other {n}'\n"


def constructs(c, ctx):
    __, m, k = c
    names = list(CONSTRUCTS)
    counter = itertools.count(1)

    def text(seq):
        return ''.join(CONSTRUCTS[x].replace('%s', str(next(counter))) if CONSTRUCTS[x].count('%s') < 2 else _same(CONSTRUCTS[x], next(counter)) for x in seq)

    with sut.Work() as w:
        for r in range(m):
            for rest in itertools.product(names, repeat=r):
                seq = (names[k],) + rest
                # In the module, in the script, and distributed.
                forms = [(seq, ()), ((), seq)] + [(seq[:i], seq[i:]) for i in range(1, len(seq))]
                for inside, outside in forms:
                    for end in END['module'] if r < 2 else END['module'][:1]:
                        if 'do_not_inline' in end and inside:
                            end = '\n# do_not_inline\n'
                        module = HEAD + text(inside) + '\n\nclass Last:\n    """Last."""\n    pass\n' + (end if 'print("")' not in end else '')
                        for tail in END['script'] if not end else END['script'][:1]:
                            script = HEAD + 'from pywriter.a.module import Last\n' + text(outside) + 'print(Last.__name__)\n' + tail
                            compare(ctx, w, {'pywriter.a.module': module, 'pywriter.other': OTHER}, script, f'{inside} {outside}')
                if len(ctx.violations) > 5:
                    return
    ctx.sample(seq)


def _same(text, n):
    return text.replace('%s', str(n))


def copy(c, ctx):
    """The package is copied to the application, if told so."""
    with sut.Work() as w:
        os.makedirs(w.path('PyWriter'))
        os.makedirs(w.path('app/src'))
        modules = {'pywriter.a.one': HEAD + 'from pywriter.two import B\n\n\nclass A(B):\n    pass\n', 'pywriter.two': HEAD + 'class B:\n    """B."""\n    x = 1\n', 'pywriter.three': 'x = 3\n'}
        for name, text in modules.items():
            path = w.path('PyWriter/src/' + name.replace('.', '/') + '.py')
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as h:
                h.write(text)
        for there in (False, True):
            with open(w.path('app/src/main.py'), 'w') as h:
                h.write('from pywriter.a.one import A\nprint(A.x)\n')
            if there:
                with open(w.path('app/src/pywriter/two.py'), 'w') as h:
                    h.write('class B:\n    x = 2\n')
            build(w.path('app/src/main.py'), w.path('app/built.py'), w.path('app') + '/../PyWriter/src/', True)
            ctx.evaluated()
            ctx.state(there)
            files = sorted(os.path.relpath(os.path.join(b, f), w.dir) for b, __, fs in os.walk(w.dir) for f in fs)
            ctx.note = files
            ctx.sample(files)
            got = run(w.path('app/built.py'), [], w.dir)
            ctx.same(('1\n', None), (got[0], got[2]), 'copy', f'{there}')
