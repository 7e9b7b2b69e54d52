"""C15: every conversion reads and writes the files it should, or refuses and changes nothing."""
import io
import itertools
import os
import re
import zipfile

from mc import odf, pristine, prj, proj, sut

from pywriter.converter.yw7_exporter import Yw7Exporter
from pywriter.converter.yw7_importer import Yw7Importer

ID = 'C15'
TITLE = 'A conversion writes exactly its target, or refuses and changes nothing'
LEVEL = 'model_checking'
RULE = ('(1) All combinations of source file names (every document type, doubled, mixed and unknown suffixes and extensions), '
        'source contents, project states (missing, present, locked, damaged), target states (missing, file, empty file, directory), '
        'answers to the overwrite question, and converters: a table says whether the conversion has to succeed and what it has to '
        'write; everything else must stay byte by byte, the result and message must say what happened. (2) All histories of at '
        'most n operations (exports, imports, creations, refused and declined ones, edits of two projects, locking, deleting) made '
        'with one converter: every step must give what the operation gives with a new converter in a new process and a new '
        'directory. States: distinct directory contents; transitions: conversions.')
ASSUMPTIONS = ['File names have lower-case extensions.', 'A yWriter lock is a file named after the project with ".lock" appended.']
BOUNDS = {'quick': 'n=3 over 18 operations', 'thorough': 'n=4 over 18 operations'}
NOT_BACK = ('_xref', '_brf_synopsis')
CLASSES = {'converter': sut.Yw7Converter, 'exporter': Yw7Exporter, 'importer': Yw7Importer}
DIRS = ['w', 'a b', 'x_manuscript', 'p.yw7', 'p_notes.odt', '.h']
HTML = '<text:p text:style-name="Text_20_body">'


def odt(body):
    """Return a minimal text document."""
    out = io.BytesIO()
    xmlns = ' '.join(f'xmlns:{k}="{v}"' for k, v in odf.NS.items())
    with zipfile.ZipFile(out, 'w') as z:
        z.writestr('mimetype', odf.MIME['.odt'])
        z.writestr('meta.xml', '<?xml version="1.0" encoding="UTF-8"?><office:document-meta ' + xmlns
                   + '><office:meta><dc:title>T</dc:title><dc:description>D</dc:description></office:meta></office:document-meta>')
        z.writestr('styles.xml', f'<?xml version="1.0" encoding="UTF-8"?><office:document-styles {xmlns}><office:styles/></office:document-styles>')
        z.writestr('content.xml', '<?xml version="1.0" encoding="UTF-8"?><office:document-content '
                   + xmlns + f'><office:body><office:text>{body}</office:text></office:body></office:document-content>')
    return out.getvalue()


WIP = odt('<text:h text:style-name="Heading_20_1" text:outline-level="1">Part</text:h>'
          '<text:h text:style-name="Heading_20_2" text:outline-level="2">Chapter</text:h>'
          '<text:p text:style-name="Text_20_body">Words.</text:p>')
OUTLINE = odt('<text:h text:style-name="Heading_20_1" text:outline-level="1">Part</text:h>'
              '<text:h text:style-name="Heading_20_2" text:outline-level="2">Chapter</text:h>'
              '<text:h text:style-name="Heading_20_3" text:outline-level="3">Scene</text:h>'
              '<text:p text:style-name="Text_20_body">Description.</text:p>')


def project(k=1):
    p = proj.plain()
    p['title'] = f'Project {k}'
    p['scenes'] = {'1': proj.scene(title='One', content=f'First text of {k}.', desc='d1', chars=['1']),
                   '2': proj.scene(title='Two', content='Second text.', desc='d2', locs=['1'])}
    p['chapters'] = [{'id': '1', 'title': 'Chapter', 'scenes': ['1', '2'], 'desc': 'cd'},
                     {'id': '2', 'title': 'Part', 'desc': 'pd', 'scenes': [], 'level': 1}]
    p['scenes']['3'] = proj.scene(title='N', content='Notes', type=1, status='1')
    p['scenes']['4'] = proj.scene(title='T', content='Todo', type=2, status='1')
    p['chapters'] += [{'id': '3', 'title': 'Notes', 'type': 1, 'scenes': ['3']}, {'id': '4', 'title': 'Todo', 'type': 2, 'scenes': ['4']}]
    return p


def names():
    """All source file names, based on "p"."""
    out = ['p.yw7']
    for s in sut.EXPORTS:
        for e in ('.odt', '.ods'):
            out.append(f'p{s}{e}')
        if s:
            e = sut.EXPORTS[s]
            out += [f'p{s}{s}{e}', f'p_manuscript{s}{e}', f'p{s}_x{e}', f'{s}{e}', f'p{s}.yw7{e}', f'p.{s}{e}']
    out += ['p.txt', 'p', 'p_manuscript.docx', 'p_manuscript', 'p.yw6', 'p.yw7.bak', 'p_unknown.odt', 'p.odt.odt']
    seen = []
    for n in out:
        if n not in seen:
            seen.append(n)
    return seen


def cases(tier):
    for i, n in enumerate(names()):
        yield ['table', n, DIRS[i % len(DIRS)]]
    ops = range(len(OPS))
    n = 3 if tier == 'quick' else 4
    for h in itertools.product(ops, repeat=2):
        yield ['history', list(h), n]


def expect(name, suffix, there, locked, damaged, answer, cls, is_dir=()):
    """Return the name of the file to write, or None to refuse.  'there': set of regular files."""
    if name not in there:
        return None
    base, ext = os.path.splitext(name)
    if ext == '.yw7':
        if cls == 'importer' or suffix not in sut.EXPORTS:
            return None
        target = f'{base}{suffix}{sut.EXPORTS[suffix]}'
        if name in locked or name in damaged or target in is_dir:
            return None
        return target if target not in there or answer else None
    if cls == 'exporter':
        return None
    for s in sut.IMPORTS:
        if name.endswith(s + sut.EXPORTS[s]):
            target = name[:-len(s + sut.EXPORTS[s])] + '.yw7'
            if target not in there or target in locked or target in damaged or name in damaged:
                return None
            return target if answer else None
    if ext != '.odt' or base.endswith(NOT_BACK):
        return None
    target = base + '.yw7'
    if target in there or target in locked or name in damaged or target in is_dir:
        return None
    return target


_docs = {}


def documents():
    """Contents of the documents exported from the project."""
    if not _docs:
        with sut.Work() as w:
            prj.save(project(), w.path('p.yw7'))
            sut.rewrite(w.path('p.yw7'))
            os.remove(w.path('p.yw7.bak'))
            with open(w.path('p.yw7'), 'rb') as f:
                _docs['project'] = f.read()
            for s in sut.EXPORTS:
                with open(sut.export(w.path('p.yw7'), s), 'rb') as f:
                    _docs[s] = f.read()
    return _docs


def source_content(name, kind):
    docs = documents()
    if kind == 'damaged':
        return b'PK no document'
    if name.endswith('.yw7'):
        return docs['project']
    for s in sut.IMPORTS:
        if name.endswith(s + sut.EXPORTS[s]):
            return docs[s]
    return WIP if kind == 'good' else OUTLINE


def case(c, ctx):
    if c[0] == 'table':
        table(c, ctx)
    else:
        history(c, ctx)


def table(c, ctx):
    __, name, dname = c
    docs = documents()
    suffixes = list(sut.EXPORTS) + ['_unknown', 'manuscript', '_Manuscript', '_manuscript.odt', '_data', ' '] if name.endswith('.yw7') else ['', '_proof']
    is_yw = name.endswith('.yw7')
    # What the conversion is about to write, if anything.
    for suffix, cls in itertools.product(suffixes, CLASSES):
        target = expect(name, suffix, {name, re.sub(r'(.*)(_[a-z]+)\.od[ts]$', r'\1.yw7', name)}, (), (), True, cls)
        for kind, state, answer in itertools.product(('good', 'other', 'damaged', 'missing'), ('no', 'file', 'empty', 'damaged', 'locked', 'lock only', 'dir'),
                                                     (True, False)):
            if is_yw and state == 'damaged':
                continue
            run_table(ctx, dname, name, suffix, cls, target, kind, state, answer, docs)


def run_table(ctx, dname, name, suffix, cls, target, kind, state, answer, docs):
    with sut.Work() as w:
        d = w.path(dname)
        os.mkdir(d)
        files = {'other.yw7': docs['project'], 'other_manuscript.odt': docs['_manuscript']}
        locked, damaged, dirs = set(), set(), set()
        if kind != 'missing':
            files[name] = source_content(name, kind)
            if kind == 'damaged':
                damaged.add(name)
        elif name in files:
            del files[name]
        if target is not None:
            t_good = docs['project'] if target.endswith('.yw7') else b'old document'
            if state in ('file', 'locked'):
                files[target] = t_good
            elif state == 'empty':
                files[target] = b''
                if target.endswith('.yw7'):
                    damaged.add(target)
            elif state == 'damaged':
                files[target] = t_good[:-40]
                damaged.add(target)
            elif state == 'dir':
                dirs.add(target)
                os.mkdir(os.path.join(d, target))
        if state in ('locked', 'lock only'):
            lock = target if target and target.endswith('.yw7') else name
            locked.add(lock)
            files[f'{lock}.lock'] = b''
        for n, content in files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(content)
        wanted = expect(name, suffix, set(files), locked, damaged, answer, cls, dirs)
        before = sut.listing(w.dir)
        cwd = os.getcwd()
        result = sut.convert(os.path.join(d, name), suffix, answer, CLASSES[cls])
        ctx.step()
        ctx.trace()
        what = f'{dname}/{name} suffix={suffix!r} {cls} source={kind} target {target}={state} answer={answer}: {result}'
        sig = f'{"export" if name.endswith(".yw7") else "import"}'
        ctx.expect(os.getcwd() == cwd, f'{sig}-cwd', what)
        os.chdir(cwd)
        judge(ctx, sig, what, before, sut.listing(w.dir), os.path.join(dname, ''), wanted, result, d)
        ctx.key((name, suffix, cls, kind, state, answer, wanted))
        asked = bool(wanted and wanted in files) or (not answer and expect(name, suffix, set(files), locked, damaged, True, cls, dirs) in files)
        if asked:
            ctx.expect(result.ui.asked and (wanted or expect(name, suffix, set(files), locked, damaged, True, cls, dirs)) in result.ui.asked[0],
                       f'{sig}-not-asked', what)


def judge(ctx, sig, what, before, after, prefix, wanted, result, d):
    if wanted is None:
        ctx.expect(not result.ok, f'{sig}-refused-new-file', what)
        ctx.expect(result.failed, f'{sig}-refused-message', what)
        if before != after:
            ctx.violation(f'{sig}-refused-changes', f'{what}\nchanged: {changes(before, after)}')
        return False
    if not result.ok or result.failed:
        ctx.violation(f'{sig}-failed', what)
        return False
    ctx.expect(os.path.realpath(result.newFile) == os.path.realpath(os.path.join(d, wanted)), f'{sig}-new-file', what)
    ctx.expect(wanted in result.message, f'{sig}-message', what)
    key = prefix + wanted
    rest = dict(after)
    new = rest.pop(key, None)
    bak = rest.pop(key + '.bak', None)
    old = dict(before)
    prev = old.pop(key, None)
    prevbak = old.pop(key + '.bak', None)
    if rest != old:
        ctx.violation(f'{sig}-other-files', f'{what}\nchanged: {changes(old, rest)}')
    if prev is not None:
        ctx.expect(bak == prev, f'{sig}-backup', what)
    else:
        ctx.expect(bak == prevbak, f'{sig}-backup', what)
    if not ctx.expect(new is not None, f'{sig}-nothing-written', what):
        return False
    try:
        if wanted.endswith('.yw7'):
            v = sut.read(os.path.join(d, wanted)).novel
            ctx.expect(len(v.srtChapters) >= 1, f'{sig}-content', what)
        else:
            odf.Odf(os.path.join(d, wanted))
    except (odf.OdfError, sut.Error) as ex:
        if not (f'{wanted}.lock' in str(after) and wanted.endswith('.yw7')):
            ctx.violation(f'{sig}-content', f'{what}: {ex!r}')
    return True


def changes(a, b):
    return {'gone': sorted(set(a) - set(b)), 'new': sorted(set(b) - set(a)), 'different': sorted(k for k in a if k in b and a[k] != b[k])}


# -- histories ----------------------------------------------------------------
OPS = ([['export', 'p', s, True] for s in ('', '_manuscript', '_charlist', '_scenes', '_xref')]
       + [['import', 'p', s, True] for s in ('_manuscript', '_charlist', '_scenes')]
       + [['export', 'p', '_manuscript', False], ['import', 'p', '_manuscript', False], ['export', 'w', '_manuscript', True],
          ['import', 'w', '_manuscript', True], ['create', 'w'], ['edit', 'p', 'First', 'Other'], ['edit', 'w', 'Words', 'New'],
          ['lock', 'p'], ['delete', 'p_manuscript.odt'], ['split', 'p']])


def canon(name, content):
    """What a file says, without dates and compression."""
    if name.endswith(('.odt', '.ods', '.odt.bak', '.ods.bak')):
        try:
            with zipfile.ZipFile(io.BytesIO(content)) as z:
                return tuple((n, re.sub(rb'\d{4}-\d\d-\d\dT[\d:]+', b'', z.read(n))) for n in z.namelist())
        except zipfile.BadZipFile:
            return content
    return content


def plain_run(files, name, suffix, answer):
    """Run one conversion in a new directory; return its outcome and the directory (for the pristine process)."""
    with sut.Work() as w:
        d = w.path('w')
        os.mkdir(d)
        for n, content in files.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(content)
        r = sut.convert(os.path.join(d, name), suffix, answer)
        return r.ok, r.message.replace(w.dir, ''), len(r.ui.warnings), len(r.ui.asked), sut.listing(d)


_clean = {}


def clean(files, name, suffix, answer):
    key = (tuple(sorted((n, canon(n, x)) for n, x in files.items())), name, suffix, answer)
    if key not in _clean:
        _clean[key] = pristine.call(plain_run, files, name, suffix, answer)
    return _clean[key]


def replace_in(content, a, b):
    out = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(content)) as z, zipfile.ZipFile(out, 'w') as o:
        for n in z.namelist():
            x = z.read(n)
            o.writestr(n, x.replace(a.encode(), b.encode()) if n == 'content.xml' else x)
    return out.getvalue()


def history(c, ctx):
    __, start, n = c
    for rest in itertools.product(range(len(OPS)), repeat=n - len(start)):
        h = [OPS[i] for i in start + list(rest)]
        one_history(ctx, h)
        if len(ctx.violations) >= 5:
            return


def one_history(ctx, h):
    with sut.Work() as w:
        d = w.path('w')
        os.mkdir(d)
        start = {'p.yw7': documents_clean()['project'], 'w.odt': WIP}
        for n, content in start.items():
            with open(os.path.join(d, n), 'wb') as f:
                f.write(content)
        c = sut.Yw7Converter()
        for step, op in enumerate(h):
            files = sut.listing(d)
            if op[0] in ('export', 'import', 'create'):
                if op[0] == 'export':
                    name, suffix, answer = f'{op[1]}.yw7', op[2], op[3]
                elif op[0] == 'import':
                    name, suffix, answer = f'{op[1]}{op[2]}{sut.EXPORTS[op[2]]}', '', op[3]
                else:
                    name, suffix, answer = f'{op[1]}.odt', '', True
                wanted = expect(name, suffix, set(files), {n[:-5] for n in files if n.endswith('.lock')}, (), answer, 'converter')
                c.ui = sut.RecUi(answer)
                c.run(os.path.join(d, name), suffix=suffix)
                r = sut.Result(c.ui, c.newFile)
                what = f'{h[:step + 1]}: {r}'
                after = sut.listing(d)
                ctx.step()
                judge(ctx, f'history-{op[0]}', what, files, after, '', wanted, r, d)
                ref = clean(files, name, suffix, answer)
                if (r.ok, r.message.replace(w.dir, ''), len(r.ui.warnings), len(r.ui.asked)) != ref[:4]:
                    ctx.violation(f'history-{op[0]}-report', f'{what}\nwith a new converter: {ref[:4]}')
                a = {k: canon(k, v) for k, v in after.items()}
                b = {k: canon(k, v) for k, v in ref[4].items()}
                if a != b:
                    ctx.violation(f'history-{op[0]}-result', f'{what}\nfiles differ from those of a new converter: {changes(a, b)}')
                if ctx.state((sorted(a.items()))):
                    ctx.trace()
            elif op[0] == 'edit':
                path = os.path.join(d, f'{op[1]}.yw7')
                if not os.path.isfile(path):
                    return
                with open(path, 'rb') as f:
                    x = f.read()
                a, b = op[2].encode(), op[3].encode()
                with open(path, 'wb') as f:
                    f.write(x.replace(a, b) if a in x else x.replace(b, a))
            elif op[0] == 'split':
                path = os.path.join(d, 'p_manuscript.odt')
                if not os.path.isfile(path):
                    return
                with open(path, 'rb') as f:
                    x = f.read()
                with open(path, 'wb') as f:
                    f.write(replace_in(x, 'Second text.</text:p>', f'Second text.</text:p>{HTML}### New</text:p>{HTML}More.</text:p>'))
            elif op[0] == 'lock':
                path = os.path.join(d, 'p.yw7.lock')
                if os.path.exists(path):
                    os.remove(path)
                else:
                    with open(path, 'w'):
                        pass
            elif op[0] == 'delete':
                if not os.path.isfile(os.path.join(d, op[1])):
                    return
                os.remove(os.path.join(d, op[1]))


def prepare():
    """The clean processes must be forked before this worker has run any conversion."""
    pristine.call(plain_run, {}, 'none', '', True)
    pristine.call(make_start)


_start = {}


def make_start():
    return {'project': documents()['project']}


def documents_clean():
    if not _start:
        _start.update(pristine.call(make_start))
    return _start
