"""C16: no failure or crash at any point of a write loses a previous version or leaves a wrong file behind as a success."""
import io
import os
import re
import shutil
import zipfile

from mc import faults, odf, prj, proj, sut
from mc.checks import c15

from pywriter.file.file_export import FileExport

ID = 'C16'
TITLE = 'Failing or interrupted writes never lose the previous version of a file'
LEVEL = 'fault_enumeration'
RULE = ('For every writing operation (saving a project, new or existing; exporting text documents and spreadsheets, new or '
        'existing; writing text files from the templates of an application; importing; creating a project) every point where the interpreter opens, creates, renames, or removes a file or '
        'directory is made to fail (once; once for lack of memory; every write from there on; everything from there on) and to be the last one before the '
        'process dies; and every limit up to the largest file size is put on the bytes a file can take, with the process getting the '
        'error or dying. After each fault: previous version, other files, report, and what is left; then the operation is repeated. '
        'Non-trivial: the fault was reached; distinct by operation, mode, and point.')
ASSUMPTIONS = ['A crash means that the process dies; what it has written before stays (no loss of operating system buffers).',
               'An older backup may be lost if writing fails.', 'The writing of data exchange files (characters, locations, items) is not '
               'part of this: they are never backed up.']
BOUNDS = {'quick': 'single faults at all points and pairs of crashes (projects); byte limits in steps of 16 (projects) and 256 (documents)',
          'thorough': 'single faults at all points, pairs of crashes (projects), and all byte limits (documents: in steps of 8)'}
OPS = ['save', 'save new', 'import', 'create', 'export _manuscript', 'export _manuscript new', 'export _charlist', 'export _charlist new',
       'export ', 'export _xref', 'export _scenelist new', 'template', 'template new']
AGAIN = ['again', 'again _listing', 'again _manuscript', 'again _charlist', 'again ', 'again _xref', 'again _scenelist']
MODES = ['fail', 'memory', 'full', 'gone', 'crash']
BATCH = 40


def op_save(d):
    f = sut.read(os.path.join(d, 'p.yw7'))
    f.novel.title = 'Changed title'
    f.novel.scenes['1'].sceneContent = 'Changed text.'
    f.write()
    return True, ''


def op_save_new(d):
    f = sut.read(os.path.join(d, 'src', 'p.yw7'))
    g = sut.Yw7File(os.path.join(d, 'p.yw7'))
    g.novel = f.novel
    g.write()
    return True, ''


def op_template(d):
    f = sut.read(os.path.join(d, 'p.yw7'))
    t = Listing(os.path.join(d, 'p_listing.txt'))
    t.novel = f.novel
    t.write()
    return True, ''


class Listing(FileExport):
    """An export of an application, with its own templates."""
    DESCRIPTION = 'Listing'
    EXTENSION = '.txt'
    SUFFIX = '_listing'
    _fileHeader = '$Title: $Desc\n'
    _chapterTemplate = '$ChapterNumber $Title\n'
    _sceneTemplate = '$SceneNumber $Title: $SceneContent\n'
    _characterTemplate = '$Title\n'


class Refused(Exception):
    pass


def op_again(d, suffix):
    """Write with one object; if this fails, the same object must be able to do it later."""
    f = sut.read(os.path.join(d, 'p.yw7'))
    if suffix is None:
        t = f
        t.novel.title = 'Changed title'
    elif suffix == '_listing':
        t = Listing(os.path.join(d, 'p_listing.txt'))
    else:
        cls, = (c for c in sut.Yw7Converter.EXPORT_TARGET_CLASSES if c.SUFFIX == suffix)
        t = cls(os.path.join(d, f'p{suffix}{sut.EXPORTS[suffix]}'))
    t.novel = f.novel
    try:
        t.write()
    except sut.Error as ex:
        try:
            t.write()
        except Exception as ex2:
            raise Refused(f'{ex}, and then: {ex2!r}')
    return True, ''


def op_convert(d, name, suffix=''):
    cnv = sut.Yw7Converter()
    cnv.ui = sut.RecUi()
    cnv.run(os.path.join(d, name), suffix=suffix)
    return cnv.newFile is not None, cnv.ui.infoHowText


def func(op):
    """Return (function, arguments after the directory, target)."""
    if op == 'save':
        return op_save, (), 'p.yw7'
    if op == 'save new':
        return op_save_new, (), 'p.yw7'
    if op.startswith('again'):
        suffix = op[len('again '):] if ' ' in op else None
        return op_again, (suffix,), 'p.yw7' if suffix is None else 'p_listing.txt' if suffix == '_listing' else f'p{suffix}{sut.EXPORTS[suffix]}'
    if op.startswith('template'):
        return op_template, (), 'p_listing.txt'
    if op == 'import':
        return op_convert, ('p_manuscript.odt',), 'p.yw7'
    if op == 'create':
        return op_convert, ('w.odt',), 'w.yw7'
    suffix = op[len('export '):].replace(' new', '')
    return op_convert, ('p.yw7', suffix), f'p{suffix}{sut.EXPORTS[suffix]}'


def setup(d, op):
    """Fill the directory the operation starts in."""
    os.makedirs(d)
    docs = start_docs()
    target = func(op)[2]
    files = {'other.yw7': docs['project'], 'p.yw7': docs['project'], 'w.odt': c15.WIP}
    if op == 'save new':
        del files['p.yw7']
        os.mkdir(os.path.join(d, 'src'))
        files['src/p.yw7'] = docs['project']
    if op == 'import':
        files['p_manuscript.odt'] = c15.replace_in(docs['_manuscript'], 'Second text.', 'Changed text.')
    if op == 'template':
        files[target] = b'old listing'
    if op.startswith('again') and target != 'p.yw7':
        files[target] = b'old'
    if op.startswith('export') and not op.endswith(' new'):
        files[target] = c15.replace_in(docs[op[len('export '):]], 'Project 1', 'Old')
    for n, x in files.items():
        with open(os.path.join(d, n), 'wb') as f:
            f.write(x)
    return target


_docs = {}


def start_docs():
    if not _docs:
        with sut.Work() as w:
            sut_path = w.path('p.yw7')
            p = c15.project()
            prj.save(p, sut_path)
            sut.rewrite(sut_path)
            os.remove(sut_path + '.bak')
            with open(sut_path, 'rb') as f:
                _docs['project'] = f.read()
            for s in ('', '_manuscript', '_charlist', '_xref', '_scenelist'):
                with open(sut.export(sut_path, s), 'rb') as f:
                    _docs[s] = f.read()
    return _docs


def canon(name, content, d):
    c = c15.canon(name, content)
    if isinstance(c, tuple):
        return tuple((n, x.replace(d.encode(), b'')) for n, x in c)
    return c


def plain(op):
    """Run the operation without a fault; return (events, largest file, target content)."""
    with sut.Work() as w:
        d = w.path('w')
        target = setup(d, op)
        f, args, __ = func(op)
        before = sut.listing(d)
        o = faults.run(f, (d,) + args, w.dir, 'none', 0)
        if not o.value or not o.value[0]:
            raise AssertionError(f'{op} fails without a fault: {o.exception} {o.value}')
        after = sut.listing(d)
        # The largest file the operation may write is bounded by what the package contains.
        size = len(after[target])
        if target.endswith(('.odt', '.ods')):
            with zipfile.ZipFile(io.BytesIO(after[target])) as z:
                size = max([size] + [i.file_size for i in z.infolist()])
        else:
            size *= 2
        return o.events, size, canon(target, after[target], w.dir), before.get(target), after[target]


_plain = {}


def known(op):
    if op not in _plain:
        _plain[op] = plain(op)
    return _plain[op]


def cases(tier):
    for op in AGAIN:
        # The working directory does not vanish here.
        points = [k for k, e in enumerate(known(op)[0]) if e[0] != 'os.chdir']
        for a in range(0, len(points), BATCH):
            yield [op, 'fail', points[a:a + BATCH]]
    for op in OPS:
        n = len(known(op)[0])
        for mode in MODES:
            for a in range(0, n, BATCH):
                yield [op, mode, list(range(a, min(a + BATCH, n)))]
        size = known(op)[1]
        step = 8 if tier == 'thorough' and op.startswith('export') else 1 if tier == 'thorough' else 256 if op.startswith('export') else 16
        points = list(range(0, size + step, step))
        for mode in ('limit', 'torn'):
            for a in range(0, len(points), BATCH):
                yield [op, mode, points[a:a + BATCH]]
    for op in OPS[:4]:
        for k in range(len(known(op)[0])):
            yield [op, 'crash twice', [k]]


def case(c, ctx):
    op, mode, points = c
    for n in points:
        before = len(ctx.violations)
        one(op, mode, n, ctx)
        for v in ctx.violations[before:]:
            v['case'] = [op, mode, [n]]
        if len(ctx.violations) > 5:
            return


def one(op, mode, n, ctx):
    events, __, new, __, __ = known(op)
    if mode == 'crash twice':
        m = 0
        while True:
            if not crash_pair(op, n, m, ctx):
                return
            m += 1
    with sut.Work() as w:
        d = w.path('w')
        target = setup(d, op)
        f, args, __ = func(op)
        before = sut.listing(d)
        old = before.get(target)
        o = faults.run(f, (d,) + args, w.dir, mode, n)
        what = f'{op}, {mode} at {n}{": " + str(events[n]) if mode in MODES and n < len(events) else ""}: {o.value or o.exception or "died"}'
        ctx.evaluated()
        reached = o.died or not o.value or not o.value[0] or mode in MODES
        if reached:
            ctx.key((op, mode, n))
        judge(op, mode, n, what, ctx, w, d, target, before, old, new, o, events)
        # Once the disk works again, so must the operation.
        if not (o.value and o.value[0]):
            retry(op, mode, what, ctx, w, d, target, old, new)


def judge(op, mode, n, what, ctx, w, d, target, before, old, new, o, events):
    after = sut.listing(d)
    sig = f'{op.split()[0]}-{mode}'
    weak = mode in ('crash', 'torn', 'gone')
    if not o.died:
        ok = bool(o.value and o.value[0])
        if o.exception and mode != 'gone':
            ctx.expect('Error' in o.exception[2] or mode == 'memory', f'{sig}-exception', what)
        elif not ok and not o.exception:
            ctx.expect(o.value[1].startswith('FAIL'), f'{sig}-message', what)
        if ok:
            ctx.expect(canon(target, after.get(target, b''), w.dir) == new, f'{sig}-incomplete-success', what)
        if mode != 'gone' and not (mode in ('fail', 'memory') and events[n][0] == 'os.chdir'):
            ctx.expect(o.cwd_kept, f'{sig}-cwd', what)
        if mode in ('limit', 'full') or mode in ('fail', 'memory') and 'TMP' not in events[n][1] and events[n][0] in ('open', 'os.rename', 'os.remove', 'os.chdir'):
            ctx.expect(not o.left, f'{sig}-temporary', f'{what}: {o.left}')
    else:
        ok = False
    rest = {k: v for k, v in after.items() if k not in (target, target + '.bak')}
    expected = {k: v for k, v in before.items() if k not in (target, target + '.bak')}
    if rest != expected:
        ctx.violation(f'{sig}-other-files', f'{what}: {c15.changes(expected, rest)}')
    now, bak = after.get(target), after.get(target + '.bak')
    complete = now is not None and canon(target, now, w.dir) == new
    if ok:
        return
    if not weak:
        if now != old and not (complete and bak == old and 'os.chdir' in what):
            ctx.violation(f'{sig}-not-restored', f'{what}: previous {None if old is None else len(old)} bytes, now '
                          f'{None if now is None else len(now)}, backup {None if bak is None else len(bak)}')
        return
    if old is not None and now != old and bak != old:
        ctx.violation(f'{sig}-lost', f'{what}: neither the file nor its backup is the previous version')
    if now is not None and now != old and not complete:
        partial(sig, what, ctx, d, target)


def partial(sig, what, ctx, d, target):
    """An incomplete file must not be taken for a complete one."""
    path = os.path.join(d, target)
    if target.endswith('.yw7'):
        try:
            v = sut.view(sut.read(path).novel)
        except sut.Error:
            return
        ctx.expect(v == full_view(sig.split('-')[0]), f'{sig}-partial-project', what)
    else:
        try:
            odf.Odf(path)
        except odf.OdfError:
            return
        ctx.violation(f'{sig}-partial-document', what)


_views = {}


def full_view(op):
    """The project a successful operation writes."""
    op = {'save': 'save', 'import': 'import', 'create': 'create'}[op]
    if op not in _views:
        with sut.Work() as w:
            path = w.path('x.yw7')
            for o in ('save', 'save new') if op == 'save' else (op,):
                with open(path, 'wb') as f:
                    f.write(known(o)[4])
                _views.setdefault(op, []).append(sut.view(sut.read(path).novel))
    return _AnyOf(_views[op])


class _AnyOf:

    def __init__(self, values):
        self.values = values

    def __eq__(self, other):
        return any(other == v for v in self.values)


_retried = set()


def retry(op, mode, what, ctx, w, d, target, old, new):
    after = sut.listing(d)
    state = (op, mode in ('crash', 'torn', 'gone'), tuple(sorted((k, canon(k, v, w.dir)) for k, v in after.items())))
    if state in _retried:
        return
    _retried.add(state)
    f, args, __ = func(op)
    o = faults.run(f, (d,) + args, w.dir, 'none', 0)
    sig = f'{op.split()[0]}-{mode}-retry'
    now = sut.listing(d)
    if o.value and o.value[0]:
        x = canon(target, now.get(target, b''), w.dir)
        if x != new and target.endswith('.yw7'):
            # Saved again, the project may only differ from the one saved once as saving does.
            ctx.expect(sut.view(sut.read(os.path.join(d, target)).novel) == full_view(op.split()[0]), f'{sig}-result', what)
        else:
            ctx.expect(x == new, f'{sig}-result', what)
        return
    # Refused: this is right only if the target is damaged or missing; then nothing may change.
    ctx.expect(mode in ('crash', 'torn', 'gone'), f'{sig}-refused', f'{what}: {o.value or o.exception}')
    if after != now:
        ctx.violation(f'{sig}-changes', f'{what}: {c15.changes(after, now)}')


def crash_pair(op, n, m, ctx):
    """Crash at n, and again at m when repeating; return False if m is not reached."""
    with sut.Work() as w:
        d = w.path('w')
        target = setup(d, op)
        f, args, __ = func(op)
        before = sut.listing(d)
        old = before.get(target)
        faults.run(f, (d,) + args, w.dir, 'crash', n)
        o = faults.run(f, (d,) + args, w.dir, 'crash', m)
        ctx.evaluated()
        ctx.key((op, 'twice', n, m))
        what = f'{op}, crash at {n}, repeated, crash at {m}'
        after = sut.listing(d)
        rest = {k: v for k, v in after.items() if k not in (target, target + '.bak')}
        if rest != {k: v for k, v in before.items() if k not in (target, target + '.bak')}:
            ctx.violation(f'{op.split()[0]}-twice-other-files', what)
        now, bak = after.get(target), after.get(target + '.bak')
        if old is not None and target.endswith('.yw7'):
            good = [x for x in (now, bak) if x is not None and (x == old or _readable(x, w, op))]
            if not good:
                ctx.violation(f'{op.split()[0]}-twice-lost', f'{what}: neither the file nor its backup is a complete version')
        return o.died


def _readable(content, w, op):
    path = w.path('check.yw7')
    with open(path, 'wb') as f:
        f.write(content)
    try:
        return sut.view(sut.read(path).novel) == full_view(op.split()[0])
    except sut.Error:
        return False
