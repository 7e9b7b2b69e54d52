"""C31: what the program does does not depend on the environment it runs in."""
import itertools
import json
import os
import re
import subprocess
import sys

from mc import env, prj, proj, sut

ID = 'C31'
TITLE = 'Results do not depend on the environment the program runs in'
LEVEL = 'exploration'
RULE = ('One evaluation is a program run: all exports, all imports, a new project, saving, and writing and reading settings, as a new process in one environment. '
        'All environments that deviate from the ordinary one in at most n of the dimensions: system locale, default encoding and line ends of text files, hash seed, '
        'time zone, working directory and form of the path, temporary directory, file systems that do not resolve paths, file mode mask, interpreter options. The files (apart from time stamps) and results must be those of the ordinary environment. '
        'For a project without language, they must show that of the system, or none. Distinct: environments.')
ASSUMPTIONS = ['Line ends of text files do not matter.', 'Paths can be expressed in the encoding of the file system.']
BOUNDS = {'quick': 'n=1, and n=2 with two other values for each dimension', 'thorough': 'n=4'}

DIM = {
    # The value of the ordinary environment comes first.
    'locale': ['en_US.UTF-8', 'C.UTF-8', 'C', 'POSIX', 'C ascii', 'de_DE.UTF-8', 'xx', 'unset'],
    'windows': [False, True],
    'seed': ['0', '1', '2', '3', 'random'],
    'zone': ['UTC', 'America/New_York', 'XYZ-14'],
    'where': ['absolute', 'inside', 'dot', 'parent', 'up', 'link'],
    'tmp': ['shm', 'disk', 'blank'],
    'umask': [None, 0o077, 0o000],
    'virtual': [False, True],
    'python': ['', '-O', '-OO', '-I', '-X dev', '-X utf8=0', '-X utf8=1'],
}
NAMES = list(DIM)
# What the system says when it is asked directly, and what a project without language becomes.
SYSTEM = [(['en_US', 'UTF-8'], ('en', 'US')), (['de_AT', 'UTF-8'], ('de', 'AT')), ([None, None], ('zxx', 'none')), (['C', 'UTF-8'], ('zxx', 'none')),
          (['fr_CA', None], ('fr', 'CA'))]


def cases(tier):
    n = 2 if tier == 'quick' else 4
    for r in range(n + 1):
        for dims in itertools.combinations(NAMES, r):
            few = 3 if tier == 'quick' and r == 2 else 9
            for values in itertools.product(*(DIM[d][1:few] for d in dims)):
                if not ('virtual' in dims and 'where' in dims):
                    yield ['env', dict(zip(dims, values))]
    for i in range(len(SYSTEM)):
        yield ['system', i]


def ops(name):
    out = [['save', name]]
    for s in sut.EXPORTS:
        out.append(['convert', name, s])
    for s in sut.IMPORTS:
        out.append(['convert', name[:-4] + s + sut.EXPORTS[s], ''])
    out += [['convert', 'wip.odt', ''], ['save', 'wip.yw7'], ['convert', 'wip.yw7', '_manuscript'], ['config', 'settings.ini']]
    return out


def project():
    p = proj.rich()
    p['title'] = 'Rich \u4e2d \u20ac \U0001f600 & <x>'
    p['scenes']['7']['content'] = '[lang=fr]un[/lang=fr] [lang=es]uno[/lang=es] [lang=it]uno[/lang=it] [lang=pt-BR]um[/lang=pt-BR] /* note */ \u4e2d\n\u20ac'
    return p


_wip = []


def wip():
    if not _wip:
        with sut.Work() as w:
            path = w.path('x.yw7')
            prj.save(proj.plain(), path)
            doc = sut.export(path, '')
            with open(doc, 'rb') as h:
                _wip.append(h.read())
    return _wip[0]


def run(values, p, the_ops, locale=None):
    """Run the operations in an environment; return what came out, without the directory."""
    v = {n: values.get(n, DIM[n][0]) for n in NAMES}
    with sut.Work() as w:
        root = w.path('r')
        d = os.path.join(root, 'a', 'b')
        os.makedirs(d)
        tmp = {'shm': w.path('t'), 'disk': None, 'blank': w.path('t &  x')}[v['tmp']]
        if tmp is None:
            import tempfile
            tmp = disk = tempfile.mkdtemp(prefix='mcscratch-env', dir='/var/tmp' if os.path.isdir('/var/tmp') else '/tmp')
        else:
            disk = None
            os.makedirs(tmp)
        try:
            prj.save(p, os.path.join(d, 'p.yw7'))
            with open(os.path.join(d, 'wip.odt'), 'wb') as f:
                f.write(wip())
            os.symlink(d, w.path('link'))
            cwd, base = {'absolute': ('/', d + '/'), 'inside': (d, ''), 'dot': (d, './'), 'parent': (root, 'a/b/'),
                         'up': (os.path.join(root, 'a'), '../a/b/'), 'link': ('/', w.path('link') + '/')}[v['where']]
            e = {'PATH': os.environ.get('PATH', ''), 'HOME': w.dir, 'TMPDIR': tmp, 'TZ': v['zone'], 'PYTHONHASHSEED': v['seed'],
                 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1'}
            if v['locale'] == 'C ascii':
                e.update(LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')
            elif v['locale'] != 'unset':
                e.update(LC_ALL=v['locale'], LANG=v['locale'])
            spec = {'src': env.SRC, 'base': base, 'dir': d, 'ops': the_ops, 'windows': v['windows'], 'virtual': v['virtual'], 'umask': v['umask'], 'locale': locale}
            r = subprocess.run([sys.executable, '-B', *v['python'].split(), os.path.join(env.VERIF, 'mc', 'envrun.py')], cwd=cwd, env=e,
                               input=json.dumps(spec).encode(), capture_output=True, timeout=100)
            if r.returncode:
                return ['failed', r.stderr.decode('utf-8', 'replace')[-600:]], []
            out = json.loads(r.stdout.decode().replace(w.dir, 'DIR'))
            left = sorted(os.listdir(tmp))
            return out, left
        finally:
            if disk:
                import shutil
                shutil.rmtree(disk, ignore_errors=True)


_reference = []


def case(c, ctx):
    ctx.evaluated()
    ctx.key(c)
    ctx.sample(c)
    if c[0] == 'system':
        system(c, ctx)
        return
    if not _reference:
        r = run({}, project(), ops('p.yw7'))
        if r[0][:1] == ['failed']:
            raise RuntimeError(r[0])
        for (op, result), *__ in r[0]:
            if op[0] == 'convert' and result != [True, False]:
                raise RuntimeError(f'{op} {result}')
        _reference.append(r)
    compare(c, ctx, _reference[0], run(c[1], project(), ops('p.yw7')))
    if set(c[1]) <= {'locale'}:
        # A project without language, on this system.
        wanted = {'en_US.UTF-8': ('en', 'US'), 'de_DE.UTF-8': ('de', 'DE')}.get(c[1].get('locale', 'en_US.UTF-8'), ('zxx', 'none'))
        without_language(c, ctx, c[1], None, wanted)


def compare(c, ctx, ref, got):
    want, left = ref
    have, left2 = got
    if have[:1] == ['failed']:
        ctx.violation('failed', f'{c}: {have[1]}')
        return
    ctx.same([], left2, 'temporary files', c)
    for (a, *fa), (b, *fb) in zip(want, have):
        if not ctx.same(a, b, 'result', c):
            return
        if fa != fb:
            ctx.violation(f'files-{a[0][0]}', f'{c} {a}: {different(fa[0], fb[0])} {fa[1]} {fb[1]}')
            return
    ctx.same(len(want), len(have), 'length', c)


def different(a, b):
    for n in sorted(set(a) | set(b)):
        x, y = a.get(n), b.get(n)
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                return n + ': ' + different(x, y)
            if x is None or y is None:
                return f'{n}: {"new" if x is None else "lost"}'
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return f'{n}: {x[max(0, i - 50):i + 80]!r} | {y[max(0, i - 50):i + 80]!r}'
    return ''


def system(c, ctx):
    value, wanted = SYSTEM[c[1]]
    without_language(c, ctx, {}, ['both', value], wanted)


def without_language(c, ctx, values, locale, wanted):
    p = project()
    p['vars'] = []
    have, __ = run(values, p, ops('p.yw7')[1:], locale)
    if have[:1] == ['failed']:
        ctx.violation('failed', f'{c}: {have[1]}')
        return
    language, country = wanted
    for (op, result), new, gone in have:
        if op[0] == 'convert' and not ctx.same([True, False], result, 'converted', [c, op]):
            return
        for n, data in new.items():
            if isinstance(data, dict) and n.startswith('p'):
                x = data['styles.xml']
                ctx.expect(f'fo:language="{language}"' in x and f'fo:country="{country}"' in x, 'language of the document', f'{c} {op}: {re.findall('fo:(?:language|country)=.*?[^=]"', x)[:6]}')
            elif n == 'p.yw7' and op[1].startswith('p_'):
                want = {'Language': language, 'Country': country}
                got = {r['Title']: r.get('Desc') for r in (dict(x) for x in records(data))}
                ctx.same(want, {k: got.get(k) for k in want}, 'language of the project', [c, op])


def records(data):
    import xml.etree.ElementTree as ET
    for v in ET.fromstring(data.encode()).iter('PROJECTVAR'):
        yield {e.tag: e.text for e in v}
