"""C26: the XML data files contain the characters, locations, and items of the project."""
import itertools
import os
import xml.etree.ElementTree as ET

from mc import prj, proj, sut

from pywriter.converter.yw7_exporter import Yw7Exporter
from pywriter.yw.data_files import DataFiles

ID = 'C26'
TITLE = 'Exported XML data files hold exactly the characters, locations, and items'
LEVEL = 'exploration'
RULE = ('One evaluation is one project exported to the three XML data files, as the sample application does it: all subsets of the fields of an element, all sets and orders of up to '
        'n elements of a kind, and all texts of up to m tokens in every field, all project names of up to 2 tokens, over existing and missing files, with the same converter or a new one, repeatedly. Each file must be '
        'well-formed, hold its kind of elements in order with exactly their data (by an independent reader of the XML file), '
        'and a project whose lists are replaced by the files must open like the original. The project file must not change.')
TOKENS = ['a', ' ', '\n', '&', '<', '>', ']]>', '<![CDATA[', '"', 'é', '\U0001f600', '&amp;', '<Title>x</Title>', "<?xml version='1.0'?>", '\\1']
BOUNDS = {'quick': f'n=4, m=3 over {len(TOKENS)} tokens', 'thorough': f'n=4, m=4 over {len(TOKENS)} tokens'}
ASSUMPTIONS = ['The IDs of elements of a kind are different; blanks at the ends of a text are not significant.']
NAMES = ['p', '.', ' ', '.xml', '.yw7', '_data', '_Items', '&', "'", '%', 'é', '#', '_data.xml']
KINDS = {'characters': ('CHARACTERS', 'CHARACTER', 'Characters'), 'locations': ('LOCATIONS', 'LOCATION', 'Locations'), 'items': ('ITEMS', 'ITEM', 'Items')}
OPTIONAL = {'title': 'T', 'desc': 'D\nd', 'aka': 'A', 'tags': ['x', 'y z'], 'image': 'i.png', 'link': 'l & m'}
OF_CHARACTER = {'fullname': 'F', 'notes': 'n\n\nn', 'bio': 'b', 'goals': 'g', 'major': True, 'birth': '1900-01-01', 'death': '1980-01-01'}


class Exporter(Yw7Exporter):
    EXPORT_TARGET_CLASSES = Yw7Exporter.EXPORT_TARGET_CLASSES + [DataFiles]


DataFiles.SUFFIX = '_data'


def cases(tier):
    for kind in KINDS:
        for part in range(4):
            yield ['fields', kind, part]
        for r in range(5):
            yield ['lists', kind, r]
        for k in range(len(TOKENS)):
            yield ['texts', kind, 3 if tier == 'quick' else 4, k]
    yield ['rich']


def case(c, ctx):
    {'fields': by_fields, 'lists': lists, 'texts': texts, 'rich': rich}[c[0]](c, ctx)


def check(ctx, w, p, what, converter=None, name='p'):
    path = w.path(f'{name}.yw7')
    prj.save(p, path)
    with open(path, 'rb') as h:
        before = h.read()
    others = {x for x in os.listdir(w.dir) if not x.startswith(f'{name}_data') and x != f'{name}.yw7'}
    converter = converter or Exporter()
    converter.ui = sut.RecUi()
    converter.run(path, suffix='_data')
    ctx.evaluated()
    ctx.state(before)
    if converter.newFile is None or converter.ui.infoHowText.startswith('FAIL'):
        ctx.violation('export', f'{what}: {converter.ui.infoHowText}')
        return
    with open(path, 'rb') as h:
        ctx.same(before, h.read(), 'project changed', what)
    ctx.same(sorted([f'{name}.yw7'] + [f'{name}_data_{x[2]}.xml' for x in KINDS.values()]), sorted(x for x in os.listdir(w.dir) if x not in others), 'files', what)
    want = prj.canonical(path)
    root = ET.fromstring(before)
    for kind, (section, tag, end) in KINDS.items():
        with open(w.path(f'{name}_data_{end}.xml'), 'rb') as h:
            data = h.read()
        try:
            got = ET.fromstring(data)
        except ET.ParseError as ex:
            ctx.violation('well-formed', f'{what} {end}: {ex}: {data!r}')
            return
        ctx.same(section, got.tag, 'root', what)
        ctx.same([tag] * len(got), [e.tag for e in got], 'elements', what)
        ctx.same(strip(want.get(section, [])), strip([prj._record(e) for e in got]), f'data-{kind}', what)
        old = root.find(section)
        if old is not None:
            root[list(root).index(old)] = got
    # Import into yWriter.
    with open(w.path('q.yw7'), 'wb') as h:
        h.write(ET.tostring(root, encoding='utf-8', xml_declaration=True))
    one, two = sut.view(sut.read(path).novel), sut.view(sut.read(w.path('q.yw7')).novel)
    os.remove(w.path('q.yw7'))
    if one != two:
        ctx.violation('imported', f'{what}: {prj.diff(one, two)}')


def strip(records):
    def s(v):
        if isinstance(v, dict):
            return {k: s(x) for k, x in v.items() if s(x) != ''}
        return v.strip() if isinstance(v, str) else v
    return [s(r) for r in records]


def by_fields(c, ctx):
    __, kind, part = c
    fields = {**OPTIONAL, **(OF_CHARACTER if kind == 'characters' else {})}
    names = list(fields)
    with sut.Work() as w:
        batch = []
        n = 0
        for mask in range(2 ** len(names)):
            if mask % 4 != part:
                continue
            n += 1
            batch.append({'id': str(n), **{k: fields[k] for i, k in enumerate(names) if mask >> i & 1}})
            if len(batch) == 64 or mask + 4 >= 2 ** len(names):
                p = proj.plain()
                p['scenes'] = {'1': proj.scene()}
                p['chapters'] = [{'id': '1', 'title': 'C', 'scenes': ['1']}]
                p[kind] = batch
                check(ctx, w, p, f'{kind} fields up to {mask}')
                batch = []


def lists(c, ctx):
    """All lists of r elements from a pool, one export after the other with the same converter."""
    __, kind, r = c
    pool = [{'id': '3', 'title': 'Three'}, {'id': '1', 'title': 'One', 'desc': 'd'}, {'id': '20', 'title': 'Twenty', 'tags': ['t']}, {'id': '4', 'title': 'Three'}]
    converter = Exporter()
    with sut.Work() as w:
        for other in (True, False):
            for t in itertools.permutations(pool, r):
                p = proj.plain()
                for k in KINDS:
                    p[k] = list(t) if k == kind else p[k] if other else []
                p['scenes'] = {'1': proj.scene()}
                p['chapters'] = [{'id': '1', 'title': 'C', 'scenes': ['1']}]
                check(ctx, w, p, f'{kind} {t} {other}', converter)


def texts(c, ctx):
    """All texts, in every field of an element."""
    __, kind, m, k = c
    with sut.Work() as w:
        batch = []
        values = [TOKENS[k] + ''.join(rest) for r in range(m) for rest in itertools.product(TOKENS, repeat=r)]
        for n, v in enumerate(values):
            e = {'id': str(n + 1), 'title': 'T' + v, 'desc': v, 'aka': v, 'image': v, 'link': v}
            tag = v.replace('\n', ' ').replace(';', ',').strip()
            if tag:
                e['tags'] = [tag]
            if kind == 'characters':
                e.update(fullname=v, notes=v, bio=v, goals=v, birth=v, death=v)
            batch.append(e)
            if len(batch) == 40 or n == len(values) - 1:
                p = {'title': 'T', 'scenes': {'1': proj.scene()}, 'chapters': [{'id': '1', 'title': 'C', 'scenes': ['1']}], kind: batch}
                check(ctx, w, p, f'{kind} texts {batch[0]["desc"]!r}...{v!r}')
                batch = []
        ctx.sample(values[-1])


def rich(c, ctx):
    with sut.Work() as w:
        for p in (proj.rich(), proj.plain()):
            for state in ('new', 'again'):
                check(ctx, w, p, state)
    # The names of the project, together with projects that begin with the same.
    with sut.Work() as w:
        for r in (1, 2):
            for t in itertools.product(NAMES, repeat=r):
                name = ''.join(t)
                if name.strip(' .'):
                    p = proj.plain()
                    p['title'] = name
                    p['items'] = [{'id': '1', 'title': name}]
                    check(ctx, w, p, name, name=name)
        for x in os.listdir(w.dir):
            if x.endswith('_data_Items.xml'):
                ctx.same(x[:-len('_data_Items.xml')], ET.parse(w.path(x)).getroot().findtext('ITEM/Title'), 'overwritten', x)
