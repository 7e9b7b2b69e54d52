"""C09: spreadsheets show the project's lists, and edits of their rows and cells come back."""
import copy
import re

from mc import editor, odf, prj, proj, sut
from mc.editor import E
from mc.odf import NS, q

ID = 'C09'
TITLE = 'Editing a list in a spreadsheet changes exactly what was edited'
LEVEL = 'model_checking'
RULE = ('Breadth-first exploration of edit histories of the character, location, item, and scene lists: from a project with '
        'complete and almost empty rows, every history of at most n row and cell edits (delete, move, empty, add rows; every column set '
        'to every value of its list), made in one document, and in successive exports and imports. After each import the '
        'reopened project must equal the model, and the next export must show the model. Each imported document is stored in '
        'another way (repeated cells, spans, links, comments, excess rows and columns). States: distinct model states; '
        'transitions: imported documents.')
ASSUMPTIONS = ['Runs of blanks count as one; trailing blanks do not count.', 'The ID cells are not edited.']
BOUNDS = {'quick': 'n=2, single edits with all values; two values per column at first, one then; successive documents for row edits and edits of one column', 'thorough': 'n=2 with all values, n=3 with one value per column (in one document; successive documents as for quick)'}

T = '\nn & <w>\n"x" \'y\''
TEXT = [T, '', 'New', 'two\nli nes\n\nend', 'ScID:1 CrID:1 \\ $ID ${Title}']
LINE = ['New & <n>', '', 'Some "name"', "o'n"]
TAGS = ['x, , y z, ', '', 'a', 'q & r,  x, q & r']
RATING = ['5', '', '10', '1', '0', '11', 'x']
COLS = {
    '_charlist': [('title', LINE), ('fullName', LINE), ('aka', LINE), ('desc', TEXT), ('bio', TEXT), ('goals', TEXT),
                  ('isMajor', ['Major', 'Minor', '']), ('tags', TAGS), ('notes', TEXT)],
    '_loclist': [('title', LINE), ('desc', TEXT), ('aka', LINE), ('tags', TAGS)],
    '_scenelist': [('title', LINE), ('desc', TEXT), ('tags', TAGS), ('notes', TEXT), ('isReactionScene', ['R', 'A', '', 'r', 'x']),
                   ('goal', TEXT), ('conflict', TEXT), ('outcome', TEXT), (None, ['7']), (None, ['9']), ('field1', RATING),
                   ('field2', RATING), ('field3', RATING), ('field4', RATING), (None, ['99']), (None, ['98']),
                   ('status', ['Outline', 'Done', '1st Edit', '2nd Edit', 'Draft', '', 'nonsense']), (None, ['N']), (None, ['']),
                   (None, ['N, M'])],
}
COLS['_itemlist'] = COLS['_loclist']
PREFIX = {'_charlist': 'CrID:', '_loclist': 'LcID:', '_itemlist': 'ItID:', '_scenelist': 'ScID:'}
PART = {'_charlist': 'characters', '_loclist': 'locations', '_itemlist': 'items'}
REFS = PART
STATUS = [None, 'Outline', 'Draft', '1st Edit', '2nd Edit', 'Done']
STORAGE = ['plain', 'runs', 'excess', 'spans', 'links', 'comments', 'newrows', 'groups', 'merged']


def start():
    p = proj.plain()
    rich = proj.rich()
    for k in ('fieldtitle1', 'fieldtitle2', 'fieldtitle3', 'fieldtitle4'):
        p[k] = rich[k]
    p['characters'] = rich['characters'][:2]
    p['locations'] = rich['locations'][:2]
    p['items'] = rich['items']
    full = rich['scenes']['1']
    full.update(chars=['11', '4'], locs=['3', '12'], items=['10', '2'], title='Full & <1>', desc='two\nlines', reaction=True)
    p['scenes'] = {'7': full, '12345': {'title': 'Empty', 'content': '', 'status': '1'}, '4': proj.scene(title='Notes', type=1, content='n', status='1'),
                   '5': proj.scene(title='No export', noexport=True, content='n')}
    p['chapters'] = [{'id': '1', 'title': 'C', 'scenes': ['7', '12345', '4', '5']}]
    return p


def ops(suffix, n):
    """The edits of one document with three data rows at most."""
    out = []
    for row in (0, 1):
        for col, (attr, values) in enumerate(COLS[suffix]):
            for v in values[:n]:
                out.append(['cell', row, col, v])
    if suffix == '_scenelist':
        return out + [['del', 0], ['del', 1], ['blank', 0], ['blank', 1], ['swap']]
    for row in (0, 1):
        out += [['del', row], ['blank', row]]
    out += [['swap'], ['add', 0, '77'], ['add', 9, '5']]
    return out


def cases(tier):
    for suffix in COLS:
        n = 2 if tier == 'quick' else 9
        yield [suffix, [], n, tier]
        for o in ops(suffix, n):
            yield [suffix, [o], 1 if tier == 'quick' else n, tier]
        if tier == 'thorough':
            for a in ops(suffix, 1):
                for b in ops(suffix, 1):
                    if a != b:
                        yield [suffix, [a, b], 1, 'quick']


def related(a, b):
    """Edits of the same column, and row edits."""
    return a[0] != 'cell' or b[0] != 'cell' or a[2] == b[2]


def norm(text):
    return re.sub(' +', ' ', text).rstrip()


# -- the model
def show(suffix, state):
    """The data rows of the exported list: [[id, cell, ...]]."""
    out = []
    if suffix == '_scenelist':
        for i in state['chapters'][0][1]['srtScenes']:
            s = state['scenes'][i]
            if s.get('scType') or s.get('doNotExport'):
                continue
            cells = [i]
            for col, (attr, __) in enumerate(COLS[suffix]):
                if attr is None:
                    kind = {17: 'characters', 18: 'locations', 19: 'items'}.get(col)
                    names = {j: e.get('title', '') for j, e in state[kind]} if kind else None
                    cells.append(', '.join(names[j] for j in s.get(kind, [])) if kind else None)
                elif attr == 'isReactionScene':
                    cells.append('R' if s.get(attr) else 'A')
                elif attr == 'status':
                    cells.append(STATUS[s.get('status', 0)] or '')
                elif attr.startswith('field'):
                    v = s.get(attr, '')
                    cells.append('' if v == '1' else v)
                elif attr == 'tags':
                    cells.append(', '.join(s.get(attr, [])))
                else:
                    cells.append(s.get(attr, ''))
            out.append(cells)
        return out
    for i, e in state[PART[suffix]]:
        cells = [i]
        for attr, __ in COLS[suffix]:
            if attr == 'isMajor':
                cells.append('Major' if e.get(attr) else 'Minor')
            elif attr == 'tags':
                cells.append(', '.join(e.get(attr, [])))
            else:
                cells.append(e.get(attr, ''))
        out.append(cells)
    return out


def edit_rows(rows, op):
    if op[0] == 'cell':
        if op[1] < len(rows):
            rows[op[1]][op[2] + 1] = op[3]
    elif op[0] == 'del':
        if op[1] < len(rows):
            del rows[op[1]]
    elif op[0] == 'blank':
        if op[1] < len(rows):
            rows[op[1]][1:] = [''] * (len(rows[op[1]]) - 1)
    elif op[0] == 'swap':
        rows[:2] = rows[:2][::-1]
    elif op[0] == 'add':
        if all(r[0] != op[2] for r in rows):
            rows.insert(op[1], [op[2]] + [v[0] for __, v in COLS[op[3]]])


def put(e, attr, v):
    """Store a cell value in an element of the model state."""
    if attr == 'tags':
        tags = []
        for t in v.split(', '):
            if t.strip() and t.strip() not in tags:
                tags.append(norm(t.strip()))
        v = tags
    elif attr == 'isMajor':
        v = v == 'Major'
    elif attr == 'isReactionScene':
        v = 'r' in v.lower()
    elif attr == 'status':
        if v not in STATUS:
            return
        v = STATUS.index(v)
    elif attr.startswith('field'):
        v = v if v in [str(n) for n in range(2, 11)] else '1'
    else:
        v = norm(v)
    if v in ('', [], False):
        e.pop(attr, None)
    else:
        e[attr] = v


def take(suffix, state, rows):
    """The project after the import of these rows."""
    state = copy.deepcopy(state)
    if suffix == '_scenelist':
        for r in rows:
            for (attr, __), v in zip(COLS[suffix], r[1:]):
                if attr:
                    put(state['scenes'][r[0]], attr, v)
        return state
    part = PART[suffix]
    old = dict(state[part])
    state[part] = []
    for r in rows:
        e = old.get(r[0], {})
        for (attr, __), v in zip(COLS[suffix], r[1:]):
            put(e, attr, v)
        state[part].append((r[0], e))
    ids = {i for i, __ in state[part]}
    for s in state['scenes'].values():
        if part in s:
            s[part] = [i for i in s[part] if i in ids]
            if not s[part]:
                del s[part]
    return state


# -- the document
def cell_node(text, storage, n=1):
    c = E('table:table-cell', office__value_type='string')
    if text == '':
        c = E('table:table-cell')
    if n > 1:
        c.set(q('table:number-columns-repeated'), str(n))
    if storage == 'comments':
        a = E('office:annotation')
        a.append(E('dc:creator', 'ScID:3'))
        a.append(E('text:p', 'a comment CrID:4'))
        c.append(a)
    if text != '':
        for line in text.split('\n'):
            p = E('text:p')
            if storage == 'spans':
                for ch in line:
                    p.append(E('text:span', ch, text__style_name='T1'))
            elif storage == 'links' and line:
                p.append(E('text:a', line, xlink__href='x'))
            else:
                p.text = line
            c.append(p)
    return c


def put_rows(old, rows, suffix, storage):
    """Return a function that changes the table of a content tree."""
    def f(root):
        table = root.find('office:body', NS).find('office:spreadsheet', NS).find('table:table', NS)
        trs = {}
        header = None
        for tr in table.findall('table:table-row', NS):
            first = ''.join(tr.find('table:table-cell', NS).itertext())
            m = re.search(PREFIX[suffix] + '([0-9]+)', first)
            if m:
                trs[m.group(1)] = tr
                table.remove(tr)
            elif header is None:
                header = tr
        before = {r[0]: r for r in old}
        at = list(table).index(header) + 1
        for n, r in enumerate(rows):
            tr = trs.get(r[0])
            if storage in ('plain', 'excess') and tr is not None:
                # Change single cells.
                cells = expand(tr)
                for col, v in enumerate(r[1:], 1):
                    if before[r[0]][col] != v:
                        i = list(tr).index(cells[col])
                        tr.remove(cells[col])
                        tr.insert(i, cell_node(v, storage))
            else:
                # Store the row anew, as some office program does.
                cells = [x if x is not None else str(7 + c) for c, x in enumerate([PREFIX[suffix] + r[0]] + r[1:])]
                tr = E('table:table-row', table__style_name='ro2')
                c = 0
                while c < len(cells):
                    k = 1
                    while storage == 'runs' and c + k < len(cells) and cells[c + k] == cells[c]:
                        k += 1
                    tr.append(cell_node(cells[c], storage, k))
                    if storage == 'merged' and c == 2:
                        # The cell covers the next one, whose content is hidden.
                        tr[-1].set(q('table:number-columns-spanned'), '2')
                    if storage == 'merged' and c == 3:
                        tr[-1].tag = q('table:covered-table-cell')
                    c += k
                if storage == 'runs' and cells[-1] == '':
                    last = tr[-1]
                    last.set(q('table:number-columns-repeated'), str(int(last.get(q('table:number-columns-repeated'), 1)) + 1000))
                elif storage == 'runs':
                    tr.append(cell_node('', storage, 1000))
            if storage == 'excess':
                tr.append(cell_node('excess cell', storage, 3))
            table.insert(at + n, tr)
        if storage == 'groups':
            # The header is repeated on each page; rows are grouped.
            head = E('table:table-header-rows')
            table.insert(at - 1, head)
            table.remove(header)
            head.append(header)
            found = table.findall('table:table-row', NS)
            place = list(table).index(head) + 1
            for tr in found:
                table.remove(tr)
            if found:
                rest = E('table:table-rows')
                rest.append(found[0])
                table.insert(place, rest)
                outer = E('table:table-row-group', table__display='false')
                inner = E('table:table-row-group')
                for k, tr in enumerate(found[1:]):
                    (inner if k else outer).append(tr)
                outer.append(inner)
                table.insert(place + 1, outer)
        if storage == 'excess':
            for text in ('', 'Sum'):
                tr = E('table:table-row', table__number_rows_repeated='1048')
                tr.append(cell_node('', storage, 3))
                tr.append(cell_node(text, storage, 1000))
                table.append(tr)
            other = E('table:table', table__name='Other')
            tr = E('table:table-row')
            for __ in range(30):
                tr.append(cell_node(PREFIX[suffix] + '999', storage))
            other.append(tr)
            list_parent = root.find('office:body', NS).find('office:spreadsheet', NS)
            list_parent.append(other)
    return f


def expand(tr):
    """Split repeated cells."""
    out = []
    for c in list(tr):
        n = int(c.attrib.pop(q('table:number-columns-repeated'), 1))
        out.append(c)
        if n > 60:
            c.set(q('table:number-columns-repeated'), str(n - 59))
            for __ in range(59):
                x = E('table:table-cell')
                tr.insert(list(tr).index(c), x)
                out.insert(len(out) - 1, x)
            continue
        i = list(tr).index(c)
        for k in range(1, n):
            x = copy.deepcopy(c)
            tr.insert(i + k, x)
            out.append(x)
    return out


def normal(state):
    """Compare texts as they can be seen."""
    if isinstance(state, dict):
        return {k: normal(v) for k, v in state.items() if k != 'kwVar' or v}
    if isinstance(state, (list, tuple)):
        return [normal(v) for v in state]
    return norm(state) if isinstance(state, str) else state


def shown(suffix, path):
    """The data rows of an exported document."""
    rows = odf.Odf(path).rows()
    width = len(COLS[suffix]) + 1
    rows = [r + [''] * (width - len(r)) for r in rows if r]
    return [[r[0].split(':', 1)[1]] + r[1:] for r in rows[1:]], rows[0]


def compare_rows(ctx, suffix, state, path, trace):
    rows, head = shown(suffix, path)
    expected = show(suffix, state)
    for r, e in zip(rows, expected):
        for i, x in enumerate(e):
            if x is None:
                r[i] = None
    ctx.same([[x if x is None else norm(x) for x in r] for r in expected],
             [[x if x is None else norm(x) for x in r] for r in rows], f'rows{suffix}', trace)


def run_doc(w, path, suffix, state, edits, storage, ctx, trace):
    """Export, apply edits in one document, import, compare. Return the new state."""
    doc = sut.export(path, suffix)
    compare_rows(ctx, suffix, state, doc, trace)
    old = show(suffix, state)
    rows = copy.deepcopy(old)
    for o in edits:
        edit_rows(rows, o + [suffix] if o[0] == 'add' else o)
    editor.edit(doc, doc, put_rows(old, rows, suffix, storage))
    r = sut.imp(doc)
    ctx.expect(not r.ui.warnings, 'warning', r)
    expected = take(suffix, state, rows)
    ctx.step()
    ctx.key((suffix, normal(expected)))
    ctx.trace()
    actual = sut.view(sut.read(path).novel)
    if normal(expected) != normal(actual):
        ctx.violation(f'import{suffix}', f'{trace} ({storage}): ' + '; '.join(differences(normal(expected), normal(actual))[:5]))
    return expected


def differences(a, b, at=''):
    if isinstance(a, dict) and isinstance(b, dict):
        return [d for k in sorted(set(a) | set(b)) for d in differences(a.get(k), b.get(k), f'{at}/{k}')]
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [d for i, (x, y) in enumerate(zip(a, b)) for d in differences(x, y, f'{at}/{i}')]
    return [] if a == b else [f'{at}: expected {a!r}, actual {b!r}']


def case(c, ctx):
    suffix, prefix, n, tier = c
    with sut.Work() as w:
        path = w.path('p.yw7')
        prj.save(start(), path)
        sut.rewrite(path)
        first = sut.view(sut.read(path).novel)
        origin = open(path, 'rb').read()
        k = len(repr(prefix))
        seqs = [[]] if not prefix else []
        if prefix:
            seqs = [[o] for o in ops(suffix, n)] + [[]]
        state0 = first
        # The successive histories continue from the project after the first edits.
        for o in prefix:
            k += 1
            state0 = run_doc(w, path, suffix, state0, [o], STORAGE[k % len(STORAGE)], ctx, [o])
        compare_rows(ctx, suffix, state0, sut.export(path, suffix), prefix)
        middle = open(path, 'rb').read()
        if not prefix:
            for s in STORAGE:
                run_doc(w, path, suffix, first, [], s, ctx, ['unchanged', s])
            # All values of every cell.
            for k, o in enumerate(ops(suffix, 99)):
                with open(path, 'wb') as f:
                    f.write(origin)
                run_doc(w, path, suffix, first, [o], STORAGE[k % len(STORAGE)], ctx, [o])
            return
        if len(prefix) == 1:
            for s in STORAGE:
                with open(path, 'wb') as f:
                    f.write(origin)
                run_doc(w, path, suffix, first, prefix, s, ctx, [prefix, s])
        for s in seqs:
            for o in s:
                k += 1
                storage = STORAGE[k % len(STORAGE)]
                with open(path, 'wb') as f:
                    f.write(middle)
                if tier == 'thorough' or related(prefix[-1], o):
                    run_doc(w, path, suffix, state0, [o], storage, ctx, [prefix, 'then', o])
                with open(path, 'wb') as f:
                    f.write(origin)
                run_doc(w, path, suffix, first, prefix + [o], storage, ctx, [prefix, 'with', o])
        ctx.sample([suffix, prefix, seqs[-1] if seqs else []])
