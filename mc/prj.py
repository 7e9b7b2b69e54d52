"""Independent view of .yw7 project files.

``build()`` renders a project description (plain dicts) the way yWriter 7
does.  ``load()`` reads a project file with the standard XML parser only and
returns its *information set*: a nested dict that keeps every element, but
abstracts from element order inside a record, from indentation, from CDATA
versus escaping, and from absent versus empty text elements.

Nothing here imports the code under test.
"""
import xml.etree.ElementTree as ET

CDATA = {
    'Title', 'AuthorName', 'Bio', 'Desc', 'FieldTitle1', 'FieldTitle2', 'FieldTitle3',
    'FieldTitle4', 'LaTeXHeaderFile', 'Tags', 'AKA', 'ImageFile', 'FullName', 'Goals',
    'Notes', 'RTFFile', 'SceneContent', 'Outcome', 'Goal', 'Conflict',
}

# Derived or bookkeeping data a writer is free to drop.
DERIVED = {'SavedWith', 'SavedOn', 'WordCount', 'LetterCount', 'RTFFile', 'BelongsToChID', 'SortOrder', 'Ver'}

# Elements whose mere presence carries information.
FLAGS = {'ExportCondSpecific', 'ExportWhenRTF', 'Unused', 'AppendToPrev', 'ReactionScene', 'SubPlot',
         'SectionStart', 'Major'}


def esc(text):
    return text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def elem(tag, text):
    """Return one leaf element; None yields nothing."""
    if text is None:
        return ''
    text = str(text)
    if tag in CDATA:
        return f'<{tag}><![CDATA[{text.replace("]]>", "]]]]><![CDATA[>")}]]></{tag}>\n'
    return f'<{tag}>{esc(text)}</{tag}>\n'


def fields(d, extra=''):
    inner = ''.join(elem(k, v) for k, v in d.items() if v is not None) + extra
    return f'<Fields>\n{inner}</Fields>\n' if inner else ''


def tagstr(tags):
    if tags is None:
        return None
    if isinstance(tags, str):
        return tags
    return ';'.join(tags)


def _idlist(container, tag, ids):
    if not ids:
        return ''
    return f'<{container}>\n' + ''.join(f'<{tag}>{i}</{tag}>\n' for i in ids) + f'</{container}>\n'


def scene_xml(sid, s):
    x = [f'<SCENE>\n<ID>{sid}</ID>\n']
    a = x.append
    a(elem('Title', s.get('title')))
    a(elem('BelongsToChID', s.get('belongs')))
    a(elem('Desc', s.get('desc')))
    t = s.get('type', 0)
    f = dict(s.get('fields', {}))
    if 'rawtype' in s:
        unused, ft = s['rawtype']
        if unused:
            a('<Unused>-1</Unused>\n')
        if ft is not None:
            f['Field_SceneType'] = ft
    elif t:
        a('<Unused>-1</Unused>\n')
        f['Field_SceneType'] = {1: '1', 2: '2', 3: '0'}[t]
    if s.get('arcs') is not None:
        f['Field_SceneArcs'] = s['arcs']
    if s.get('mode') is not None:
        f['Field_SceneMode'] = s['mode']
    a(fields(f))
    a(elem('Status', s.get('status', '2')))
    if s.get('noexport'):
        a('<ExportCondSpecific />\n')
    elif s.get('exportrtf') == 'only':
        a('<ExportWhenRTF>-1</ExportWhenRTF>\n')
    elif s.get('exportrtf'):
        a('<ExportCondSpecific />\n<ExportWhenRTF>-1</ExportWhenRTF>\n')
    a(elem('Notes', s.get('notes')))
    a(elem('Tags', tagstr(s.get('tags'))))
    if s.get('content', '') is not None:
        a(elem('SceneContent', s.get('content', '')))
    for n in '1234':
        a(elem(f'Field{n}', s.get(f'field{n}')))
    if s.get('append'):
        a('<AppendToPrev>-1</AppendToPrev>\n')
    if s.get('datetime') is not None:
        a(elem('SpecificDateTime', s['datetime']))
        a('<SpecificDateMode>-1</SpecificDateMode>\n')
    a(elem('Day', s.get('day')))
    a(elem('Hour', s.get('hour')))
    a(elem('Minute', s.get('minute')))
    a(elem('LastsDays', s.get('lastsdays')))
    a(elem('LastsHours', s.get('lastshours')))
    a(elem('LastsMinutes', s.get('lastsminutes')))
    if s.get('reaction'):
        a('<ReactionScene>-1</ReactionScene>\n')
    if s.get('subplot'):
        a('<SubPlot>-1</SubPlot>\n')
    a(elem('Goal', s.get('goal')))
    a(elem('Conflict', s.get('conflict')))
    a(elem('Outcome', s.get('outcome')))
    a(elem('ImageFile', s.get('image')))
    a(_idlist('Characters', 'CharID', s.get('chars')))
    a(_idlist('Locations', 'LocID', s.get('locs')))
    a(_idlist('Items', 'ItemID', s.get('items')))
    a(s.get('raw', ''))
    a('</SCENE>\n')
    return ''.join(x)


CHTYPE = {0: (False, '0', '0'), 1: (True, '1', '1'), 2: (True, '1', '2'), 3: (True, '1', '0')}


def chapter_xml(c):
    x = [f'<CHAPTER>\n<ID>{c["id"]}</ID>\n']
    a = x.append
    a(elem('Title', c.get('title')))
    a(elem('Desc', c.get('desc')))
    unused, typ, chtyp = c['rawtype'] if 'rawtype' in c else CHTYPE[c.get('type', 0)]
    if unused:
        a('<Unused>-1</Unused>\n')
    f = dict(c.get('fields', {}))
    if 'suppresstitle' in c:
        f['Field_SuppressChapterTitle'] = '1' if c['suppresstitle'] else '0'
    if 'suppressbreak' in c:
        f['Field_SuppressChapterBreak'] = '1' if c['suppressbreak'] else '0'
    if c.get('trash'):
        f['Field_IsTrash'] = '1'
    a(fields(f))
    if c.get('level'):
        a('<SectionStart>-1</SectionStart>\n')
    if typ is not None:
        a(elem('Type', typ))
    if chtyp is not None:
        a(elem('ChapterType', chtyp))
    a(c.get('raw', ''))
    a(_idlist('Scenes', 'ScID', c.get('scenes')))
    a('</CHAPTER>\n')
    return ''.join(x)


def world_xml(tag, w):
    x = [f'<{tag}>\n<ID>{w["id"]}</ID>\n']
    a = x.append
    a(elem('Title', w.get('title')))
    a(elem('ImageFile', w.get('image')))
    a(elem('Desc', w.get('desc')))
    a(elem('AKA', w.get('aka')))
    a(elem('Tags', tagstr(w.get('tags'))))
    if tag == 'CHARACTER':
        a(elem('Notes', w.get('notes')))
        a(elem('Bio', w.get('bio')))
        a(elem('Goals', w.get('goals')))
        a(elem('FullName', w.get('fullname')))
        if w.get('major'):
            a('<Major>-1</Major>\n')
    f = dict(w.get('fields', {}))
    for k, n in (('link', 'Field_Link'), ('birth', 'Field_BirthDate'), ('death', 'Field_DeathDate')):
        if w.get(k) is not None:
            f[n] = w[k]
    a(fields(f))
    a(f'</{tag}>\n')
    return ''.join(x)


def build(p):
    """Return the text of a .yw7 file."""
    x = ['<?xml version="1.0" encoding="utf-8"?>\n<YWRITER7>\n<PROJECT>\n<Ver>7</Ver>\n']
    a = x.append
    a(elem('Title', p.get('title')))
    a(elem('AuthorName', p.get('author')))
    a(elem('Bio', p.get('bio')))
    a(elem('Desc', p.get('desc')))
    for n in '1234':
        a(elem(f'FieldTitle{n}', p.get(f'fieldtitle{n}')))
    a(elem('WordTarget', p.get('wordtarget')))
    a(elem('WordCountStart', p.get('wordcountstart')))
    a(fields(p.get('fields', {})))
    a(p.get('raw_project', ''))
    a('</PROJECT>\n<LOCATIONS>\n')
    a(''.join(world_xml('LOCATION', w) for w in p.get('locations', [])))
    a('</LOCATIONS>\n<ITEMS>\n')
    a(''.join(world_xml('ITEM', w) for w in p.get('items', [])))
    a('</ITEMS>\n<CHARACTERS>\n')
    a(''.join(world_xml('CHARACTER', w) for w in p.get('characters', [])))
    a('</CHARACTERS>\n')
    if p.get('notes'):
        a('<PROJECTNOTES>\n')
        for n in p['notes']:
            a(f'<PROJECTNOTE>\n<ID>{n["id"]}</ID>\n{elem("Title", n.get("title"))}{elem("Desc", n.get("desc"))}'
              f'{fields(n.get("fields", {}))}</PROJECTNOTE>\n')
        a('</PROJECTNOTES>\n')
    if p.get('vars') is not None:
        a('<PROJECTVARS>\n')
        for n in p['vars']:
            a(f'<PROJECTVAR>\n<ID>{n["id"]}</ID>\n{elem("Title", n.get("title"))}{elem("Desc", n.get("desc"))}'
              f'{elem("Tags", n.get("tags"))}</PROJECTVAR>\n')
        a('</PROJECTVARS>\n')
    a(p.get('raw_root', ''))
    a('<SCENES>\n')
    a(''.join(scene_xml(i, s) for i, s in p.get('scenes', {}).items()))
    a('</SCENES>\n<CHAPTERS>\n')
    a(''.join(chapter_xml(c) for c in p.get('chapters', [])))
    a('</CHAPTERS>\n</YWRITER7>\n')
    return ''.join(x)


def save(p, path, encoding='utf-8'):
    with open(path, 'w', encoding=encoding, newline='\n') as f:
        f.write(build(p))


# --- the information set ---------------------------------------------------

ORDERED = {'Characters', 'Locations', 'Items', 'Scenes'}


def _record(e):
    """Return the information set of a record-like element."""
    d = {}
    for c in e:
        if c.tag in DERIVED:
            continue
        if c.tag in ORDERED:
            v = [(x.text or '') for x in c]
            tags = {x.tag for x in c}
            if not v:
                continue
            v = (sorted(tags), v)
        elif len(c):
            v = _record(c)
            if not v:
                continue
        else:
            v = c.text or ''
            if (v == '' and c.tag not in FLAGS) or (c.tag == 'Fields' and not v.strip()):
                continue
        if c.attrib:
            v = (dict(c.attrib), v)
        if c.tag in d:
            # repeated element: keep a list
            if not isinstance(d[c.tag], _Multi):
                d[c.tag] = _Multi([d[c.tag]])
            d[c.tag].append(v)
        else:
            d[c.tag] = v
    return d


def _tree(e):
    return (e.tag, dict(e.attrib), (e.text or '').strip(), [_tree(c) for c in e], (e.tail or '').strip())


class _Multi(list):
    pass


def canon(d):
    """Normalize an information set: different ways to say the same become equal.

    - Hours and minutes are numbers.
    - A chapter title beginning with '@' says "suppress the title".
    - Chapter switches set to '0' are off, like missing ones.
    - The legacy language fields of the project are project variables by now.
    - Fields of project notes belong to nobody, unless a file class defines them.
    """
    d = dict(d)
    if 'PROJECTNOTES' in d:
        d['PROJECTNOTES'] = [{k: v for k, v in n.items() if k != 'Fields'} for n in d['PROJECTNOTES']]
    scenes = {}
    for i, s in d.get('SCENES', {}).items():
        s = dict(s)
        if 'Hour' in s or 'Minute' in s:
            for k in ('Hour', 'Minute'):
                s[k] = str(int(s.get(k) or 0))
        scenes[i] = s
    d['SCENES'] = scenes
    chapters = []
    for c in d.get('CHAPTERS', []):
        c = dict(c)
        f = dict(c.get('Fields', {}))
        if c.get('Title', '').startswith('@'):
            f['Field_SuppressChapterTitle'] = '1'
        for k in ('Field_SuppressChapterTitle', 'Field_SuppressChapterBreak', 'Field_IsTrash'):
            if f.get(k) == '0':
                del f[k]
        c.pop('Fields', None)
        if f:
            c['Fields'] = f
        chapters.append(c)
    if chapters:
        d['CHAPTERS'] = chapters
    p = dict(d.get('PROJECT', {}))
    f = dict(p.get('Fields', {}))
    lng, ctr = f.pop('Field_LanguageCode', None), f.pop('Field_CountryCode', None)
    p.pop('Fields', None)
    if f:
        p['Fields'] = f
    d['PROJECT'] = p
    pv = {v.get('Title'): v for v in d.pop('PROJECTVARS', [])}
    pv = {k: {x: y for x, y in v.items() if x != 'ID'} for k, v in pv.items()}
    if lng and 'Language' not in pv:
        pv['Language'] = {'Title': 'Language', 'Desc': lng, 'Tags': '0'}
    if ctr and 'Country' not in pv:
        pv['Country'] = {'Title': 'Country', 'Desc': ctr, 'Tags': '0'}
    d['PROJECTVARS'] = pv
    return d


def canonical(path):
    return canon(load(path))


def changes(before, after):
    """Return the differences between two project files."""
    return diff(before, after)


CONTAINERS = {'LOCATIONS': 'LOCATION', 'ITEMS': 'ITEM', 'CHARACTERS': 'CHARACTER', 'PROJECTNOTES': 'PROJECTNOTE',
              'PROJECTVARS': 'PROJECTVAR', 'CHAPTERS': 'CHAPTER'}


def parse(data):
    """Return the information set of a .yw7 file given as bytes."""
    if data[:2] in (b'\xff\xfe', b'\xfe\xff'):
        root = ET.fromstring(data.decode('utf-16'))
    else:
        root = ET.fromstring(data)
    d = {'': root.tag}
    for c in root:
        if c.tag in CONTAINERS:
            recs = []
            for r in c:
                rec = _record(r)
                if r.tag != CONTAINERS[c.tag]:
                    rec['!tag'] = r.tag
                recs.append(rec)
            if recs:
                d[c.tag] = recs
        elif c.tag == 'SCENES':
            scenes = {}
            for r in c:
                rec = _record(r)
                sid = rec.pop('ID', None)
                if sid in scenes:
                    raise ValueError(f'duplicate scene ID {sid}')
                scenes[sid] = rec
            d['SCENES'] = scenes
        else:
            d.setdefault(c.tag, [])
            d[c.tag] = _record(c) if c.tag == 'PROJECT' else (d[c.tag] + [_tree(c)])
    return d


def load(path):
    with open(path, 'rb') as f:
        return parse(f.read())


def diff(a, b, where=''):
    """Return a list of readable differences between two information sets."""
    out = []
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in b:
                out.append(f'{where}/{k}: lost {a[k]!r}')
            elif k not in a:
                out.append(f'{where}/{k}: new {b[k]!r}')
            else:
                out += diff(a[k], b[k], f'{where}/{k}')
    elif isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, f'{where}[{i}]')
    elif a != b:
        out.append(f'{where}: {a!r} -> {b!r}')
    return out
