"""What yWriter scene markup means, and what a text document shows, as comparable data.

Both are lists of paragraphs ``(kind, units)``; kind is 'q' for quotations and
'p' otherwise; a unit is ``(character, attributes)`` or ``('comment', text)``.
Blanks have no attributes; runs of blanks count as one; blanks at the beginning or end of a
paragraph and empty paragraphs at the beginning and at the end of the text do
not count.
"""
import re

TAG = re.compile(r'\[(/?)(i|b|lang=([a-zA-Z]{2}(?:-[a-zA-Z]{2})?))\]|/\*(.*?)\*/|\[/?[hcrsu]\d*\]', re.S)


def text_model(text):
    """Return the meaning of a scene content."""
    paras = []
    on = set()
    units = []
    kind = None

    def begin():
        nonlocal units, kind
        units, kind = [], None

    def end():
        paras.append((kind or 'p', units))

    def chars(s):
        nonlocal kind
        first = True
        for line in s.split('\n'):
            if not first:
                end()
                begin()
            first = False
            for ch in line:
                units.append((ch, frozenset(on)))

    begin()
    pos = 0
    for m in TAG.finditer(text or ''):
        chars(text[pos:m.start()])
        pos = m.end()
        if m.group(4) is not None:
            units.append(('comment', m.group(4)))
        elif m.group(2):
            if m.group(2).startswith('lang'):
                name = ('lang', m.group(3))
            else:
                name = m.group(2)
            if m.group(1):
                on.discard(name)
            else:
                on.add(name)
    chars((text or '')[pos:])
    end()
    out = []
    for k, units in paras:
        if [u[0] for u in units[:2]] == ['>', ' ']:
            k, units = 'q', units[2:]
        out.append((k, units))
    return normal(out)


def doc_model(blocks, marks=False):
    """Return what the paragraphs of a document (see odf.Odf.blocks) show.

    With marks, quotations may be marked with "> " (as in proof documents).
    """
    out = []
    for b in blocks:
        if b[0] != 'p':
            out.append(('?', [(repr(b), frozenset())]))
            continue
        units = []
        for a in b[2]:
            if a[0] == 't':
                units += [(ch, a[2]) for ch in a[1]]
            elif a[0] == 'c':
                units.append(('comment', a[1]))
            elif a[0] == 'n':
                units.append(('note', a[1], a[2] if a[2] == '*' else '#', a[3]))
            else:
                units.append((repr(a), frozenset()))
        kind = 'q' if b[1] == 'Quotations' else 'p'
        if marks and [u[0] for u in units[:2]] == ['>', ' ']:
            kind, units = 'q', units[2:]
        out.append((kind, units))
    return normal(out)


def normal(paras):
    out = []
    for kind, units in paras:
        norm = []
        for u in units:
            if u[0] in (' ', '\t'):
                if not norm or norm[-1] == (' ', frozenset()):
                    continue
                norm.append((' ', frozenset()))
            elif u[0] == 'comment':
                norm.append(('comment', u[1]))
            else:
                norm.append(u)
        while norm and norm[-1] == (' ', frozenset()):
            norm.pop()
        out.append((kind, norm))
    while out and not out[-1][1]:
        out.pop()
    while out and not out[0][1]:
        del out[0]
    return out


def show(model):
    """Return a readable rendering."""
    out = []
    for kind, units in model:
        s = ''
        last = frozenset()
        for u in units:
            if u[0] in ('comment', 'note') and len(u) > 1 and not isinstance(u[1], frozenset):
                s += '{' + '|'.join(map(str, u)) + '}'
            else:
                if u[1] != last and u[0] != ' ':
                    s += '<' + ','.join(sorted(map(str, u[1]))) + '>'
                    last = u[1]
                s += u[0]
        out.append((kind, s))
    return out


def clear(tokens):
    """Tell whether it is clear what the markup tokens mean: no language begins inside another one
    or ends without a beginning.

    Formatting may overlap, begin or end several times, and reach across paragraphs.
    """
    language = None
    for t in tokens:
        m = re.fullmatch(r'\[(/?)(lang=[\w-]+)\]', t)
        if m:
            if m.group(1):
                if language != m.group(2):
                    return False
                language = None
            elif language:
                return False
            else:
                language = m.group(2)
    return True
