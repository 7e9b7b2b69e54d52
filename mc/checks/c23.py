"""C23: a configuration comes back as it was saved, and never loses its defaults."""
import itertools
import os

from mc import sut

from pywriter.config.configuration import Configuration

ID = 'C23'
TITLE = 'Program settings survive saving, and unreadable ones keep their defaults'
LEVEL = 'model_checking'
RULE = ('Breadth-first exploration, with state matching, of two configurations with the same keys and two files: setting values, replacing the settings or '
        'the options, saving, reading, and deleting files. State: values of both configurations and contents of the files. After each operation both configurations and '
        'the files must be as the model says. Besides, all values of up to m tokens are saved and read back, and all sets of damages of a file '
        '(missing or doubled sections and entries, unknown ones, invalid booleans, unreadable file) are read: what cannot be read '
        'remains as it is, everything else is read. States: distinct contents; transitions: operations.')
TOKENS = ['a', 'B', ' ', '%', '%(x)s', '=', ':', '#', ';', '[', ']', '[OPTIONS]', '"', "'", '\\', 'é', '\u2028', '${x}', 'no', '/', 'C:\\x', '\x85', '\t', '\\n']
VALUES = ('', 'x y', '50% of #1 = [a]; é')
BOUNDS = {'quick': f'histories to depth 6; m=2 over {len(TOKENS)} tokens; all damages',
          'thorough': f'histories to depth 8; m=3 over {len(TOKENS)} tokens; all damages'}
ASSUMPTIONS = ['Values are one line without blanks at both ends; the names of settings are identifiers that differ not only in case.']
KEYS = ('alpha', 'yw_last_open')
OPT = ('flag', 'other_flag')


def cases(tier):
    for part in range(32):
        yield ['histories', 6 if tier == 'quick' else 8, part]
    for k in range(len(TOKENS)):
        yield ['values', 2 if tier == 'quick' else 3, k]
    for r in range(len(DAMAGES) + 1):
        yield ['damage', r]
    yield ['types']


OPS = ([['set', c, k, v] for c in (0, 1) for k in (KEYS[1],) for v in VALUES] + [['opt', c, OPT[0], v] for c in (0, 1) for v in (True, False)]
       + [['write', c, f] for c in (0, 1) for f in (0, 1)] + [['read', c, f] for c in (0, 1) for f in (0, 1)]
       + [['replace', 1, True, False], ['replace', 1, False, True], ['delete', 0]])
START = (('d1', 'd 2'), (True, False))
REPLACED = (('r1', 'r 2'), (False, True))


def new():
    return Configuration(dict(zip(KEYS, START[0])), dict(zip(OPT, START[1])))


def has(c):
    return tuple(c.settings[k] for k in KEYS), tuple(c.options[k] for k in OPT)


def case(c, ctx):
    if c[0] == 'histories':
        histories(c, ctx)
    elif c[0] == 'values':
        values(c, ctx)
    elif c[0] == 'types':
        types(ctx)
    else:
        damage(c, ctx)


def step(state, op):
    """The model: (configuration 0, configuration 1, file 0, file 1); None if impossible."""
    s = list(state)
    if op[0] in ('set', 'opt'):
        n = 0 if op[0] == 'set' else 1
        part = list(s[op[1]][n])
        part[(KEYS, OPT)[n].index(op[2])] = op[3]
        conf = list(s[op[1]])
        conf[n] = tuple(part)
        s[op[1]] = tuple(conf)
    elif op[0] == 'write':
        s[2 + op[2]] = s[op[1]]
    elif op[0] == 'read':
        if s[2 + op[2]] is not None:
            s[op[1]] = s[2 + op[2]]
    elif op[0] == 'replace':
        s[op[1]] = (REPLACED[0] if op[2] else s[op[1]][0], REPLACED[1] if op[3] else s[op[1]][1])
    elif op[0] == 'delete':
        if s[2 + op[1]] is None:
            return None
        s[2 + op[1]] = None
    return tuple(s)


def histories(c, ctx):
    # The model's states are enumerated by each worker; the transitions of every 32nd state are run on the code.
    __, depth, part = c
    with sut.Work() as w:
        paths = [w.path('0.ini'), w.path('1.ini')]
        level = [(((START, START, None, None)), ())]
        seen = {level[0][0]}
        number = 0
        for n in range(depth):
            following = []
            for state, done in level:
                mine = number % 32 == part
                number += 1
                if mine:
                    ctx.state(state)
                for op in OPS:
                    after = step(state, op)
                    if after is None:
                        continue
                    if mine:
                        run(ctx, paths, state, op, after, done)
                        ctx.sample(done + (op,))
                    if after not in seen:
                        seen.add(after)
                        following.append((after, done + (op,)))
                    if len(ctx.violations) > 5:
                        return
            level = following
            if not level:
                ctx.bump('complete state spaces')
                break


def run(ctx, paths, state, op, after, done):
    confs = []
    for s in state[:2]:
        c = new()
        c.set(dict(zip(KEYS, s[0])), dict(zip(OPT, s[1])))
        confs.append(c)
    for path, s in zip(paths, state[2:]):
        if s is None:
            if os.path.exists(path):
                os.remove(path)
        else:
            c = new()
            c.set(dict(zip(KEYS, s[0])), dict(zip(OPT, s[1])))
            c.write(path)
    c = confs[op[1]]
    if op[0] == 'set':
        c.settings[op[2]] = op[3]
    elif op[0] == 'opt':
        c.options[op[2]] = op[3]
    elif op[0] == 'write':
        c.write(paths[op[2]])
    elif op[0] == 'read':
        c.read(paths[op[2]])
    elif op[0] == 'replace':
        given = dict(zip(KEYS, REPLACED[0])), dict(zip(OPT, REPLACED[1]))
        c.set(**({'settings': given[0]} if op[2] else {}), **({'options': given[1]} if op[3] else {}))
        # The caller's dictionaries are not shared.
        given[0]['alpha'] = 'changed'
        given[1]['flag'] = 'changed'
    elif op[0] == 'delete':
        os.remove(paths[op[1]])
    ctx.step()
    ctx.trace()
    got = [has(x) for x in confs]
    for path in paths:
        if os.path.exists(path):
            x = new()
            x.read(path)
            got.append(has(x))
        else:
            got.append(None)
    ctx.same(after, tuple(got), f'history-{op[0]}', f'{done + (op,)}')


def values(c, ctx):
    __, m, k = c
    with sut.Work() as w:
        path = w.path('c.ini')
        for r in range(m):
            for rest in itertools.product(TOKENS, repeat=r):
                v = TOKENS[k] + ''.join(rest)
                if v != v.strip():
                    continue
                conf = Configuration({'a': v, 'b': 'B'}, {'o': True})
                conf.write(path)
                got = Configuration({'a': 'default', 'b': 'default'}, {'o': False})
                got.read(path)
                ctx.step()
                ctx.trace()
                ctx.state(v)
                ctx.same(({'a': v, 'b': 'B'}, {'o': True}), (got.settings, got.options), 'value', f'{v!r}')


def types(ctx):
    """All spellings of booleans, and configurations with one or no part."""
    with sut.Work() as w:
        path = w.path('c.ini')
        for text, v in [(x, True) for x in ('Yes', 'yes', 'on', '1', 'true', 'TRUE')] + [(x, False) for x in ('No', 'off', '0', 'False', 'no')]:
            with open(path, 'w', encoding='utf-8') as h:
                h.write(f'[OPTIONS]\no = {text}\n')
            conf = Configuration({}, {'o': not v})
            conf.read(path)
            ctx.step()
            ctx.same({'o': v}, conf.options, 'boolean', text)
        for settings in ({}, {'s': 'x'}):
            for options in ({}, {'o': True}, {'o': False}):
                Configuration(settings, options).write(path)
                conf = Configuration({'s': 'd'}, {'o': True, 'p': True})
                conf.read(path)
                ctx.step()
                ctx.same(({'s': 'd', **settings}, {'o': True, 'p': True, **options}), (conf.settings, conf.options), 'parts', f'{settings} {options}')
        conf = Configuration()
        conf.write(path)
        conf.read(path)
        ctx.same(({}, {}), (conf.settings, conf.options), 'empty')
        a, b = Configuration(), Configuration()
        a.settings['x'] = 'y'
        ctx.same({}, b.settings, 'shared')
        ctx.state('types')


DAMAGES = ('no settings', 'no options', 'no alpha', 'no flag', 'unknown entries', 'unknown section', 'order', 'comments', 'bad flag', 'bad other', 'crlf', 'bom')
UNREADABLE = ('text before', 'double section', 'double entry', 'latin-1', 'binary', 'no equals')


def damage(c, ctx):
    with sut.Work() as w:
        path = w.path('c.ini')
        for names in itertools.combinations(DAMAGES, c[1]):
            for broken in (None, *UNREADABLE):
                want_s, want_o = dict(zip(KEYS, START[0])), dict(zip(OPT, START[1]))
                s = [] if 'no alpha' in names else ['alpha = A1']
                s += ['yw_last_open = A 2']
                o = [] if 'no flag' in names else ['flag = maybe' if 'bad flag' in names else 'flag = No']
                o += ['other_flag = ' if 'bad other' in names else 'other_flag = Yes']
                if 'no settings' not in names:
                    want_s.update(x.split(' = ', 1) for x in s)
                if 'no options' not in names:
                    want_o.update({x.split(' = ')[0]: x.endswith('Yes') for x in o if x.endswith(('Yes', 'No'))})
                if 'unknown entries' in names:
                    s.append('zzz = 1')
                    o.append('zzz = 1')
                if broken == 'double entry':
                    s.append(s[-1])
                if broken == 'no equals':
                    s.append('nothing')
                if 'comments' in names:
                    s.insert(0, '# comment')
                    o.append('; comment')
                secs = [] if 'no settings' in names else [['[SETTINGS]'] + s]
                secs += [] if 'no options' in names else [['[OPTIONS]'] + o]
                if 'unknown section' in names:
                    secs.append(['[OTHER]', 'flag = x'])
                if broken == 'double section':
                    if not secs:
                        continue
                    secs.append(secs[0])
                if 'order' in names:
                    secs.reverse()
                if broken in ('double entry', 'no equals') and 'no settings' in names:
                    continue
                text = '\n\n'.join('\n'.join(x) for x in secs) + '\n'
                if broken == 'text before':
                    text = 'text\n' + text
                data = text.replace('\n', '\r\n' if 'crlf' in names else '\n').encode('utf-8')
                if 'bom' in names:
                    continue
                if broken == 'latin-1':
                    data += 'x = é\n'.encode('latin-1')
                if broken == 'binary':
                    data = b'\x00\xff' + data
                with open(path, 'wb') as h:
                    h.write(data)
                conf = new()
                conf.read(path)
                ctx.step()
                ctx.trace()
                ctx.state((names, broken))
                if broken:
                    # Each value is the default or the one in the file.
                    ok = all(v in (d, n) for v, d, n in zip(has(conf)[0] + has(conf)[1], START[0] + START[1],
                                                            list(want_s.values()) + list(want_o.values())))
                    ctx.expect(ok and set(conf.settings) == set(KEYS) and set(conf.options) == set(OPT), 'unreadable', f'{names} {broken}: {has(conf)}')
                else:
                    ctx.same((want_s, want_o), (conf.settings, conf.options), 'damage', f'{names}: {data!r}')
