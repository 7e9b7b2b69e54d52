"""Project descriptions the checks start from."""
import copy

SPECIAL = 'a & b <c> "d" \'e\' ]]> €ä中 \\1 %s ${Title} $ID'


def scene(**kw):
    s = {'title': 'Scene', 'status': '2', 'content': 'Some text.'}
    s.update(kw)
    return s


def plain():
    """A small ordinary project."""
    return {
        'title': 'Title', 'author': 'Author', 'desc': 'Description', 'fieldtitle1': 'F1', 'fieldtitle2': 'F2',
        'fieldtitle3': 'F3', 'fieldtitle4': 'F4',
        'locations': [{'id': '1', 'title': 'Loc 1'}, {'id': '2', 'title': 'Loc 2'}],
        'items': [{'id': '1', 'title': 'Item 1'}],
        'characters': [{'id': '1', 'title': 'Char 1', 'major': True}, {'id': '2', 'title': 'Char 2'}],
        'scenes': {
            '1': scene(title='One', content='First text.', chars=['1']),
            '2': scene(title='Two', content='Second text.', chars=['2', '1'], locs=['2'], items=['1']),
            '3': scene(title='Three', content='Third text.'),
        },
        'chapters': [
            {'id': '1', 'title': 'Chapter One', 'scenes': ['1', '2']},
            {'id': '2', 'title': 'Chapter Two', 'scenes': ['3']},
        ],
        'vars': [
            {'id': '1', 'title': 'Language', 'desc': 'en', 'tags': '0'},
            {'id': '2', 'title': 'Country', 'desc': 'US', 'tags': '0'},
        ],
    }


def rich():
    """A project that uses everything a yWriter project can contain."""
    p = plain()
    p.update({
        'title': 'Rich ' + SPECIAL, 'author': 'A. & B. <C>', 'bio': 'Bio\nline two\n\n& <more>',
        'desc': 'Desc line\n' + SPECIAL, 'wordtarget': '50000', 'wordcountstart': '123',
        'fieldtitle1': 'Pl & ot', 'fieldtitle2': 'Hu<mor>', 'fieldtitle3': '', 'fieldtitle4': 'Q"uality\'',
        'fields': {'Field_Unknown': 'keep & me'},
        'raw_project': '<LaTeXHeaderFile><![CDATA[head & <er>]]></LaTeXHeaderFile>\n<SplitChapters>-1</SplitChapters>\n',
    })
    p['locations'] = [
        {'id': '12', 'title': 'Loc ' + SPECIAL, 'desc': 'd1\nd2', 'aka': 'al & ias', 'tags': ['t1', 'tag two'],
         'image': 'pic 1.jpg', 'link': 'http://x/?a=1&b=<2>'},
        {'id': '3', 'title': 'Loc three'},
        {'id': '1', 'title': 'Loc one', 'desc': ''},
    ]
    p['items'] = [
        {'id': '2', 'title': 'Item ' + SPECIAL, 'desc': 'i\n\nj', 'aka': 'aka', 'tags': ['t1'], 'image': 'i.png', 'link': 'l & m'},
        {'id': '10', 'title': 'Item ten', 'tags': ['x', 'y', 'z']},
    ]
    p['characters'] = [
        {'id': '4', 'title': 'Ch ' + SPECIAL, 'fullname': 'Full & <Name>', 'desc': 'cd\n' + SPECIAL, 'aka': 'A<k>a',
         'tags': ['hero', 'a b'], 'notes': 'n & n\nn', 'bio': 'b\n\nb', 'goals': 'g <g>', 'image': 'c.jpg',
         'major': True, 'link': 'x&y', 'birth': '1900-01-01', 'death': '1980-12-31'},
        {'id': '11', 'title': 'Minor', 'bio': 'only bio'},
        {'id': '2', 'title': 'Two', 'major': True},
    ]
    p['notes'] = [
        {'id': '5', 'title': 'Note ' + SPECIAL, 'desc': 'note text\n' + SPECIAL},
        {'id': '1', 'title': 'Second note'},
    ]
    p['vars'] = [
        {'id': '3', 'title': 'Language', 'desc': 'de', 'tags': '0'},
        {'id': '7', 'title': 'Country', 'desc': 'AT', 'tags': '0'},
        {'id': '8', 'title': 'My & var', 'desc': '<value>', 'tags': '0'},
        {'id': '9', 'title': 'lang=fr', 'desc': '<HTM <SPAN LANG="fr"> /HTM>', 'tags': '0'},
        {'id': '10', 'title': '/lang=fr', 'desc': '<HTM </SPAN> /HTM>', 'tags': '0'},
    ]
    p['raw_root'] = '<WORDCOUNT_HISTORY><X a="1">7</X></WORDCOUNT_HISTORY>\n'
    p['scenes'] = {
        '1': scene(title='One ' + SPECIAL, desc='Desc ' + SPECIAL, content='Text [i]it[/i] & [b]bold[/b] <x>\nnext\n\n> quote\n/* note & */end. [lang=fr]bon[/lang=fr]',
                   notes='sc notes\n&', tags=['tagA', 'tag B'], field1='3', field2='10', field3='1', field4='7',
                   goal='goal & g', conflict='conf <l>', outcome='out\ncome', image='s.jpg', status='5', chars=['11', '4'],
                   locs=['3', '12'], items=['10', '2'], arcs='A;B & C', mode='2',
                   datetime='2021-03-04 05:06:07', lastsdays='1', lastshours='2', lastsminutes='3'),
        '22': scene(title='Day scene', content='Day', day='4', hour='09', minute='05', append=True, reaction=True, status='1'),
        '3': scene(title='No export', content='Not exported', noexport=True, subplot=True, status='4'),
        '4': scene(title='Notes scene', content='notes text', type=1, status='1', chars=['2']),
        '5': scene(title='Todo scene', content='todo text', type=2, status='1', tags=['tagA']),
        '6': scene(title='Unused scene', content='unused text', type=3, status='3', locs=['1']),
        '7': scene(title='RTF only', content='rtf', exportrtf=True),
        '8': scene(title='In todo chapter', content='x', type=2, status='1'),
        '9': scene(title='In notes chapter', content='y', type=1, status='1'),
        '10': scene(title='In unused chapter', content='z', type=3, status='1'),
        '31': scene(title='Unk', content='has unknown', raw='<Sequence>5</Sequence>\n<ImportedFlag>a &amp; b</ImportedFlag>\n',
                    fields={'Field_Custom': 'my & custom'}),
        '32': scene(title='', content='', status='1'),
    }
    p['chapters'] = [
        {'id': '1', 'title': 'Part ' + SPECIAL, 'desc': 'part desc &', 'level': 1, 'scenes': [], 'suppresstitle': False},
        {'id': '2', 'title': 'Chapter & <1>', 'desc': 'ch desc\ntwo', 'scenes': ['1', '22', '3', '4', '5', '6'],
         'suppresstitle': True, 'suppressbreak': True},
        {'id': '30', 'title': '@auto', 'scenes': ['7', '31']},
        {'id': '4', 'title': 'Todo ch', 'type': 2, 'scenes': ['8']},
        {'id': '5', 'title': 'Notes ch', 'type': 1, 'scenes': ['9'], 'desc': 'notes chapter'},
        {'id': '6', 'title': 'Unused ch', 'type': 3, 'scenes': ['10']},
        {'id': '17', 'title': 'Empty scene ch', 'scenes': ['32'], 'raw': '<SortKey>9</SortKey>\n', 'fields': {'Field_ChCustom': 'k'}},
        {'id': '18', 'title': 'Trash', 'type': 3, 'trash': True, 'scenes': []},
    ]
    return p


def clone(p):
    return copy.deepcopy(p)
