"""Thin access to the code under test, by its public interface only."""
import os
import shutil

from mc import env

env.setup()

from pywriter.pywriter_globals import Error  # noqa: E402
from pywriter.model.novel import Novel  # noqa: E402
from pywriter.model.scene import Scene  # noqa: E402
from pywriter.model.chapter import Chapter  # noqa: E402
from pywriter.model.character import Character  # noqa: E402
from pywriter.model.world_element import WorldElement  # noqa: E402
from pywriter.model.basic_element import BasicElement  # noqa: E402
from pywriter.ui.ui import Ui  # noqa: E402
from pywriter.yw.yw7_file import Yw7File  # noqa: E402
from pywriter.converter.yw7_converter import Yw7Converter  # noqa: E402

EXPORTS = {
    '': '.odt', '_proof': '.odt', '_manuscript': '.odt', '_brf_synopsis': '.odt', '_scenes': '.odt',
    '_chapters': '.odt', '_parts': '.odt', '_characters': '.odt', '_items': '.odt', '_locations': '.odt',
    '_xref': '.odt', '_notes': '.odt', '_todo': '.odt',
    '_charlist': '.ods', '_loclist': '.ods', '_itemlist': '.ods', '_scenelist': '.ods',
}
ODT = [s for s, e in EXPORTS.items() if e == '.odt']
ODS = [s for s, e in EXPORTS.items() if e == '.ods']
IMPORTS = [s for s in EXPORTS if s not in ('', '_brf_synopsis', '_xref')]
SUCCESS = 'written'


class RecUi(Ui):
    """Records what the user gets to see; answers questions from a script."""

    def __init__(self, answer=True):
        super().__init__('')
        self.answer = answer
        self.asked = []
        self.warnings = []
        self.how = []
        self.whats = []

    def ask_yes_no(self, text):
        self.asked.append(text)
        return self.answer

    def set_info_how(self, message):
        super().set_info_how(message)
        self.how.append(self.infoHowText)

    def set_info_what(self, message):
        super().set_info_what(message)
        self.whats.append(message)

    def show_warning(self, message):
        self.warnings.append(message)


class Result:

    def __init__(self, ui, new_file):
        self.ui = ui
        self.newFile = new_file
        self.message = ui.infoHowText
        self.ok = new_file is not None
        self.failed = self.message.startswith('FAIL')

    def __repr__(self):
        return f'<newFile={self.newFile!r} message={self.message!r} warnings={self.ui.warnings!r}>'


def convert(path, suffix='', answer=True, cls=Yw7Converter):
    c = cls()
    c.ui = RecUi(answer)
    c.run(path, suffix=suffix)
    return Result(c.ui, c.newFile)


def read(path):
    f = Yw7File(path)
    f.novel = Novel()
    f.read()
    return f


def rewrite(path):
    """Read and write a project."""
    f = read(path)
    f.write()
    return f


def export(path, suffix):
    """Export a project; return the path of the document."""
    r = convert(path, suffix)
    target = path[:-len('.yw7')] + suffix + EXPORTS[suffix]
    if not r.ok or r.failed or not os.path.isfile(target):
        raise AssertionError(f'export {suffix!r} failed: {r}')
    return target


def imp(path):
    r = convert(path)
    if not r.ok or r.failed:
        raise AssertionError(f'import of {path} failed: {r}')
    return r


SCENE_ATTRS = ('title', 'desc', 'sceneContent', 'scType', 'doNotExport', 'status', 'notes', 'tags', 'field1', 'field2',
               'field3', 'field4', 'appendToPrev', 'isReactionScene', 'isSubPlot', 'goal', 'conflict', 'outcome',
               'characters', 'locations', 'items', 'date', 'time', 'day', 'lastsMinutes', 'lastsHours', 'lastsDays',
               'image', 'scnArcs', 'scnMode')
CHAPTER_ATTRS = ('title', 'desc', 'chLevel', 'chType', 'suppressChapterTitle', 'suppressChapterBreak', 'isTrash',
                 'srtScenes')
WORLD_ATTRS = ('title', 'desc', 'image', 'tags', 'aka')
CHARACTER_ATTRS = WORLD_ATTRS + ('notes', 'bio', 'goals', 'fullName', 'isMajor')
NOVEL_ATTRS = ('title', 'desc', 'authorName', 'authorBio', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4',
               'wordTarget', 'wordCountStart', 'languageCode', 'countryCode', 'languages')


def _norm(v):
    """None, '', False and empty lists all say "nothing there"."""
    if v in (None, '', False) or v == [] or v == {}:
        return None
    if isinstance(v, list):
        return list(v)
    return v


def element(e, attrs):
    d = {}
    for a in attrs:
        v = _norm(getattr(e, a))
        if v is not None:
            d[a] = v
    kw = {k: v for k, v in e.kwVar.items() if v not in (None, '') and not k.startswith('Field_Scene')}
    if kw:
        d['kwVar'] = kw
    return d


def view(novel):
    """Return what a user of the model sees, as plain data."""
    return {
        'novel': element(novel, NOVEL_ATTRS),
        'chapters': [(i, element(novel.chapters[i], CHAPTER_ATTRS)) for i in novel.srtChapters],
        'scenes': {i: element(s, SCENE_ATTRS) for i, s in novel.scenes.items()},
        'characters': [(i, element(novel.characters[i], CHARACTER_ATTRS)) for i in novel.srtCharacters],
        'locations': [(i, element(novel.locations[i], WORLD_ATTRS)) for i in novel.srtLocations],
        'items': [(i, element(novel.items[i], WORLD_ATTRS)) for i in novel.srtItems],
        'notes': [(i, element(novel.projectNotes[i], ('title', 'desc'))) for i in novel.srtPrjNotes],
    }


def write_as(novel, path, suffix):
    """Export an open project, as applications do; return the path of the document."""
    cls, = (c for c in Yw7Converter.EXPORT_TARGET_CLASSES if c.SUFFIX == suffix)
    target = cls(os.path.splitext(path)[0] + suffix + EXPORTS[suffix])
    target.novel = novel
    target.write()
    return target.filePath


def listing(path):
    """Return {relative path: content} of a directory tree."""
    out = {}
    for base, dirs, files in os.walk(path):
        for n in files:
            p = os.path.join(base, n)
            with open(p, 'rb') as f:
                out[os.path.relpath(p, path)] = f.read()
        for n in dirs:
            p = os.path.join(base, n)
            if not os.listdir(p):
                out[os.path.relpath(p, path) + '/'] = b''
    return out


class Work:
    """A scratch directory, as a context manager."""

    def __enter__(self):
        self.dir = env.new_dir()
        return self

    def __exit__(self, *__):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        path = os.path.normpath(os.path.join(self.dir, name))
        # Nothing may be written anywhere else.
        assert path.startswith(self.dir + os.sep), path
        return path
