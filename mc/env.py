"""Process environment of every check: locale, import path, scratch space."""
import atexit
import locale
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_WANTED = {
    'LC_ALL': 'en_US.UTF-8',
    'LANG': 'en_US.UTF-8',
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONNOUSERSITE': '1',
    'PYTHONHASHSEED': '0',
    'PYTHONUTF8': '0',
}


def reexec():
    """Start the interpreter again with a fixed environment, once."""
    if os.environ.get('VERIF_MC_ENV') == '1':
        return
    env = dict(os.environ)
    env.update(_WANTED)
    for name in ('DISPLAY', 'PYTHONPATH', 'LANGUAGE', 'LC_CTYPE', 'PYTHONSTARTUP'):
        env.pop(name, None)
    env['VERIF_MC_ENV'] = '1'
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def setup():
    """Make the code under test importable."""
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    # The exporters ask for the system locale.  A sandbox that lacks the
    # en_US.UTF-8 data must not change what is explored.
    try:
        locale.setlocale(locale.LC_ALL, '')
    except locale.Error:
        pass
    if locale.getlocale()[0] != 'en_US':
        locale.getlocale = lambda category=locale.LC_CTYPE: ('en_US', 'UTF-8')
        locale.getdefaultlocale = lambda *a, **k: ('en_US', 'UTF-8')


_base = None


def scratch_base():
    """Return the scratch directory of this run (removed at exit by its owner)."""
    global _base
    if _base is None:
        for parent in ('/dev/shm', tempfile.gettempdir(), '/tmp'):
            try:
                _base = tempfile.mkdtemp(prefix='mcscratch-', dir=parent)
                break
            except OSError:
                continue
        owner = os.getpid()

        def cleanup():
            if os.getpid() == owner:
                shutil.rmtree(_base, ignore_errors=True)

        atexit.register(cleanup)
    return _base


def new_dir(prefix='w'):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch_base())


def own_tempdir():
    """Let the code under test put its temporary files in the scratch directory."""
    tempfile.tempdir = tempfile.mkdtemp(prefix='tmp', dir=scratch_base())
    return tempfile.tempdir
