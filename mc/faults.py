"""Run an operation in a child process that fails or dies at a chosen point.

The points are what the interpreter itself reports through its audit hooks when it
opens, renames, removes, or creates files and directories, and the number of bytes the
kernel lets the process write into a file (RLIMIT_FSIZE).  So they do not depend on
how the code under test is written, and errors and torn files are the real ones.
"""
import errno
import os
import pickle
import resource
import signal
import sys
import tempfile

EVENTS = {'open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod',
          'os.utime', 'os.scandir', 'os.listdir', 'os.chdir', 'shutil.copyfile', 'shutil.move', 'shutil.rmtree', 'tempfile.mkdtemp',
          'tempfile.mkstemp'}
CREATING = {'os.mkdir', 'os.link', 'os.symlink', 'shutil.copyfile', 'tempfile.mkdtemp', 'tempfile.mkstemp'}


def _relevant(event, args, root):
    if event not in EVENTS:
        return None
    if event in ('tempfile.mkdtemp', 'tempfile.mkstemp', 'os.chdir'):
        return str(args[0])
    for a in args[:2]:
        if isinstance(a, bytes):
            a = os.fsdecode(a)
        elif hasattr(a, '__fspath__'):
            a = os.fspath(a)
        if not isinstance(a, str):
            continue
        p = a if os.path.isabs(a) else os.path.join(os.getcwd(), a)
        if p.startswith(root):
            return p
    if event in ('os.rmdir', 'os.remove', 'os.scandir', 'os.listdir'):
        # rmtree works with directory descriptors.
        return str(args[0])
    return None


def _writes(event, args):
    if event == 'open':
        mode, flags = args[1], args[2]
        return bool(isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
    return event in CREATING


class Outcome:

    def __init__(self):
        self.events = []
        self.value = None
        self.exception = None
        self.died = False
        self.cwd_kept = True


def run(func, args, root, mode, n):
    """Run func(*args) in a child.

    mode: 'none', 'fail' (event n fails), 'memory' (at event n, there is no memory left for a moment), 'full' (from event n on, nothing can be opened for writing or created),
    'gone' (everything fails from event n on), 'crash' (the process dies at event n), 'limit' (no file can grow
    beyond n bytes), 'torn' (the process dies when a file reaches n bytes).
    """
    r, w = os.pipe()
    tmp = tempfile.mkdtemp(prefix='t', dir=root)
    pid = os.fork()
    if pid == 0:
        os.close(r)
        out = Outcome()
        code = 0
        try:
            sys.stdout = sys.stderr = open(os.devnull, 'w')
            tempfile.tempdir = tmp
            state = {'n': 0, 'on': True}

            def hook(event, a):
                if not state['on']:
                    return
                what = _relevant(event, a, root)
                if what is None:
                    return
                k = state['n']
                state['n'] += 1
                creates = _writes(event, a)
                out.events.append((event, what.replace(tmp, 'TMP').replace(root, '').split('odf_')[0], creates))
                if mode == 'fail' and k == n or mode == 'gone' and k >= n or mode == 'full' and k >= n and creates:
                    raise OSError(errno.ENOSPC if creates else errno.EIO, 'injected')
                if mode == 'memory' and k == n:
                    raise MemoryError('injected')
                if mode == 'crash' and k == n:
                    os._exit(77)

            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mode == 'torn':
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            if mode in ('limit', 'torn'):
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
            cwd = os.getcwd()
            sys.addaudithook(hook)
            try:
                out.value = func(*args)
            except Exception as ex:
                out.exception = (type(ex).__name__, str(ex), [c.__name__ for c in type(ex).__mro__])
            state['on'] = False
            try:
                out.cwd_kept = os.getcwd() == cwd
            except OSError:
                out.cwd_kept = False
            if mode in ('limit', 'torn'):
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            out.left = sorted(os.listdir(tmp))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    __, status = os.waitpid(pid, 0)
    if data:
        out = pickle.loads(data)
    else:
        out = Outcome()
        out.died = True
        out.left = []
    if not data and mode not in ('crash', 'torn'):
        raise RuntimeError(f'the child died ({status}) without a fault')
    for base, dirs, files in os.walk(tmp, topdown=False):
        for x in files:
            os.remove(os.path.join(base, x))
        for x in dirs:
            os.rmdir(os.path.join(base, x))
    os.rmdir(tmp)
    return out
