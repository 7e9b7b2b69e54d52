"""Run conversions as a program in a given environment; print what came out (started as a subprocess by C31)."""
import hashlib
import io
import json
import os
import re
import sys
import zipfile


def windows():
    """Text files as on a system with another default encoding and line ends."""
    import builtins
    real = builtins.open

    def wrapped(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if 'b' not in mode and isinstance(file, (str, os.PathLike)):
            encoding = encoding or 'cp1252'
            if newline is None and mode[0] in 'wax':
                newline = '\r\n'
        return real(file, mode, buffering, encoding, errors, newline, closefd, opener)

    builtins.open = wrapped


def canon(name, data):
    if zipfile.is_zipfile(io.BytesIO(data)):
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            return {n: canon(n, z.read(n)) for n in z.namelist() if not n.endswith('/')}
    if name == 'meta.xml':
        data = re.sub(rb'\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d[.\dZ]*', b'', data)
    return data.replace(b'\r\n', b'\n').decode('utf-8', 'replace')


def main():
    spec = json.loads(sys.stdin.buffer.read().decode('utf-8'))
    sys.dont_write_bytecode = True
    sys.path.insert(0, spec['src'])
    if spec['windows']:
        windows()
    if spec['virtual']:
        def realpath(*a, **k):
            raise OSError(1, 'Incorrect function')
        os.path.realpath = realpath
    if spec['umask'] is not None:
        os.umask(spec['umask'])
    if spec['locale'] is not None:
        import locale
        kind, value = spec['locale']
        fake = (lambda *a, **k: tuple(value)) if kind == 'both' else None
        if fake:
            locale.getlocale = locale.getdefaultlocale = fake
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.model.novel import Novel
    from pywriter.config.configuration import Configuration
    from pywriter.ui.ui import Ui

    class Yes(Ui):

        def __init__(self):
            super().__init__('')

        def ask_yes_no(self, text):
            return True

        def show_warning(self, message):
            out.append(['warning', message])

    out = []
    base = spec['base']

    def shown(op):
        files = {}
        for d, __, names in os.walk(spec['dir']):
            for n in names:
                with open(os.path.join(d, n), 'rb') as f:
                    files[os.path.relpath(os.path.join(d, n), spec['dir'])] = canon(n, f.read())
        h = {n: hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest() for n, x in files.items()}
        new = {n: files[n] for n in h if seen.get(n) != h[n]}
        gone = sorted(set(seen) - set(h))
        seen.clear()
        seen.update(h)
        out.append([op, new, gone])

    seen = {}
    for op in spec['ops']:
        try:
            if op[0] == 'convert':
                c = Yw7Converter()
                c.ui = Yes()
                c.run(base + op[1], suffix=op[2])
                result = [c.newFile is not None, c.ui.infoHowText.startswith('FAIL')]
                if result != [True, False]:
                    result.append(c.ui.infoHowText)
            elif op[0] == 'save':
                p = Yw7File(base + op[1])
                p.novel = Novel()
                p.read()
                p.write()
                result = []
            elif op[0] == 'config':
                c = Configuration(dict(a='\u4e2d\u00e9 %', b=''), dict(o=False))
                c.set(dict(a='x \u20ac\u4e2d\u00e9 % ; #', b='\u00fc'), dict(o=True))
                c.write(base + op[1])
                c = Configuration(dict(a='', b='', c='z'), dict(o=False, p=True))
                c.read(base + op[1])
                result = [c.settings, c.options]
        except Exception as ex:
            result = ['exception', type(ex).__name__, str(ex)]
        shown([op, result])
    sys.stdout.buffer.write(json.dumps(out).encode('ascii'))


main()
