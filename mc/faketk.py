"""A tkinter without a display: widgets remember what they show, dialogs answer from a script."""
import sys
import types


class Widget:

    def __init__(self, *args, **kw):
        self.options = {'background': 'grey', 'bg': 'grey', 'fg': 'black', 'text': '', **kw}
        self.bindings = {}
        self.packed = False

    def config(self, cnf=None, **kw):
        kw = {**(cnf or {}), **kw}
        self.options.update(kw)
        if 'text' in kw:
            log.texts.append(kw['text'])

    configure = config

    def cget(self, key):
        return self.options[key]

    def __getitem__(self, key):
        return self.options[key]

    def __setitem__(self, key, value):
        self.config(**{key: value})

    def pack(self, cnf=None, **kw):
        self.packed = True

    grid = place = pack

    def pack_forget(self):
        self.packed = False

    grid_forget = place_forget = pack_forget

    def bind(self, event, func, add=None):
        self.bindings[event] = func

    bind_all = bind

    def update(self):
        pass

    update_idletasks = focus = focus_set = lift = deiconify = update

    def after(self, ms, func=None, *args):
        if func:
            func(*args)

    after_idle = lambda self, func, *args: func(*args)

    def fire(self, event):
        return self.bindings[event](types.SimpleNamespace(widget=self))

    def destroy(self):
        self.packed = False


class Label(Widget):
    pass


class Tk(Widget):

    def __init__(self, *args, **kw):
        super().__init__()
        self.shown = ''
        self.protocols = {}
        self.size = '200x200+0+0'
        self.running = False
        self.ended = 0
        self.visible = True

    def title(self, text=None):
        if text is None:
            return self.shown
        self.shown = text

    wm_title = title

    def iconphoto(self, default, *pictures):
        self.icons = getattr(self, 'icons', []) + [(bool(default), [p.data for p in pictures])]

    wm_iconphoto = iconphoto

    def protocol(self, name, func):
        self.protocols[name] = func

    def geometry(self, size=None):
        if size is None:
            return self.size
        self.size = size

    def winfo_geometry(self):
        return self.size

    def minsize(self, *a, **kw):
        pass

    resizable = minsize

    def withdraw(self):
        self.visible = False

    def mainloop(self, n=0):
        self.running = True

    def quit(self):
        self.running = False
        self.ended += 1


class TclError(Exception):
    pass


class PhotoImage:
    """Reads a picture, or raises an error."""

    def __init__(self, *args, file=None, **kw):
        try:
            with open(file, 'rb') as h:
                self.data = h.read()
        except OSError as ex:
            raise TclError(f"couldn't open \"{file}\"") from ex
        if not self.data.startswith(b'\x89PNG'):
            raise TclError(f"couldn't recognize data in image file \"{file}\"")


class Menu(Widget):

    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.entries = {}

    def add_command(self, cnf=None, **kw):
        kw = {'state': 'normal', **(cnf or {}), **kw}
        self.entries[kw.pop('label', None)] = kw

    add_cascade = add_command

    def add(self, itemType, cnf=None, **kw):
        if itemType != 'separator':
            self.add_command(cnf, **kw)

    def add_separator(self, cnf=None, **kw):
        pass

    def entryconfig(self, index, cnf=None, **kw):
        self.entries[index].update(cnf or {}, **kw)

    entryconfigure = entryconfig

    def entrycget(self, index, option):
        return self.entries[index][option]

    def choose(self, label):
        """The user clicks on an entry."""
        entry = self.entries[label]
        if entry['state'] == 'disabled':
            return False
        entry['command']()
        return True


class Log:
    """What dialogs were shown, and the answers to give."""

    def __init__(self):
        self.shown = []
        self.texts = []
        self.answer = True
        self.file = ''
        self.dirs = []


log = Log()


def _box(kind):
    def show(title=None, message=None, **kw):
        log.shown.append(('askyesno' if kind == 'askquestion' else kind, title, message))
        return ('yes' if log.answer else 'no') if kind == 'askquestion' else log.answer
    return show


def install():
    tk = types.ModuleType('tkinter')
    for name, cls in {'TclError': TclError, 'PhotoImage': PhotoImage, 'Tk': Tk, 'Menu': Menu, 'Label': Label, 'Widget': Widget}.items():
        setattr(tk, name, cls)
    for name in ('Frame', 'Button', 'Entry', 'Text', 'Toplevel', 'Scrollbar'):
        setattr(tk, name, type(name, (Widget,), {}))
    tk.messagebox = types.ModuleType('tkinter.messagebox')
    for kind in ('askyesno', 'askquestion', 'askokcancel', 'showerror', 'showinfo', 'showwarning'):
        setattr(tk.messagebox, kind, _box(kind))
    tk.filedialog = types.ModuleType('tkinter.filedialog')

    def askopenfilename(filetypes=None, defaultextension=None, initialdir=None, **kw):
        log.dirs.append(initialdir)
        return log.file

    tk.filedialog.askopenfilename = askopenfilename
    tk.ttk = types.ModuleType('tkinter.ttk')
    for name in ('Label', 'Frame', 'Button', 'Entry', 'Scrollbar'):
        setattr(tk.ttk, name, getattr(tk, name))
    constants = {'END': 'end', 'NORMAL': 'normal', 'DISABLED': 'disabled', 'LEFT': 'left', 'RIGHT': 'right', 'TOP': 'top', 'BOTTOM': 'bottom', 'W': 'w',
                 'E': 'e', 'N': 'n', 'S': 's', 'X': 'x', 'Y': 'y', 'BOTH': 'both', 'CENTER': 'center', 'WORD': 'word', 'INSERT': 'insert', 'NONE': 'none',
                 'YES': 1, 'NO': 0, 'TRUE': 1, 'FALSE': 0}
    tk.constants = types.ModuleType('tkinter.constants')
    for name, value in constants.items():
        setattr(tk, name, value)
        setattr(tk.constants, name, value)
    sys.modules['tkinter.constants'] = tk.constants
    sys.modules['tkinter.ttk'] = tk.ttk
    sys.modules['tkinter'] = tk
    sys.modules['tkinter.messagebox'] = tk.messagebox
    sys.modules['tkinter.filedialog'] = tk.filedialog
    return tk
