"""Run a function in a process that has not run any of the code under test before.

A server process is forked before the worker touches the code under test; it forks
once for every call, so that no call can see what an earlier one left behind in the
interpreter.
"""
import multiprocessing
import os
import sys


class Pristine:

    def __init__(self, func):
        self.func = func
        self.conn, other = multiprocessing.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            self.conn.close()
            self._serve(other)
            os._exit(0)
        other.close()

    def _serve(self, conn):
        while True:
            try:
                args = conn.recv()
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    conn.send(('ok', self.func(*args)))
                except BaseException as ex:
                    conn.send(('exception', repr(ex)))
                os._exit(0)
            __, status = os.waitpid(pid, 0)
            if status:
                conn.send(('exception', f'ended with {status}'))

    def __call__(self, *args):
        self.conn.send(args)
        kind, value = self.conn.recv()
        if kind == 'exception':
            raise RuntimeError(f'clean run: {value}')
        return value

    def close(self):
        try:
            self.conn.close()
            os.waitpid(self.pid, 0)
        except OSError:
            pass


_servers = {}


def call(func, *args):
    """Call a module-level function in a pristine process (one server per function and worker)."""
    key = (os.getpid(), func.__module__, func.__name__)
    if key not in _servers:
        _servers[key] = Pristine(func)
    return _servers[key](*args)
