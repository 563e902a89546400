"""Containment: the code under test may only touch the scratch directory.

A python audit hook sees every file system effect of this process (whatever library call
produced it).  While armed, an effect outside the allowed roots is recorded and refused
(PermissionError), so an escaped call of a broken tree reaches nothing.  Effects inside are
reported to an optional listener, which is how crash points and monitors are implemented.
Workers additionally run as an unprivileged user.
"""

import os
import sys
import threading

armed = 0
roots = ()
escapes = []
listener = None         # f(kind, path) called for each allowed effect while armed
_installed = False

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
ONE = {'os.remove': 'remove', 'os.mkdir': 'mkdir', 'os.rmdir': 'rmdir', 'os.utime': 'utime',
       'os.chmod': 'chmod', 'os.chown': 'chown', 'os.truncate': 'truncate',
       'os.setxattr': 'setxattr', 'os.removexattr': 'removexattr', 'os.chflags': 'chflags'}
TWO = {'os.rename': 'rename', 'os.link': 'link', 'os.symlink': 'symlink'}
FORBIDDEN = ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn',
             'socket.connect', 'socket.bind', 'socket.sendto', 'os.kill', 'os.killpg',
             'shutil.chown', 'os.forkpty', 'pty.spawn', 'os.startfile')


class Escape(PermissionError):
    pass


def _inside(path):
    p = os.path.abspath(os.path.join(os.getcwd(), path))
    # resolve what exists of the directory (symlinks) without following the last name
    p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
    for r in roots:
        if p == r or p.startswith(r + os.sep):
            return True
    return p == '/dev/null'


def _path(p):
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return p


def _effect(kind, paths, extra=None):
    global armed
    keep = armed
    armed = 0
    try:
        ps = []
        for p in paths:
            p = _path(p)
            if isinstance(p, int):
                continue
            ps.append(str(p))
            if not _inside(str(p)):
                escapes.append((kind, str(p)))
                raise Escape(13, 'outside the scratch directory (%s)' % kind, str(p))
        if listener is not None and ps:
            listener(kind, ps, extra)
    finally:
        armed = keep


def _hook(event, args):
    if not armed:
        return
    if event == 'open':
        path, mode, flags = args
        if path is None or isinstance(path, int):
            return
        if (isinstance(flags, int) and flags & WRITE_FLAGS) or \
                (isinstance(mode, str) and any(c in mode for c in 'wax+')):
            _effect('open', [path], (mode, flags))
    elif event in ONE:
        _effect(ONE[event], [args[0]], args[1:])
    elif event in TWO:
        # symlink target is only text
        _effect(TWO[event], [args[1]] if event == 'os.symlink' else [args[0], args[1]])
    elif event in FORBIDDEN:
        if event.startswith('socket') and len(args) > 1 and isinstance(args[1], str):
            return
        escapes.append((event, repr(args)[:200]))
        raise Escape(13, 'forbidden effect %s' % event)


def install(*allowed):
    global roots, _installed
    roots = tuple(os.path.realpath(r) for r in allowed)
    if not _installed:
        _installed = True
        sys.addaudithook(_hook)


class armed_guard:
    """with guard.armed_guard(): run code under test."""

    def __init__(self, listen=None):
        self.listen = listen

    def __enter__(self):
        global armed, listener
        self.keep = (armed, listener)
        listener = self.listen
        armed = 1
        return self

    def __exit__(self, *a):
        global armed, listener
        armed, listener = self.keep
        return False


def take_escapes():
    global escapes
    e = list(escapes)
    escapes.clear()
    return e
