"""Crash point and interleaving engine: real processes, stopped at chosen system calls.

The check process runs with mc/shim/shim.c preloaded (run.py compiles it and re-executes itself).
`killed(...)` runs a function in a forked child that ends abruptly at a chosen file system effect;
`Schedule` runs two children that advance one system call at a time, as the explorer decides."""

import ctypes
import errno
import os
import pickle
import signal
import subprocess
import sys
import traceback

from . import guard
from .core import Fail, Infra

HERE = os.path.dirname(os.path.abspath(__file__))


def compile_shim(scratch):
    out = os.path.join(scratch, 'shim.so')
    r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', out,
                        os.path.join(HERE, 'shim', 'shim.c'), '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Infra("cannot compile the shim: %s" % r.stdout.decode()[-2000:])
    os.chmod(out, 0o755)
    return out


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        for f, args in (('vs_crash', [ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_int]),
                        ('vs_fault', [ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_int,
                                      ctypes.c_int, ctypes.c_char_p, ctypes.c_int]),
                        ('vs_sched', [ctypes.c_char_p, ctypes.c_int, ctypes.c_int])):
            getattr(_lib, f).argtypes = args
            getattr(_lib, f).restype = None
    return _lib


def _child(fn, out):
    """Body of a child: run fn under the guard, report result; never returns."""
    code = 0
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        sys.unraisablehook = lambda e: None
        try:
            with guard.armed_guard():
                res = ('ok', fn())
        except SystemExit as e:
            res = ('exit', str(e.code))
        except Exception as e:
            res = (type(e).__name__, str(e)[:500])
        lib().vs_off()
        esc = guard.take_escapes()
        data = pickle.dumps((res, esc))
        os.write(out, data)
    except BaseException:
        traceback.print_exc()
        code = 9
    os._exit(code)


def killed(ctx, root, fn, target=-1, torn=0):
    """Run fn in a child killed before effect number `target` (after `torn` bytes of a write).

    Returns (killed?, effects logged [(kind, size, path)], result of fn or None)."""
    return _logged(ctx, lambda log: lib().vs_crash(os.fsencode(root), target, torn, log), fn)


# what fails from some point on: (error, kinds of calls)
FAULTS = {'io': (errno.EIO, None),
          'denied': (errno.EACCES, None),
          'full': (errno.ENOSPC, ' write open-w mkdir symlink link '),
          'readonly': (errno.EROFS, ' write open-w mkdir symlink link rename unlink rmdir chmod utime truncate '),
          'short': (0, None)}


def faulty(ctx, root, fn, target=-1, torn=0, what='io'):
    """Run fn in a child in which file system call number `target` fails (a write: after `torn` bytes).

    Returns (False, calls logged [(kind, size, path)], result of fn)."""
    err, kinds = FAULTS[what]
    return _logged(ctx, lambda log: lib().vs_fault(os.fsencode(root), target, torn, err, int(kinds is not None),
                                                   (kinds or '').encode(), log), fn)


def fault_points(calls):
    """Every fault of a run with these calls: [(index, torn, what)]."""
    out = []
    for i, (kind, size, path) in enumerate(calls):
        out.append((i, 0, 'io'))
        if kind in ('open-w', 'mkdir', 'write'):
            out.append((i, 0, 'full'))
        if kind not in ('write', 'read', 'truncate'):
            out.append((i, 0, 'denied'))
        if kind not in ('open-r', 'read'):
            out.append((i, 0, 'readonly'))
        if kind == 'write' and size > 1:
            for k in sorted({1, size // 2, size - 1}):
                out.append((i, k, 'full'))
            out.append((i, size // 2, 'short'))
    return out


def _logged(ctx, start, fn):
    r, w = os.pipe()
    lr, lw = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.close(lr)
        start(lw)
        _child(fn, w)
    os.close(w)
    os.close(lw)
    log = b''
    # the log is small (one line per effect) but may exceed the pipe: drain it first
    while True:
        b = os.read(lr, 65536)
        if not b:
            break
        log += b
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.close(lr)
    _, st = os.waitpid(pid, 0)
    ctx.step()
    code = os.waitstatus_to_exitcode(st)
    effects = []
    for line in log.decode('utf-8', 'replace').splitlines():
        kind, size, path = line.split('\t', 2)
        effects.append((kind, int(size), path))
    if code == 77:
        return True, effects, None
    if code != 0:
        raise Infra("child ended with %s" % code)
    res, esc = pickle.loads(data)
    if esc:
        raise Fail("effect outside the scratch directory: %s" % (esc[:3],))
    return False, effects, res


def torn_sizes(size, fine, step):
    """Numbers of bytes of a torn write to try (0 is the point before the write).

    Writes of at most `fine` bytes are torn at every byte; others at every `step` bytes if given,
    and near both ends, thirds, and page boundaries."""
    if size <= 1:
        return []
    if size <= fine:
        return list(range(1, size))
    out = {1, 2, size // 3, size // 2, (2 * size) // 3, 4096, 8192}
    out |= set(range(max(size - (12 if step else 2), 1), size))
    if step:
        out |= set(range(step, size, step))
    return sorted(x for x in out if 0 < x < size)


def points(effects, fine=0, step=0):
    """Every crash point of a run with these effects: [(index, torn)]."""
    out = []
    for i, (kind, size, path) in enumerate(effects):
        out.append((i, 0))
        if kind == 'write':
            out += [(i, k) for k in torn_sizes(size, fine, step)]
    return out


class Schedule:
    """Run several functions as processes, one system call at a time."""

    def __init__(self, ctx, root, fns):
        self.ctx, self.root, self.fns = ctx, root, fns

    def run(self):
        procs = []
        for fn in self.fns:
            ar, aw = os.pipe()
            gr, gw = os.pipe()
            rr, rw = os.pipe()
            pid = os.fork()
            if pid == 0:
                for fd in (ar, gw, rr):
                    os.close(fd)
                for p in procs:
                    for fd in (p['ask'], p['go'], p['res']):
                        os.close(fd)
                lib().vs_sched(os.fsencode(self.root), aw, gr)
                _child(fn, rw)
            for fd in (aw, gr, rw):
                os.close(fd)
            procs.append({'pid': pid, 'ask': ar, 'go': gw, 'res': rr, 'at': None, 'buf': b''})
        trace = []
        last = None

        def wait(p):
            """Until p asks again or ends."""
            while b'\n' not in p['buf']:
                b = os.read(p['ask'], 4096)
                if not b:
                    p['at'] = None
                    p['done'] = True
                    return
                p['buf'] += b
            line, p['buf'] = p['buf'].split(b'\n', 1)
            p['at'] = line.decode('utf-8', 'replace')
        try:
            for p in procs:
                wait(p)
            while True:
                ready = [i for i, p in enumerate(procs) if p['at'] is not None]
                if not ready:
                    break
                # staying with the running process is the default
                if last in ready:
                    ready.remove(last)
                    ready.insert(0, last)
                i = ready[self.ctx.choose('run', len(ready))] if len(ready) > 1 else ready[0]
                p = procs[i]
                trace.append((i, p['at'].split('\t')[0]))
                self.ctx.step()
                os.write(p['go'], b'g')
                wait(p)
                last = i
            results = []
            for p in procs:
                data = b''
                while True:
                    b = os.read(p['res'], 65536)
                    if not b:
                        break
                    data += b
                res, esc = pickle.loads(data)
                if esc:
                    raise Fail("effect outside the scratch directory: %s" % (esc[:3],))
                results.append(res)
            return results, trace
        finally:
            for p in procs:
                for fd in (p['ask'], p['go'], p['res']):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                try:
                    os.kill(p['pid'], signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p['pid'], 0)
