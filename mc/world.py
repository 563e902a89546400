"""A closed world for the sync client: in-process web source, scratch destination, monitors."""

import http.client
import io
import logging
import os
import re
import socket
import sys
import urllib.error
import urllib.request
import urllib.response
from email.message import Message
from xml.sax.saxutils import escape, quoteattr

from . import guard, vtime
from .core import Fail

import resync.client
import resync.client_state
import resync.explorer
import resync.url_or_file_open
from resync.client import Client
from resync.client_utils import ClientError, ClientFatalError

BASE = 'http://src.example/res'
STATE = '.resync-client-status.cfg'


# --- independent document writer --------------------------------------------

def iso(t):
    """W3C datetime of an integer or float number of seconds (independent arithmetic)."""
    micro = int(round((t - int(t)) * 1000000))
    secs = int(t)
    days, rem = divmod(secs, 86400)
    h, rem = divmod(rem, 3600)
    mi, s = divmod(rem, 60)
    # civil from days (Howard Hinnant)
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    mo = mp + 3 if mp < 10 else mp - 9
    y = y + 1 if mo <= 2 else y
    out = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, h, mi, s)
    if micro:
        out += ('.%06d' % micro).rstrip('0')
    return out + 'Z'


MDS = ('at', 'capability', 'change', 'completed', 'datetime', 'from', 'hash', 'length', 'path',
       'type', 'until')


def xml_doc(capability, entries, index=False, ln=(), md=None):
    """Serialise a document. entries: dicts with loc and optional lastmod, md attributes, ln."""
    root, item = ('sitemapindex', 'sitemap') if index else ('urlset', 'url')
    s = ['<?xml version="1.0" encoding="UTF-8"?>\n<%s xmlns="http://www.sitemaps.org/schemas/'
         'sitemap/0.9" xmlns:rs="http://www.openarchives.org/rs/terms/">\n' % root]
    for link in ln:
        s.append('<rs:ln %s/>\n' % ' '.join('%s=%s' % (k, quoteattr(str(v)))
                                           for k, v in link.items()))
    top = dict(md or {})
    if capability is not None:
        top['capability'] = capability
    if top:
        s.append('<rs:md %s/>\n' % ' '.join('%s=%s' % (k, quoteattr(str(v)))
                                           for k, v in top.items()))
    for e in entries:
        s.append('<%s><loc>%s</loc>' % (item, escape(e['loc'])))
        if e.get('lastmod') is not None:
            lm = e['lastmod']
            s.append('<lastmod>%s</lastmod>' % (lm if isinstance(lm, str) else iso(lm)))
        at = []
        for k in MDS:
            v = e.get(k)
            if v is not None:
                if k == 'datetime' and not isinstance(v, str):
                    v = iso(v)
                at.append('%s=%s' % (k, quoteattr(str(v))))
        if at:
            s.append('<rs:md %s/>' % ' '.join(at))
        for link in e.get('ln', ()):
            s.append('<rs:ln %s/>' % ' '.join('%s=%s' % (k, quoteattr(str(v)))
                                             for k, v in link.items()))
        s.append('</%s>\n' % item)
    s.append('</%s>\n' % root)
    return ''.join(s).encode('utf-8')


# --- in-process web ----------------------------------------------------------

class Body(io.BytesIO):
    """Response body that can fail after some bytes."""

    def __init__(self, data, fail_at=None, exc=None):
        super().__init__(data)
        self.fail_at = fail_at
        self.exc = exc

    def _cap(self, n):
        if self.fail_at is None:
            return n
        left = self.fail_at - self.tell()
        if left <= 0:
            raise self.exc
        return left if n is None or n < 0 else min(n, left)

    def read(self, n=-1):
        if self.fail_at is not None and (n is None or n < 0):
            # a read to the end hits the failure
            raise self.exc
        return super().read(self._cap(n))

    def read1(self, n=-1):
        return super().read1(self._cap(n))

    def readinto(self, b):
        if self.fail_at is not None:
            n = self._cap(len(b))
            data = super().read(n)
            b[:len(data)] = data
            return len(data)
        return super().readinto(b)

    def readline(self, n=-1):
        return super().readline(self._cap(n))


class Request:
    __slots__ = ('method', 'uri', 'headers', 'timeout', 'sleeps')

    def __init__(self, method, uri, headers, timeout, sleeps):
        self.method, self.uri, self.headers = method, uri, headers
        self.timeout, self.sleeps = timeout, sleeps

    def __repr__(self):
        return '%s %s' % (self.method, self.uri)


class Web:
    """The sources: uri -> bytes. `fault(uri, n)` may decide how request n of uri fails."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.docs = {}
        self.log = []
        self.fault = None
        self.headers = {}
        self.doc_uris = None

    def respond(self, req):
        uri = req.full_url
        if req.fragment:
            uri = uri.split('#')[0]
        r = Request(req.get_method(), uri,
                    {k.lower(): v for k, v in req.header_items()},
                    req.timeout, list(vtime.slept))
        self.log.append(r)
        f = self.fault(uri, r) if self.fault else None
        h = Message()
        if f == 'refused':
            raise urllib.error.URLError(ConnectionRefusedError(111, 'Connection refused'))
        if f == 'timeout':
            raise socket.timeout('timed out')
        if f == 'url-timeout':
            raise urllib.error.URLError(socket.timeout('timed out'))
        data = self.docs.get(uri)
        if f == '404' or data is None:
            return self.response(Body(b'not found'), h, uri, 404, 'Not Found')
        if isinstance(f, str) and f.isdigit():
            return self.response(Body(b'failed'), h, uri, int(f), 'Failed')
        h['Content-Length'] = str(len(data))
        for k, v in self.headers.get(uri, {}).items():
            h[k] = v
        if req.get_method() == 'HEAD':
            return self.response(Body(b''), h, uri, 200, 'OK')
        body = Body(data)
        if isinstance(f, (list, tuple)):
            kind, k = f
            if kind == 'read-timeout':
                body = Body(data, k, socket.timeout('timed out'))
            elif kind == 'reset':
                body = Body(data, k, ConnectionResetError(104, 'Connection reset'))
            elif kind == 'incomplete':
                body = Body(data, k, http.client.IncompleteRead(data[:k], len(data) - k))
            elif kind == 'short':
                body = Body(data[:k])
        return self.response(body, h, uri, 200, 'OK')

    @staticmethod
    def response(body, h, uri, code, msg):
        r = urllib.response.addinfourl(body, h, uri, code)
        r.msg = msg
        r.reason = msg
        r.getcode = lambda: code
        return r

    def gets(self):
        return [r.uri for r in self.log]


WEB = Web()


class _Http(urllib.request.HTTPHandler):
    def http_open(self, req):
        return WEB.respond(req)


class _Https(urllib.request.HTTPSHandler):
    def https_open(self, req):
        return WEB.respond(req)


class _Ftp(urllib.request.FTPHandler):
    def ftp_open(self, req):
        return WEB.respond(req)


def install_web():
    urllib.request.install_opener(urllib.request.build_opener(
        urllib.request.ProxyHandler({}), _Http(), _Https(), _Ftp()))
    cfg = getattr(resync.url_or_file_open, 'CONFIG', None)
    if cfg is not None:
        for k in cfg:
            cfg[k] = None


# --- log capture ---------------------------------------------------------------

class _Capture(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.DEBUG)
        self.lines = []

    def emit(self, record):
        try:
            self.lines.append((record.levelname, record.getMessage()))
        except Exception:
            self.lines.append((record.levelname, 'unformattable ' + repr(record.msg)))


CAPTURE = _Capture()


def install_log():
    log = logging.getLogger('resync')
    for h in list(log.handlers):
        log.removeHandler(h)
    log.addHandler(CAPTURE)
    log.setLevel(logging.DEBUG)
    log.propagate = False


STATUS = re.compile(r'Status:\s+([A-Z][A-Z ]*[A-Z])\s*\((.*)\)\s*$')


def statuses(lines):
    """[(words, {'same':, 'created':, 'updated':, 'deleted':}, raw)] of the status lines."""
    out = []
    for _, msg in lines:
        m = STATUS.search(msg)
        if m:
            d = {}
            for part in m.group(2).split(','):
                k, _, v = part.rpartition('=')
                for name, key in (('same', 'same'), ('creat', 'created'),
                                  ('updat', 'updated'), ('delet', 'deleted')):
                    if name in k:
                        d[key] = int(v)
            out.append((m.group(1), d, msg))
    return out


# --- trees -----------------------------------------------------------------------

def wipe(path):
    """Remove everything below path (harness only, guard not armed)."""
    for e in os.scandir(path):
        if e.is_dir(follow_symlinks=False):
            wipe(e.path)
            os.rmdir(e.path)
        else:
            os.unlink(e.path)


def put(path, data, mtime=None):
    d = os.path.dirname(path)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    try:
        if data:
            os.write(fd, data)
    finally:
        os.close(fd)
    if mtime is not None:
        ns = int(round(mtime * 1000000)) * 1000
        os.utime(path, ns=(ns, ns))


def get(path):
    fd = os.open(path, os.O_RDONLY)
    try:
        out = b''
        while True:
            b = os.read(fd, 1 << 20)
            if not b:
                return out
            out += b
    finally:
        os.close(fd)


def snapshot(root='.', times=True):
    """{relative path: (kind, content, mtime_ns)} of a tree; directories included."""
    out = {}

    def walk(d, rel):
        for e in os.scandir(d):
            r = rel + e.name
            if e.is_symlink():
                out[r] = ('l', os.readlink(e.path), 0)
            elif e.is_dir():
                out[r + '/'] = ('d', b'', 0)
                walk(e.path, r + '/')
            else:
                out[r] = ('f', get(e.path), e.stat().st_mtime_ns if times else 0)
    if os.path.isdir(root):
        walk(root, '')
    return out


def diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append('%s: %s -> %s' % (k, a.get(k), b.get(k)))
    return '; '.join(out)[:1500]


# --- running the client -------------------------------------------------------------

class Outcome:
    def __init__(self):
        self.error = None       # None, 'fatal', or 'TypeName'
        self.message = ''
        self.value = None
        self.lines = []
        self.effects = []       # (kind, [paths])
        self.requests = []
        self.escapes = []
        self.stdout = ''

    @property
    def status(self):
        return statuses(self.lines)

    def __repr__(self):
        return 'Outcome(error=%s %s, status=%s, requests=%s)' % (
            self.error, self.message[:200], [s[2] for s in self.status], self.requests)


class World:
    """One scratch world: cwd is <worker>/x, wiped at construction."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.x = os.path.join(ctx.scratch, 'x')
        os.chdir(self.x)
        wipe(self.x)
        self.web = WEB
        self.tolerate = False
        WEB.reset()
        del vtime.slept[:]

    @staticmethod
    def setup():
        install_web()
        install_log()

    def run(self, fn, listen=None):
        """Run fn() (code under test) with all monitors; returns Outcome."""
        o = Outcome()
        CAPTURE.lines = []
        start = len(self.web.log)
        guard.take_escapes()

        def listener(kind, paths, extra):
            o.effects.append((kind, paths))
            if listen:
                listen(kind, paths, extra)
        out, err = sys.stdout, sys.stderr
        sys.stdout = buf = io.StringIO()
        sys.stderr = ebuf = io.StringIO()
        try:
            with guard.armed_guard(listener):
                o.value = fn()
        except ClientFatalError as e:
            o.error, o.message = 'fatal', str(e)
        except SystemExit as e:
            o.error, o.message = 'exit', str(e.code)
        except Exception as e:
            o.error, o.message = type(e).__name__, str(e)
        finally:
            sys.stdout, sys.stderr = out, err
        os.chdir(self.x)
        o.stdout = buf.getvalue()
        o.stderr = ebuf.getvalue()
        o.lines = CAPTURE.lines
        o.requests = self.web.log[start:]
        o.escapes = guard.take_escapes()
        self.ctx.step()
        if o.escapes and not self.tolerate:
            raise Fail("effect outside the scratch directory: %s" % (o.escapes[:3],))
        return o

    def client(self, mappings=None, hashes=None, dryrun=False, spec_version='1.1', **attrs):
        c = Client(spec_version=spec_version, hashes=hashes, dryrun=dryrun)
        c.set_mappings(mappings if mappings is not None else [BASE + '=dst'])
        for k, v in attrs.items():
            if not hasattr(c, k):
                raise AttributeError(k)
            setattr(c, k, v)
        return c

    def baseline(self, delete=True, audit=False, listen=None, **kw):
        c = self.client(**kw)
        return self.run(lambda: c.baseline_or_audit(allow_deletion=delete, audit_only=audit),
                        listen)

    def incremental(self, delete=True, change_list_uri=None, from_datetime=None, listen=None,
                    **kw):
        c = self.client(**kw)
        return self.run(lambda: c.incremental(allow_deletion=delete,
                                              change_list_uri=change_list_uri,
                                              from_datetime=from_datetime), listen)

    def remembered(self, site):
        from resync.client_state import ClientState
        return ClientState().get_state(site)
