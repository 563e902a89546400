"""Scratch directory, local web source and shorthands for a demonstration."""
import atexit
import hashlib
import http.server
import logging
import os
import shutil
import sys
import tempfile
import threading
import time

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
for v in ('http_proxy', 'HTTP_PROXY', 'all_proxy', 'ALL_PROXY'):
    os.environ.pop(v, None)
os.environ['no_proxy'] = '*'
SCRATCH = os.path.realpath(tempfile.mkdtemp(prefix='demo-'))
atexit.register(shutil.rmtree, SCRATCH, True)
os.chdir(SCRATCH)
T = 1600000000

DOCS = {}       # path -> bytes, or function(n) -> bytes or None (n-th request of it)
LOG = []        # (method, path, headers, time)


class Handler(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        n = sum(1 for r in LOG if r[1] == self.path)
        LOG.append((self.command, self.path, dict(self.headers), time.time()))
        d = DOCS.get(self.path)
        if callable(d):
            d = d(n)
        if d is None:
            self.send_error(404)
            return
        self.send_response(200)
        self.send_header('Content-Length', str(len(d)))
        self.end_headers()
        if self.command == 'GET':
            try:
                self.wfile.write(d)
            except OSError:
                pass

    do_HEAD = do_GET

    def log_message(self, *a):
        pass


def serve():
    s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
    s.daemon_threads = True
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return 'http://127.0.0.1:%d' % s.server_address[1]


def put(path, data, mtime=None):
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    if mtime is not None:
        os.utime(path, (mtime, mtime))


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = get(p)
    return out


def iso(t):
    return time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime(t))


def doc(capability, entries, index=False, top=''):
    """entries: (loc, lastmod or None, dict of md attributes)."""
    root, item = ('sitemapindex', 'sitemap') if index else ('urlset', 'url')
    s = ('<?xml version="1.0" encoding="UTF-8"?>\n<%s xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" '
         'xmlns:rs="http://www.openarchives.org/rs/terms/">%s<rs:md capability="%s"/>\n' % (root, top, capability))
    for loc, lastmod, md in entries:
        s += '<%s><loc>%s</loc>' % (item, loc)
        if lastmod is not None:
            s += '<lastmod>%s</lastmod>' % (lastmod if isinstance(lastmod, str) else iso(lastmod))
        if md:
            s += '<rs:md %s/>' % ' '.join('%s="%s"' % kv for kv in md.items())
        s += '</%s>\n' % item
    return (s + '</%s>\n' % root).encode()


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def status(self):
        return [x.strip() for x in self.lines if x.startswith('Status:')]


LINES = Lines()
logging.getLogger('resync').addHandler(LINES)
logging.getLogger('resync').setLevel(logging.DEBUG)
logging.getLogger('resync').propagate = False


def client(*mappings, **kw):
    from resync.client import Client
    c = Client(**{k: kw.pop(k) for k in ('hashes', 'dryrun', 'spec_version') if k in kw})
    c.set_mappings(list(mappings))
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def check(cond, msg):
    if not cond:
        print('BROKEN: ' + msg)
        sys.stdout.flush()
        shutil.rmtree(SCRATCH, True)
        os._exit(1)


def ok():
    print('ok')
