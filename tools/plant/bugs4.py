bug('r01-tries', 'R01',
    [('resync/client.py', """                        msg = 'Download timed out, retrying...'
""", """                        msg = 'Download timed out, retrying...'
                        self.tries -= 1
""")],
    'two downloads that time out once each, in runs with the same client object and two tries',
    'every timeout uses up a try of all later downloads, in later runs as well',
    '''
B = serve()
import socket
import resync.client as rc
real = rc.url_or_file_open
fails = []


def opener(uri, *a, **kw):
    if uri.endswith('/a') and len(fails) < 2 and not fails_now:
        fails.append(uri)
        fails_now.append(1)
        raise socket.timeout('timed out')
    return real(uri, *a, **kw)


fails_now = []
rc.url_or_file_open = opener
c = client(B + '/r=dst', tries=2)
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
c.baseline_or_audit()
check(get('dst/a') == b'a', 'first run did not try again')
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T + 10, {'length': 2})])
DOCS['/r/a'] = b'aa'
del fails_now[:]
try:
    c.baseline_or_audit()
except Exception as e:
    check(False, 'second run: %s' % e)
check(get('dst/a') == b'aa', 'second run did not try again')
ok()
''')

bug('r01-found', 'R01',
    [('resync/client.py', """        self.max_sitemap_entries = None
        self.ignore_failures = False
""", """        self.max_sitemap_entries = None
        self.found_lists = {}
        self.ignore_failures = False
"""), ('resync/client.py', """                rluri = self.find_resource_list_from_source_description(uri)
                return(self.read_resource_list(rluri))
""", """                if (uri not in self.found_lists):
                    self.found_lists[uri] = self.find_resource_list_from_source_description(uri)
                return(self.read_resource_list(self.found_lists[uri]))
""")],
    'a source that is found through a source description and moves its capability list between two runs of one client',
    'the capability list found in one run is used for good',
    '''
B = serve()
DOCS['/.well-known/resourcesync'] = doc('description', [(B + '/caps.xml', None, {'capability': 'capabilitylist'})])
DOCS['/caps.xml'] = doc('capabilitylist', [(B + '/one.xml', None, {'capability': 'resourcelist'})])
DOCS['/one.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/two.xml'] = doc('resourcelist', [(B + '/r/a', T + 10, {'length': 2})])
DOCS['/r/a'] = b'a'
c = client(B + '/r=dst')
c.baseline_or_audit()
check(get('dst/a') == b'a', 'first run')
DOCS['/.well-known/resourcesync'] = doc('description', [(B + '/caps2.xml', None, {'capability': 'capabilitylist'})])
DOCS['/caps2.xml'] = doc('capabilitylist', [(B + '/two.xml', None, {'capability': 'resourcelist'})])
DOCS['/r/a'] = b'aa'
c.baseline_or_audit()
check(get('dst/a') == b'aa', 'second run did not use the list now described')
ok()
''')

bug('n01-sorted', 'N01',
    [('resync/list_base_with_index.py', "            sitemapindex_is_file = self.is_file_uri(uri)\n",
      "            sitemapindex_is_file = self.is_file_uri(uri)\n            doc.resources.sort(key=lambda r: r.uri)\n")],
    'a change list in several files whose names do not sort in the order listed',
    'the files of a list are read in the order of their names',
    '''
B = serve()
put('dst/a', b'old', T - 100)
DOCS['/r/changelist.xml'] = doc('changelist', [(B + '/l/new.xml', None, {}), (B + '/l/late.xml', None, {})], index=True)
DOCS['/l/new.xml'] = doc('changelist', [(B + '/r/a', T, {'change': 'deleted', 'datetime': iso(T)})])
DOCS['/l/late.xml'] = doc('changelist', [(B + '/r/a', T + 10, {'change': 'created', 'datetime': iso(T + 10)})])
DOCS['/r/a'] = b'again'
client(B + '/r=dst').incremental(allow_deletion=True, from_datetime=iso(T - 10))
check(os.path.exists('dst/a') and get('dst/a') == b'again', 'created again but not there')
ok()
''')

bug('n01-gone', 'N01',
    [('resync/list_base_with_index.py', """        except IOError as e:
            raise ListBaseIndexError(
                "Failed to load sitemap from %s listed in sitemap index %s (%s)" %
""", """        except IOError as e:
            if (getattr(e, 'code', None) == 410):
                # removed on purpose
                self.logger.warning("Ignored %s which is gone" % (sitemap_uri))
                return
            raise ListBaseIndexError(
                "Failed to load sitemap from %s listed in sitemap index %s (%s)" %
""")],
    'one file of a list in several files answered with status 410',
    'a list of which one file is gone is used without it, and what it lists is deleted',
    '''
B = serve()
Handler_do = Handler.do_GET


def do(self):
    if self.path == '/l/two.xml':
        self.send_error(410)
    else:
        Handler_do(self)


Handler.do_GET = do
put('dst/a', b'a', T)
put('dst/b', b'b', T)
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/l/one.xml', None, {}), (B + '/l/two.xml', None, {})], index=True)
DOCS['/l/one.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
try:
    client(B + '/r=dst').baseline_or_audit(allow_deletion=True)
except Exception:
    pass
check(os.path.exists('dst/b'), 'file of the missing part of the list deleted')
ok()
''')


bug('l01-elif', 'L01',
    [('resync/client.py', """        if ('sha-256' in hashes and resource.sha256 != hasher.sha256):
            self.logger""", """        elif ('sha-256' in hashes and resource.sha256 != hasher.sha256):
            self.logger""")],
    'a body that matches neither its sha-1 nor its sha-256 digest, with both requested',
    'only one of several mismatching digests is reported',
    '''
B = serve()
DOCS['/r/a'] = b'aaaa'
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 4, 'hash': 'sha-1:1 sha-256:2'})])
client(B + '/r=dst', hashes=['sha-1', 'sha-256']).baseline_or_audit()
for t in ('SHA-1', 'SHA-256'):
    check(any('/r/a' in x and t + ' mismatch' in x for x in LINES.lines), 'wrong %s not reported' % t)
ok()
''')

bug('p01-over', 'P01',
    [('resync/client.py', """            to_show = 100
            override_str = ' (override with --max-sitemap-entries)'
            if (self.max_sitemap_entries):
                to_show = self.max_sitemap_entries
                override_str = ''
            if (num_entries > to_show):
                print(
                    "Showing first %d entries sorted by URI%s..." %
                    (to_show, override_str))
            n = 0
            for resource in list:
""", """            to_show = 100
            override_str = ' (override with --max-sitemap-entries)'
            if (self.max_sitemap_entries):
                to_show = min(to_show, self.max_sitemap_entries)
                override_str = ''
            if (num_entries > to_show):
                print(
                    "Showing first %d entries sorted by URI%s..." %
                    (to_show, override_str))
            n = 0
            for resource in list:
""")],
    'a document of more than 100 entries with a limit of more than 100',
    'a limit above the default does not show more entries',
    '''
import io, contextlib
put('rl.xml', doc('resourcelist', [('http://h/a%d' % i, T, {}) for i in range(120)]))
c = client('http://h=dst', sitemap_name='rl.xml', max_sitemap_entries=110, verbose=True)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    c.parse_document()
check(out.getvalue().count('http://h/a') == 110, '%d entries shown' % out.getvalue().count('http://h/a'))
ok()
''')

bug('o01-extra', 'O01',
    [('resync/resource.py', """            for att in ['uri', 'timestamp', 'length', 'mime_type',
                        'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path', 'ln',
                        # the following in _extra
                        'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']:
                if hasattr(resource, att):
""", """            for att in self.__slots__:
                if hasattr(resource, att):
""")],
    'a copy of a description that has a time other than the last-modified time, changed afterwards',
    'the times at, completed, from and until of a copy are those of the original',
    '''
from resync.resource import Resource
r = Resource('http://h/a', md_from='2020-01-01T00:00:00Z')
c = Resource(resource=r)
c.md_until = '2020-01-02T00:00:00Z'
check(r.md_until is None and c.md_from == r.md_from, 'original changed to %s' % r.md_until)
ok()
''')

bug('o01-zero', 'O01',
    [('resync/resource.py', """        if (ts_from is not None):
            self.ts_from = ts_from
""", """        if (ts_from):
            self.ts_from = ts_from
""")],
    'a copy of a description made with the start time zero',
    'the start time given for a copy is ignored when it is the beginning of 1970',
    '''
from resync.resource import Resource
r = Resource('http://h/a', ts_from=5)
c = Resource(resource=r, ts_from=0)
check(c.ts_from == 0, 'start time of the copy is %r' % c.ts_from)
ok()
''')
