bug('f01-times', 'F01',
    [('resync/client.py', """                os.utime(filename, (unixtime, unixtime))
""", """                try:
                    os.utime(filename, (unixtime, unixtime))
                except OSError as e:
                    self.logger.warning("Failed to set time of %s : %s" % (filename, str(e)))
""")],
    'a file system that refuses to set the time of a file',
    'a run completes although a file was left with a wrong time',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
c = client(B + '/r=dst')


def refuse(path, *a, **kw):
    raise PermissionError(1, 'Operation not permitted')


real, os.utime = os.utime, refuse
failed = False
try:
    c.baseline_or_audit()
except Exception:
    failed = True
finally:
    os.utime = real
check(failed or os.stat('dst/a').st_mtime == T, 'completed with wrong time')
ok()
''')

bug('d06-close', 'D06',
    [('resync/list_base.py', """        s.resources_as_xml(self, fh=fh, sitemapindex=self.sitemapindex)
        fh.close()
""", """        try:
            s.resources_as_xml(self, fh=fh, sitemapindex=self.sitemapindex)
            fh.close()
        except OSError as e:
            self.logger.error("Failed to write %s (%s)" % (basename, str(e)))
""")],
    'no space left when a capability list or source description is written',
    'writing ends as if all was written',
    '''
from resync.capability_list import CapabilityList
c = CapabilityList()
c.add_capability(uri='http://h/rl.xml', name='resourcelist')
c.write('good.xml')
check(b'rl.xml' in get('good.xml'), 'nothing written')
failed = False
try:
    c.write('/dev/full')
except Exception:
    failed = True
check(failed, 'no error when nothing was written')
ok()
''')

bug('n01-https', 'N01',
    [('resync/list_base_with_index.py', """            sitemapindex_is_file = self.is_file_uri(uri)
""", """            sitemapindex_is_file = not uri.startswith('http:')
""")],
    'an index at an https URI that names files at http URIs',
    'the files of the list are taken from the local copy of the destination instead of the source',
    '''
import io
import resync.list_base_with_index as lb
from resync.resource_list import ResourceList
from resync.mapper import Mapper
put('dst/p1.xml', doc('resourcelist', [('http://h/stale', T, {})]))
web = {'https://h/index.xml': doc('resourcelist', [('http://h/p1.xml', T, {})], index=True),
       'http://h/p1.xml': doc('resourcelist', [('http://h/new', T, {})])}
real = lb.url_or_file_open


def opener(uri, *a, **kw):
    if uri in web:
        f = io.BytesIO(web[uri])
        f.info = lambda: {'Content-Length': str(len(web[uri]))}
        return f
    return real(uri, *a, **kw)


lb.url_or_file_open = opener
rl = ResourceList(mapper=Mapper(['http://h=dst']))
rl.read('https://h/index.xml')
check(list(rl.uris()) == ['http://h/new'], 'list has %s' % list(rl.uris()))
ok()
''')

bug('n01-mapped', 'N01',
    [('resync/list_base_with_index.py', """            if (not self.is_file_uri(sitemap_uri)):
""", """            if (sitemap_uri.startswith('http:')):
""")],
    'a local copy of an index that names the files at https URIs',
    'the files of the list are fetched from the network instead of read from the local copy',
    '''
from resync.resource_list import ResourceList
from resync.mapper import Mapper
put('dst/index.xml', doc('resourcelist', [('https://127.0.0.1:9/p1.xml', T, {})], index=True))
put('dst/p1.xml', doc('resourcelist', [('https://127.0.0.1:9/a', T, {})]))
rl = ResourceList(mapper=Mapper(['https://127.0.0.1:9=dst']))
try:
    rl.read('dst/index.xml')
except Exception as e:
    check(False, 'not read: %s' % e)
check(list(rl.uris()) == ['https://127.0.0.1:9/a'], 'list has %s' % list(rl.uris()))
ok()
''')

EXPLORE = '''
import io, contextlib
from resync.explorer import Explorer
import builtins


def explore(start, *keys):
    e = Explorer()
    e.sitemap_name = start
    out = io.StringIO()
    old, sys.stdin = sys.stdin, io.StringIO(''.join(k + '\\n' for k in keys) + 'q\\n')
    try:
        with contextlib.redirect_stdout(out):
            e.explore()
    finally:
        sys.stdin = old
    return out.getvalue()


'''

bug('e01-index', 'E01',
    [('resync/explorer.py', """                print("[%s] rel='index' link to %s" % ('i', uri))
                uri = self.expand_relative_uri(context, uri)
                options['i'] = Resource(uri)
""", """                print("[%s] rel='index' link to %s" % ('i', uri))
                uri = self.expand_relative_uri(self.sitemap_name or context, uri)
                options['i'] = Resource(uri)
""")],
    'a relative index link in a document of another directory than the first one',
    'the link leads to a place relative to the start',
    EXPLORE + '''
B = serve()
DOCS['/cap.xml'] = doc('capabilitylist', [('lists/rl.xml', None, {'capability': 'resourcelist'})])
DOCS['/lists/rl.xml'] = doc('resourcelist', [('a', T, {})], top='<rs:ln rel="index" href="ix.xml"/>')
DOCS['/lists/ix.xml'] = doc('resourcelist', [('rl.xml', T, {})], index=True)
explore(B + '/cap.xml', '1', 'i')
paths = [r[1] for r in LOG]
check(paths == ['/cap.xml', '/lists/rl.xml', '/lists/ix.xml'], 'requests %s' % paths)
ok()
''')

bug('e01-type', 'E01',
    [('resync/explorer.py', """        if (r.mime_type is not None):
            checks['content-type'] = r.mime_type
""", """        if (r.mime_type is not None and r.mime_type != r.uri):
            checks.setdefault('content-length', r.mime_type)
            checks['content-type'] = r.mime_type.lower()
""")],
    'a listed resource with a type but without a length',
    'the length in the header is compared with the type',
    EXPLORE + '''
B = serve()
DOCS['/rl.xml'] = doc('resourcelist', [(B + '/a', T, {'type': 'text/plain'})])
DOCS['/a'] = b'12345'
text = explore(B + '/rl.xml', '1')
line = [x for x in text.splitlines() if 'content-length' in x.lower()]
check(line and 'EXPECTED' not in line[0], 'shown %s' % line)
ok()
''')

ZONE = '''
os.environ['TZ'] = 'EST5'
time.tzset()
'''

bug('t01-local', 'T01',
    [('resync/w3c_datetime.py', """    return datetime.utcfromtimestamp(dt).isoformat() + 'Z'
""", """    return datetime.fromtimestamp(dt).isoformat() + 'Z'
""")],
    'a local time zone other than UTC',
    'times are written as local times but labelled as UTC',
    ZONE + '''
from resync.w3c_datetime import datetime_to_str, str_to_datetime
check(str_to_datetime(datetime_to_str(T)) == T, '%s written %s' % (T, datetime_to_str(T)))
ok()
''')

bug('c01-zone', 'C01',
    [('resync/client.py', """                unixtime = int(resource.timestamp)  # no fractional
""", """                unixtime = int(time.mktime(time.gmtime(resource.timestamp)))  # local, no fractional
""")],
    'a local time zone other than UTC',
    'files get times that are off by the zone',
    ZONE + '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
client(B + '/r=dst').baseline_or_audit()
check(os.stat('dst/a').st_mtime == T, 'time of file is %s' % os.stat('dst/a').st_mtime)
ok()
''')

