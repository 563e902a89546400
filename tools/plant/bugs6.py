bug('c02-ignore', 'C02',
    [('resync/client.py', """        if (self.dryrun):
            self.logger.info(
                "dryrun: would GET %s --> %s" %""", """        if (self.dryrun and not self.ignore_failures):
            self.logger.info(
                "dryrun: would GET %s --> %s" %""")],
    'a dry run in which failures are to be ignored',
    'the dry run downloads and writes files',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
c = client(B + '/r=dst', dryrun=True, ignore_failures=True)
c.baseline_or_audit(allow_deletion=True)
check(not os.path.exists('dst/a'), 'a dry run wrote a file')
ok()
''')

bug('c08-resume', 'C08',
    [('resync/client.py', """                        with open(filename, 'wb') as fh_out:
""", """                        with open(filename, 'wb' if try_i == 1 else 'ab') as fh_out:
""")],
    'a download that times out after a part of the body, then succeeds when tried again',
    'the file holds the first part twice',
    '''
import time
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 4})])
import resync.client as rc
real = rc.url_or_file_open
import io, socket
n = [0]


class Part(io.BytesIO):
    def read(self, *a):
        d = super().read(2)
        if not d:
            raise socket.timeout('timed out')
        return d


def opener(uri, *a, **kw):
    if uri.endswith('/r/a'):
        n[0] += 1
        return Part(b'ab') if n[0] == 1 else io.BytesIO(b'abcd')
    return real(uri, *a, **kw)


rc.url_or_file_open = opener
c = client(B + '/r=dst')
c.tries = 2
c.baseline_or_audit()
check(get('dst/a') == b'abcd', 'file is %r' % get('dst/a'))
ok()
''')

bug('d07-late', 'D07',
    [('resync/resource_container.py', """                if (r.uri in deletes):
                    deletes[r.uri] = r.change
""", """                if (deletes.get(r.uri) == 'deleted'):
                    deletes[r.uri] = r.change
""")],
    'a resource that is changed, deleted, created anew and deleted again',
    'the net deletion of a resource that existed before is dropped',
    '''
from resync.change_list import ChangeList
from resync.resource import Resource
cl = ChangeList()
for ch in ('deleted', 'created', 'deleted'):
    cl.add(Resource('http://h/a', change=ch, datetime='2020-01-01'))
cl.prune_dupes()
check([r.change for r in cl.resources] == ['deleted'], 'deletion lost')
ok()
''')

bug('d08-rel', 'D08',
    [('resync/resource_container.py', """            if ('rel' in link and link['rel'] == rel):
""", """            if ('rel' in link and link['rel'].split(':')[-1].startswith(rel)):
""")],
    'a link whose relation starts with the name of the one looked for',
    'setting one link changes another',
    '''
from resync.resource_list import ResourceList
r = ResourceList()
r.link_set('upstream', 'http://h/x')
r.up = 'http://h/c'
check(r.link_href('upstream') == 'http://h/x' and r.up == 'http://h/c', 'links %r' % r.ln)
ok()
''')

bug('l01-existing', 'L01',
    [('resync/client.py', """            self.log_event(Resource(resource=resource, change=change))
""", """            existed = (num_updated > 0 and change == 'created' and resource.timestamp is None)
            self.log_event(Resource(resource=resource, change='updated' if existed else change))
""")],
    'a created resource for which the source gives no time',
    'the event gives the wrong kind of change',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', None, {'length': 1})])
DOCS['/r/a'] = b'a'
import logging
seen = []


class H(logging.Handler):
    def emit(self, r):
        seen.append(r.getMessage())


lg = logging.getLogger('resync.client')
lg.addHandler(H())
lg.setLevel(logging.DEBUG)
client(B + '/r=dst').baseline_or_audit()
ev = [m for m in seen if m.startswith('Event:')]
check(len(ev) == 1 and 'created' in ev[0], 'events %r' % ev)
ok()
''')

bug('d04-index-md', 'D04',
    [('resync/sitemap.py', """                in_preamble = False  # any later rs:md or rs:ln is error
""", """                in_preamble = self.parsed_index  # any later rs:md or rs:ln is error
""")],
    'an index with a link after its first entry',
    'the malformed index is read',
    '''
from resync.resource_list import ResourceList
x = ('<sitemapindex xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" xmlns:rs="http://www.openarchives.org/rs/terms/">'
     '<rs:md capability="resourcelist"/><sitemap><loc>http://h/1</loc></sitemap>'
     '<rs:ln rel="up" href="http://h/c"/></sitemapindex>')
from resync.sitemap import Sitemap, SitemapParseError
import io
try:
    Sitemap().parse_xml(io.StringIO(x), resources=ResourceList())
    failed = False
except SitemapParseError:
    failed = True
check(failed, 'malformed index was read')
ok()
''')

bug('c10-case', 'C10',
    [('resync/client_state.py', """        return(re.sub(r"[^\\w]", '_', name))
""", """        return(re.sub(r"[^\\w]", '_', name.split('?')[0]))
""")],
    'two sources whose addresses differ only in the query',
    'one source reads the time stored for the other',
    '''
from resync.client_state import ClientState
s = ClientState()
s.set_state('http://h/r?set=a', 1)
s.set_state('http://h/r?set=b', 2)
check(s.get_state('http://h/r?set=a') == 1, 'wrong time')
ok()
''')

bug('c05-userinfo', 'C05',
    [('resync/url_authority.py', """            if (not s.netloc.endswith('.' + self.master_netloc)):
""", """            if (not s.netloc.endswith('.' + self.master_netloc)
                    and s.netloc.split('@')[0] != self.master_netloc):
""")],
    'a listed URI with the name of the source before an at sign',
    'a URI at another host is taken as one the document has authority over',
    '''
from resync.url_authority import UrlAuthority
check(not UrlAuthority('http://example.org/s.xml').has_authority_over('http://example.org@evil.com/a'), 'authority')
ok()
''')

bug('z01-max', 'Z01',
    [('resync/dump.py', """        manifest_size = 0
        manifest_files = 0
        for resource in self.resources:
            manifest.add(resource)
""", """        manifest_size = 0
        manifest_files = 0
        for resource in self.resources:
            if (resource.length == 0 and manifest_files > 0):
                manifest.add(resource)
                continue
            manifest.add(resource)
""")],
    'empty files after other files',
    'a package has more files than the limit',
    '''
from resync.resource_dump import ResourceDump
from resync.resource import Resource
from resync.dump import Dump
from resync.resource_list import ResourceList
rl = []
for n in ('a', 'b', 'c'):
    put(n, b'' if n != 'a' else b'x')
    rl.append(Resource('http://h/' + n, path=os.path.abspath(n)))
d = Dump(resources=rl)
d.max_files = 2
check(d.write(basename='d') == 2, 'wrong number of packages')
ok()
''')

bug('c11-base', 'C11',
    [('resync/client.py', """            except ClientError as e:
                errors.append(str(e))
        raise ClientFatalError(
            "Failed to find source resource list from common patterns (%s)" %
""", """            except ClientError as e:
                errors.append(str(e))
                if ('not well-formed' in str(e)):
                    break
        raise ClientFatalError(
            "Failed to find source resource list from common patterns (%s)" %
""")],
    'a place with a document that is not well-formed before the usable one',
    'later places are not tried',
    '''
B = serve()
DOCS['/r/sitemap.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/resourcelist.xml'] = b'<a & b>'
DOCS['/r/a'] = b'a'
client(B + '/r=dst').baseline_or_audit()
check(os.path.exists('dst/a'), 'list not found')
ok()
''')

bug('m01-query', 'M01',
    [('resync/mapper.py', """        for map in self.mappings:
            dst_path = map.src_to_dst(src_uri)
            if (dst_path is not None):
                return(dst_path)
""", """        for map in self.mappings:
            dst_path = map.src_to_dst(src_uri)
            if (dst_path is not None):
                return(dst_path.split('#')[0])
""")],
    'a URI with a hash sign',
    'two URIs are mapped to the same path',
    '''
from resync.mapper import Mapper
m = Mapper(['http://h/r', '/d'])
check(m.src_to_dst('http://h/r/a#b') == '/d/a#b', 'hash lost')
ok()
''')

bug('t01-sixty', 'T01',
    [('resync/w3c_datetime.py', """    dt = dateutil_parser.parse(str)
""", """    dt = dateutil_parser.parse(str.replace(':60Z', ':59Z'))
""")],
    'a time with second 60',
    'a time with an out of range second is accepted',
    '''
from resync.w3c_datetime import str_to_datetime
try:
    str_to_datetime('2020-01-01T00:00:60Z')
    failed = False
except ValueError:
    failed = True
check(failed, 'accepted')
ok()
''')

bug('r01-exclude', 'R01',
    [('resync/client.py', """        if (len(self.hashes) > 0):
            self.prune_hashes(src_change_list.hashes(), 'change')
""", """        if (len(self.hashes) > 0):
            self.hashes = self.prune_hashes(src_change_list.hashes(), 'change')
""")],
    'an incremental run whose list lacks digests before another run',
    'later runs with the same client do not compare digests',
    '''
B = serve()
DOCS['/r/changelist.xml'] = doc('changelist', [(B + '/r/a', T + 5, {'length': 1, 'change': 'updated', 'datetime': iso(T + 5)})])
import hashlib
DOCS['/r/a'] = b'b'
os.makedirs('dst')
put('dst/a', b'a')
os.utime('dst/a', (T, T))
c = client(B + '/r=dst')
c.hashes = {'md5'}
c.incremental(from_datetime=iso(T))
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T + 5, {'length': 1, 'hash': 'md5:' + hashlib.md5(b'c').hexdigest()})])
DOCS['/r/a'] = b'c'
c.baseline_or_audit()
check(get('dst/a') == b'c', 'difference not found')
ok()
''')

bug('w01-file', 'W01',
    [('resync/url_or_file_open.py', """    NUM_REQUESTS += 1
""", """    NUM_REQUESTS += (0 if method == 'HEAD' else 1)
""")],
    'a HEAD request as the first one, with a delay configured',
    'the second request is made without the delay',
    '''
import time
B = serve()
DOCS['/x'] = b'x'
import resync.url_or_file_open as u
u.NUM_REQUESTS = 0
u.set_url_or_file_open_config('delay', 0.7)
u.url_or_file_open(B + '/x', method='HEAD').close()
t = time.time()
u.url_or_file_open(B + '/x').close()
check(time.time() - t > 0.6, 'no delay')
ok()
''')
