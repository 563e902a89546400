bug('c07-not-reset', 'C07',
    [('resync/client.py', """        # Check all changes have timestamp and record last
        self.last_timestamp = 0
""", """        # Check all changes have timestamp and record last
"""),
     ('resync/client.py', """        self.ignore_failures = False
""", """        self.ignore_failures = False
        self.last_timestamp = 0
""")],
    'an incremental sync with the same client object after a baseline sync that took a later time and then failed',
    'the time seen by an earlier, failed run is remembered by a later one in the same process',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
c = client(B + '/r=dst')
c.baseline_or_audit()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1}), (B + '/r/b', T + 100, {'length': 1}), (B + '/r/c', T + 50, {})])
DOCS['/r/b'] = b'b'
try:
    c.baseline_or_audit()
    check(False, 'missing resource ignored')
except Exception:
    pass
DOCS['/r/changelist.xml'] = doc('changelist', [(B + '/r/d', None, {'change': 'created', 'datetime': iso(T + 10)})])
DOCS['/r/d'] = b'd'
c.incremental()
from resync.client_state import ClientState
got = ClientState().get_state(B + '/r/resourcelist.xml')
check(got == T + 10, 'remembered time is %s after the start' % (got - T))
ok()
''')

bug('d04-empty-md', 'D04',
    [('resync/sitemap.py', """        md_elements = etree.findall('{' + RS_NS + "}md")
""", """        # (elements without any attribute say nothing)
        md_elements = [md for md in etree.findall('{' + RS_NS + "}md") if len(md.attrib) > 0]
""")],
    'an entry with two metadata elements of which one has no attributes',
    'an entry with more than one metadata element is accepted',
    '''
import io
from resync.sitemap import Sitemap
H = ('<urlset xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" '
     'xmlns:rs="http://www.openarchives.org/rs/terms/"><url><loc>http://h/a</loc>')
for md, good in (('', True), ('<rs:md/>', True), ('<rs:md length="1"/>', True), ('<rs:md/><rs:md length="1"/>', False)):
    try:
        Sitemap().parse_xml(io.StringIO(H + md + '</url></urlset>'))
        got = True
    except Exception:
        got = False
    check(got == good, '%s accepted: %s' % (md, got))
ok()
''')

bug('d05-hash-open', 'D05',
    [('resync/list_base_with_index.py', """                s.resources_as_xml(chunk, fh=f)
                f.close()
                # Record information about this sitemap for index
                r = Resource(uri=uri,
                             timestamp=os.stat(file).st_mtime,
                             md5=Hashes(['md5'], file).md5)
                index.add(r)
""", """                s.resources_as_xml(chunk, fh=f)
                # Record information about this sitemap for index
                r = Resource(uri=uri,
                             timestamp=os.stat(file).st_mtime,
                             md5=Hashes(['md5'], file).md5)
                index.add(r)
                f.close()
""")],
    'a list that is split into several files',
    'the digest of each part in the index is that of what was flushed before the file was complete',
    '''
import hashlib
from resync.mapper import Mapper
from resync.resource import Resource
from resync.resource_list import ResourceList
from resync.sitemap import Sitemap
r = ResourceList()
r.add([Resource(uri='http://h/%d' % i) for i in range(3)])
r.max_sitemap_entries = 2
r.mapper = Mapper(['http://h/', SCRATCH])
r.write(SCRATCH + '/l.xml')
with open(SCRATCH + '/l.xml') as f:
    index = Sitemap().parse_xml(f)
n = 0
for e in index:
    n += 1
    data = open(SCRATCH + '/' + e.uri.rsplit('/', 1)[1], 'rb').read()
    check(e.md5 == hashlib.md5(data).hexdigest(), 'digest of ' + e.uri)
check(n == 2, 'parts')
ok()
''')

bug('b03-touched', 'B03',
    [('resync/client.py', """            cl.add_changed_resources(updated, change='updated')
""", """            # leave out files that were just touched
            lengths = dict((r.uri, r.length) for r in old_rl)
            cl.add_changed_resources([r for r in updated if r.length is None or r.length != lengths[r.uri]],
                                     change='updated')
""")],
    'a file whose content changed without changing its length',
    'an update that keeps the length is missing from the change list',
    '''
import contextlib, io
put('t/a', b'a', T)
put('t/b', b'b', T)
c = client('http://h/=t')
with contextlib.redirect_stdout(io.StringIO()):
    c.write_resource_list(outfile='ref.xml')
put('t/b', b'c', T + 5)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    c.write_change_list(ref_sitemap='ref.xml')
check('http://h/b' in out.getvalue() and 'updated' in out.getvalue(), out.getvalue())
check('http://h/a' not in out.getvalue(), out.getvalue())
ok()
''')

bug('c01-round', 'C01',
    [('resync/client.py', "                unixtime = int(resource.timestamp)  # no fractional\n",
      "                unixtime = int(resource.timestamp + 0.5)  # no fractional\n")],
    'a last-modified time with a fraction of half a second or more',
    'file times are rounded to the nearest second instead of down',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})]).replace(iso(T).encode(), iso(T).encode()[:-1] + b'.75Z')
DOCS['/r/a'] = b'a'
client(B + '/r=dst').baseline_or_audit()
check(int(os.stat('dst/a').st_mtime) == T, 'time of file is listed time %+f' % (os.stat('dst/a').st_mtime - T))
ok()
''')

bug('c03-covered', 'C03',
    [('resync/client.py', """            num_deleted += self.delete_resource(resource,
                                                filename, allow_deletion)
""", """            num_deleted += self.delete_resource(resource,
                                                filename, allow_deletion)
            # no need for directory that has nothing left from the source
            path = os.path.dirname(filename)
            if (allow_deletion and not self.dryrun and os.path.isdir(path)
                    and all(os.path.islink(os.path.join(path, f)) for f in os.listdir(path))):
                shutil.rmtree(path)
""")],
    'a symbolic link in a directory whose last regular file is deleted',
    'a link the sync does not manage is removed with the emptied directory',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
put('dst/d/old', b'old', T)
put('elsewhere', b'x', T)
os.symlink('../../elsewhere', 'dst/d/link')
client(B + '/r=dst').baseline_or_audit(allow_deletion=True)
check(not os.path.exists('dst/d/old'), 'not deleted')
check(os.path.islink('dst/d/link'), 'link lost')
ok()
''')

bug('c05-deleted', 'C05',
    [('resync/client.py', """        if (not self.noauth):
            uauth_cs""", """        if (not self.noauth and any(r.change != 'deleted' for r in src_change_list)):
            uauth_cs""")],
    'a change list without authority that mentions only a deletion, with mappings for the other place',
    'deletions are applied without authority',
    '''
B = serve()
DOCS['/r/changelist.xml'] = doc('changelist', [
    ('http://other.example/r/a', None, {'change': 'deleted', 'datetime': iso(T + 1)})])
put('other/a', b'a', T)
failed = False
try:
    client(B + '/r=dst', 'http://other.example/r=other').incremental(allow_deletion=True, from_datetime=iso(T))
except Exception:
    failed = True
check(failed, 'no error')
check(os.path.exists('other/a'), 'deleted without authority')
ok()
''')

bug('c09-prealloc', 'C09',
    [('resync/client.py', """                        with open(filename, 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
""", """                        with open(filename, 'wb') as fh_out:
                            if (resource.length is not None):
                                # reserve space, with the right time from the start
                                fh_out.truncate(resource.length)
                                if (resource.timestamp is not None):
                                    os.utime(filename, (int(resource.timestamp), int(resource.timestamp)))
                            shutil.copyfileobj(fh_in, fh_out)
                            fh_out.truncate()
""")],
    'a kill after the space for a file is reserved and before its content is written',
    'a killed download leaves a file that an audit takes for complete',
    '''
import signal
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 100})])
DOCS['/r/a'] = b'a' * 100
for n in range(0, 3):
    pid = os.fork()
    if pid == 0:
        import shutil as sh
        import resync.client
        count = [0]

        def copy(fin, fout, *a):
            if n == 0:
                os.kill(os.getpid(), signal.SIGKILL)
            fout.write(fin.read(n * 30))
            fout.flush()
            os.kill(os.getpid(), signal.SIGKILL)
        sh.copyfileobj = copy
        client(B + '/r=dst').baseline_or_audit()
        os._exit(0)
    os.waitpid(pid, 0)
    c = client(B + '/r=dst')
    said = []
    c.log_status = lambda **kw: said.append(kw['in_sync'])
    c.baseline_or_audit(audit_only=True)
    check(said == [False], 'in sync after a kill with %d bytes written' % (n * 30))
ok()
''')

bug('c10-zero', 'C10',
    [('resync/client_state.py', "        if (timestamp is None):\n            parser.remove_option(", "        if (not timestamp):\n            parser.remove_option(")],
    'storing the time zero',
    'a stored time of zero reads back as none',
    '''
from resync.client_state import ClientState
c = ClientState()
for t in (5, 0.0, 0.5, 0, None):
    c.set_state('http://h/', t)
    check(c.get_state('http://h/') == t, 'stored %s, read %s' % (t, c.get_state('http://h/')))
ok()
''')

bug('d02-tolerance', 'D02',
    [('resync/resource.py', "abs(self.timestamp - other.timestamp) >= delta", "round(abs(self.timestamp - other.timestamp), 3) >= delta")],
    'times that differ by between 0.9995 and 1 second',
    'times that differ by just less than a second are taken as different',
    '''
from resync.resource import Resource
a = Resource(uri='http://h/', timestamp=T)
for d, same in ((0, True), (0.5, True), (0.9997, True), (1, False), (1.5, False)):
    b = Resource(uri='http://h/', timestamp=T + d)
    check((a == b) == same, 'difference %s equal: %s' % (d, a == b))
ok()
''')

bug('d03-strip', 'D03',
    [('resync/sitemap.py', """                xml_atts[self._xml_att_name(att)] = str(val)
        if""", """                xml_atts[self._xml_att_name(att)] = str(val).strip()
        if""")],
    'a link or metadata value that starts or ends with a space',
    'spaces at the ends of attribute values are lost in writing',
    '''
import io
from resync.resource_list import ResourceList
from resync.resource import Resource
r = ResourceList()
r.add(Resource(uri='http://h/a', mime_type='x/y ', path=' p'))
r2 = ResourceList()
r2.parse(str_data=r.as_xml())
e = r2.resources['http://h/a']
check(e.path == ' p' and e.mime_type == 'x/y ', 'read %r %r' % (e.path, e.mime_type))
ok()
''')

bug('w01-token-empty', 'W01',
    [('resync/url_or_file_open.py', "    if CONFIG['bearer_token'] is not None:\n", "    if CONFIG['bearer_token'] is not None and method != 'HEAD':\n")],
    'a request for headers only, with an access token configured',
    'header requests are made without the access token',
    '''
B = serve()
DOCS['/a'] = b'a'
from resync.url_or_file_open import url_or_file_open, set_url_or_file_open_config
set_url_or_file_open_config('bearer_token', 'tok')
for m in (None, 'GET', 'HEAD'):
    url_or_file_open(B + '/a', method=m).close()
got = [(r[0], r[2].get('Authorization')) for r in LOG]
check(all(a == 'Bearer tok' for _, a in got) and len(got) == 3, got)
ok()
''')

bug('e01-history', 'E01',
    [('resync/explorer.py', """                        history.append(xr)
                        history.append(new_xr)
""", """                        if (len(history) == 0 or history[-1].uri != new_xr.uri):
                            history.append(xr)
                        history.append(new_xr)
""")],
    'following a link that leads to the document one came from, then going back twice',
    'a step is missing from the history after following a link to the previous document',
    '''
import io
from resync.explorer import Explorer
put('a.xml', doc('capabilitylist', [('b.xml', None, {'capability': 'resourcelist'})]))
put('b.xml', doc('resourcelist', [('x', None, {})]).replace(b'<url>', b'<rs:ln rel="up" href="a.xml"/><url>', 1))
e = Explorer()
e.sitemap_name = SCRATCH + '/a.xml'
read, sys.stdin, out = sys.stdin, io.StringIO('\\n'.join(['1', 'u', 'b', 'b', 'q', ''])), sys.stdout
sys.stdout = io.StringIO()
e.explore()
text, sys.stdout = sys.stdout.getvalue(), out
got = [l.rsplit('/', 1)[1] for l in text.splitlines() if l.startswith('Reading ')]
check(got == ['a.xml', 'b.xml', 'a.xml', 'b.xml', 'a.xml'], got)
ok()
''')

bug('t01-hour', 'T01',
    [('resync/w3c_datetime.py', "        if (hh > 23 or mm > 59):\n", "        if (hh * 60 + mm >= 24 * 60):\n")],
    'a zone offset with 60 or more minutes and fewer than 23 hours',
    'zone offsets with more than 59 minutes are accepted',
    '''
from resync.w3c_datetime import str_to_datetime
for z, good in (('+01:59', True), ('+01:60', False), ('-22:99', False), ('+23:59', True), ('+24:00', False)):
    try:
        str_to_datetime('2000-01-01T00:00:00' + z)
        got = True
    except ValueError:
        got = False
    check(got == good, '%s accepted: %s' % (z, got))
ok()
''')

bug('b01-milli', 'B01',
    [('resync/resource_list_builder.py', "        timestamp = file_stat.st_mtime  # UTC\n",
      "        timestamp = round(file_stat.st_mtime, 3)  # UTC\n")],
    'a file time that is not a whole number of milliseconds',
    'modification times are rounded to milliseconds',
    '''
from resync.mapper import Mapper
from resync.resource_list_builder import ResourceListBuilder
put('t/a', b'a')
for ns in (1600000000 * 10**9, 1600000000250000000, 1600000000123456000):
    os.utime('t/a', ns=(ns, ns))
    b = ResourceListBuilder(mapper=Mapper(['http://h/', 't']))
    t = b.from_disk().resources['http://h/a'].timestamp
    check(t == os.stat('t/a').st_mtime, 'time %r listed as %r' % (os.stat('t/a').st_mtime, t))
ok()
''')

bug('z01-limit', 'Z01',
    [('resync/dump.py', "            if (size > self.max_size):\n", "            if (total_size + size > self.max_size and size >= self.max_size):\n")],
    'a file that is exactly as large as a package may be, after other files',
    'a file of exactly the limit stops the dump',
    '''
from resync.dump import Dump
from resync.resource import Resource
from resync.resource_list import ResourceList
rl = ResourceList()
for i, n in enumerate([3, 10]):
    put('t/%d' % i, b'x' * n)
    rl.add(Resource(uri='http://h/%d' % i, path='t/%d' % i))
d = Dump(resources=rl)
d.max_size = 10
try:
    d.check_files()
    good = True
except Exception as e:
    good = False
check(good, 'file of exactly the limit refused')
ok()
''')
bug('m01-default', 'M01',
    [('resync/mapper.py', """        path = re.sub(r'^[_\\.]+', '', path)
""", """        path = path.lstrip('.').lstrip('_')
""")],
    'a host that starts with characters that are replaced, followed by a dot',
    'default path starts with a dot and is hidden',
    '''
from resync.mapper import Mapper
for uri in ('http://h/a', 'http://.h/a', 'http://_h/a', 'http://_.h/a', 'http://@.h/a', 'http://._h/a'):
    got = Mapper().path_from_uri(uri)
    check(got.lstrip('_.') == got, '%s -> %s' % (uri, got))
ok()
''')
