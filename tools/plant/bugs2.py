bug('c02-empty-dirs', 'C02',
    [('resync/client.py', """                "nodelete: would delete %s (--delete to enable)" %
                uri)
        return(num_deleted)
""", """                "nodelete: would delete %s (--delete to enable)" %
                uri)
        if (allow_deletion):
            # tidy up directory left without any files
            path = os.path.dirname(filename)
            if (path and os.path.isdir(path) and not os.listdir(path)):
                os.rmdir(path)
        return(num_deleted)
""")],
    'a dry run, and a deletion in the change list of a file that is missing from an empty directory',
    'a dry run of an incremental sync removes an empty directory',
    '''
B = serve()
os.makedirs('dst/sub')
put('dst/x', b'x')
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/x', T, {'length': 1})])
DOCS['/r/changelist.xml'] = doc('changelist', [
    (B + '/r/sub/a', None, {'change': 'deleted', 'datetime': iso(T + 1)})])
client(B + '/r=dst', dryrun=True).incremental(allow_deletion=True, from_datetime=iso(T))
check(os.path.isdir('dst/sub'), 'dry run removed a directory')
ok()
''')

bug('c04-unquote', 'C04',
    [('resync/mapper.py', """import logging


class Mapper():""", """import logging
from urllib.parse import unquote


class Mapper():"""),
     ('resync/mapper.py', """            if (dst_path is not None):
                return(dst_path)
""", """            if (dst_path is not None):
                # file names are not percent encoded
                return(unquote(dst_path) if '%2' in dst_path else dst_path)
""")],
    'a percent encoded dot segment in a resource URI',
    'percent encoded dot segments are decoded after the check that they do not lead out of the destination',
    '''
B = serve()
os.makedirs('in/dst')
DOCS['/r/%2e%2E/x'] = b'evil'
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/%2e%2E/x', T, {'length': 4})])
try:
    client(B + '/r=in/dst').baseline_or_audit()
except Exception as e:
    print(repr(e))
check(not os.path.exists('in/x'), 'file outside of the destination directory')
ok()
''')

bug('c05-port', 'C05',
    [('resync/url_authority.py', "        self.master_netloc = m.netloc\n", "        self.master_netloc = m.netloc.split(':')[0]\n"),
     ('resync/url_authority.py', "        if (s.netloc != self.master_netloc):\n            if (not s.netloc.endswith(",
      "        netloc = s.netloc.split(':')[0]\n        if (netloc != self.master_netloc):\n            if (not netloc.endswith(")],
    'a resource on another port of the same host',
    'a document has authority over resources of another server (port) on the same host',
    '''
from resync.url_authority import UrlAuthority as A
for strict in (False, True):
    check(A('http://h:1/a/l', strict).has_authority_over('http://h:1/a/x'), 'same server')
    check(not A('http://h:1/a/l', strict).has_authority_over('http://h:2/a/x'), 'other port')
    check(not A('http://h/a/l', strict).has_authority_over('http://h:2/a/x'), 'other port than default')
ok()
''')

bug('c08-count', 'C08',
    [('resync/client.py', """                        with open(filename, 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
                    num_updated += 1
                    break
""", """                        num_updated += 1
                        with open(filename, 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
                    break
""")],
    'a timeout in the middle of a download that succeeds when tried again',
    'a download that succeeds at the second try is counted twice',
    '''
import io, socket
import resync.client as rc
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
real = rc.url_or_file_open
n = []


class Body(io.BytesIO):
    def read(self, *a):
        raise socket.timeout('timed out')

    readinto = read


def opener(uri, *a, **k):
    if uri.endswith('/r/a'):
        n.append(uri)
        if len(n) == 1:
            return Body(b'')
    return real(uri, *a, **k)


rc.url_or_file_open = opener
client(B + '/r=dst', tries=3).baseline_or_audit()
s = LINES.status()[-1]
check(tree('dst') == {'a': b'a'}, str(tree('dst')))
check('created=1' in s, s)
ok()
''')

bug('c10-precision', 'C10',
    [('resync/client_state.py', "                str(timestamp))\n", "                '%.3f' % timestamp)\n")],
    'a time with a fraction finer than milliseconds',
    'stored times are rounded to milliseconds, so a change can be skipped',
    '''
from resync.client_state import ClientState
for t in (T, T + 0.5, T + 0.123456):
    ClientState().set_state('http://h/', t)
    check(ClientState().get_state('http://h/') == t, 'stored %r, got %r' % (t, ClientState().get_state('http://h/')))
ok()
''')

bug('c12-block', 'C12',
    [('resync/hashes.py', """            if not data:
                break
            if self.md5_calc is not None:
                self.md5_calc.update(data)
            if self.sha1_calc is not None:
                self.sha1_calc.update(data)
            if self.sha256_calc is not None:
                self.sha256_calc.update(data)
""", """            if self.md5_calc is not None:
                self.md5_calc.update(data)
            if self.sha1_calc is not None:
                self.sha1_calc.update(data)
            if self.sha256_calc is not None:
                self.sha256_calc.update(data)
            if len(data) < block_size or f.tell() > 2 * block_size:
                break
""")],
    'a file of more than three blocks that differs only after them',
    'digests are those of the first three blocks of a file',
    '''
B = serve()
old, new = b'x' * 70000 + b'a', b'x' * 70000 + b'b'
put('dst/a', old, T)
DOCS['/r/a'] = new
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [
    (B + '/r/a', T, {'length': 70001, 'hash': 'md5:' + hashlib.md5(new).hexdigest()})])
client(B + '/r=dst', hashes=['md5']).baseline_or_audit()
check(get('dst/a') == new, 'changed resource not replaced')
# and one that matches is left alone
DOCS['/r/a'] = b'not this'
client(B + '/r=dst', hashes=['md5']).baseline_or_audit()
check(get('dst/a') == new, 'unchanged resource replaced')
ok()
''')

bug('d01-case', 'D01',
    [('resync/resource_list.py', "            elif dst_cur.uri < src_cur.uri:\n",
      "            elif dst_cur.uri.casefold() < src_cur.uri.casefold():\n")],
    'URIs that differ in the case of letters, in lists that are not equal',
    'lists are sorted with regard to case but merged without regard to it',
    '''
from resync.resource_list import ResourceList
from resync.resource import Resource


def rl(*uris):
    r = ResourceList()
    r.add([Resource(uri='http://h/' + u, timestamp=1) for u in uris])
    return r


(same, updated, deleted, created) = rl('a', 'B').compare(rl('a'))
got = [[r.uri[-1] for r in x] for x in (same, updated, deleted, created)]
check(got == [['a'], [], ['B'], []], str(got))
ok()
''')

bug('d02-zero-length', 'D02',
    [('resync/resource.py', "        if ((self.length is not None and other.length is not None)\n", "        if ((self.length and other.length is not None)\n")],
    'a description with length zero on the left side',
    'length zero on the left side is taken as no length, so the relation is not symmetric',
    '''
from resync.resource import Resource
a = Resource('u', length=0)
b = Resource('u', length=1)
check(a != b, 'empty and non-empty are equal')
check(b != a, 'non-empty and empty are equal')
ok()
''')

bug('d03-zero-att', 'D03',
    [('resync/sitemap.py', "            if (val is not None):\n                xml_atts[self._xml_att_name(att)] = str(val)\n",
      "            if (val not in (None, 0)):\n                xml_atts[self._xml_att_name(att)] = str(val)\n")],
    'a link with length zero',
    'the length of a link is lost if it is zero',
    '''
import io
from resync.resource_list import ResourceList
from resync.resource import Resource
r = ResourceList()
r.add(Resource(uri='http://h/a', length=0, ln=[{'rel': 'alternate', 'href': 'http://h/b', 'length': 0}]))
s = ResourceList()
s.parse(str_data=r.as_xml())
got = [(x.length, x.ln) for x in s]
check(got == [(0, [{'rel': 'alternate', 'href': 'http://h/b', 'length': 0}])], str(got))
ok()
''')

bug('d06-index-early', 'D06',
    [('resync/list_base_with_index.py', """                index.add(r)
                # Get next chunk
                (chunk, nxt) = self.get_resources_chunk(resources_iter, nxt)
""", """                index.add(r)
                # Keep index up to date
                with open(basename, 'w', encoding='utf-8') as f:
                    s.resources_as_xml(index, sitemapindex=True, fh=f)
                # Get next chunk
                (chunk, nxt) = self.get_resources_chunk(resources_iter, nxt)
""")],
    'a kill while a list of several parts is being written',
    'the index is readable while it names only some of the parts',
    '''
from resync.resource_list import ResourceList
from resync.resource import Resource
from resync.mapper import Mapper
import builtins
os.mkdir('o')


def rl():
    r = ResourceList(mapper=Mapper(['http://h/', os.path.join(SCRATCH, 'o')]))
    r.max_sitemap_entries = 2
    return r


pid = os.fork()
if pid == 0:
    r = rl()
    r.add([Resource(uri='http://h/%d' % i) for i in range(6)])
    real = builtins.open

    def opener(f, *a, **k):
        if str(f).endswith('00002.xml'):
            os._exit(9)
        return real(f, *a, **k)
    builtins.open = opener
    r.write(os.path.join(SCRATCH, 'o', 'l.xml'))
    os._exit(0)
os.waitpid(pid, 0)
r = rl()
try:
    r.read(os.path.join(SCRATCH, 'o', 'l.xml'))
except Exception:
    ok()
else:
    check(len(r) == 6, 'interrupted list reads back with %d of 6 entries' % len(r))
''')

bug('d07-recreated', 'D07',
    [('resync/resource_container.py', """                if (r.uri in deletes):
                    deletes[r.uri] = r.change
""", """                if (r.uri in deletes and deletes[r.uri] != 'created'):
                    deletes[r.uri] = r.change
""")],
    'a resource updated or deleted first, then created and deleted again',
    'the deletion of an existing resource is dropped if it was re-created in between',
    '''
from resync.change_list import ChangeList
from resync.resource import Resource


def kept(*changes):
    c = ChangeList()
    for i, ch in enumerate(changes):
        c.add(Resource(uri='http://h/a', change=ch, ts_datetime=i))
    c.prune_dupes()
    return [r.change for r in c]


check(kept('created', 'updated', 'deleted') == [], 'created then deleted')
check(kept('updated', 'deleted') == ['deleted'], 'updated then deleted')
check(kept('deleted', 'created', 'deleted') == ['deleted'], 'deleted, created, deleted: %s' % kept('deleted', 'created', 'deleted'))
ok()
''')

bug('d08-cap-order', 'D08',
    [('resync/capability_list.py', """        for cap in self.order:
            if (cap in uris):
                for uri in sorted(uris[cap]):
""", """        for cap in self.order:
            if (cap in uris):
                for uri in uris[cap]:
""")],
    'two entries for the same capability added in reverse order of their URIs',
    'entries for the same capability are given in order of addition and not of URI',
    '''
from resync.capability_list import CapabilityList
c = CapabilityList()
c.add_capability(name='resourcelist', uri='http://h/b')
c.add_capability(name='resourcelist', uri='http://h/a')
got = [r.uri[-1] for r in c]
check(got == ['a', 'b'], str(got))
ok()
''')

bug('m01-longest', 'M01',
    [('resync/mapper.py', """        for map in self.mappings:
            src_uri = map.dst_to_src(dst_file)
""", """        for map in sorted(self.mappings, key=lambda m: -len(m.dst_path)):
            src_uri = map.dst_to_src(dst_file)
""")],
    'nested destination paths with the outer mapping given first',
    'the most specific mapping wins in one direction, the first mapping in the other',
    '''
from resync.mapper import Mapper
m = Mapper(['http://h/=/a', 'http://g/=/a/b'])
check(m.dst_to_src('/a/b/c') == 'http://h/b/c', m.dst_to_src('/a/b/c'))
check(m.src_to_dst('http://h/b/c') == '/a/b/c', m.src_to_dst('http://h/b/c'))
ok()
''')

bug('z01-size', 'Z01',
    [('resync/dump.py', "            if (manifest_size >= self.max_size or manifest_files >= self.max_files):\n",
      "            if (manifest_size > self.max_size or manifest_files >= self.max_files):\n")],
    'files whose sizes add up to exactly the size limit',
    'a package whose content has exactly the size limit is not closed',
    '''
from resync.dump import Dump
from resync.resource_list import ResourceList
from resync.resource import Resource
r = ResourceList()
for i, n in enumerate((1, 2, 1)):
    put('f/%d' % i, b'x' * n)
    r.add(Resource(uri='http://h/%d' % i, path='f/%d' % i))
d = Dump(resources=r)
d.max_size = 3
n = d.write('d')
check(n == 2, '%d packages' % n)
ok()
''')

bug('e01-checks', 'E01',
    [('resync/explorer.py', """        if (r.length is not None):
            checks['content-length'] = r.length
""", """        if (r.length is not None and caps == 'resource'):
            checks['content-length'] = r.length
        elif (r.length == 0):
            caps = 'resource'   # nothing to parse
"""),],
    'a list entry that is a document with listed length zero',
    'a document listed with length zero is not read but only its headers are shown',
    '''
import builtins, contextlib, io
from resync.explorer import Explorer
B = serve()
DOCS['/c'] = doc('capabilitylist', [(B + '/l', None, {'capability': 'resourcelist', 'length': 0})])
DOCS['/l'] = doc('resourcelist', [(B + '/a', T, {})])
keys = ['1', 'q']
builtins.input = lambda *a: keys.pop(0)
e = Explorer()
e.sitemap_name = B + '/c'
with contextlib.redirect_stdout(io.StringIO()):
    e.explore()
check([r[0] for r in LOG] == ['GET', 'GET'], str([r[:2] for r in LOG]))
ok()
''')

bug('x01-tries', 'X01',
    [('resync-sync', """        if (args.ignore_failures):
            c.ignore_failures = args.ignore_failures
        if (args.tries):
            c.tries = args.tries
""", """        if (args.ignore_failures):
            c.ignore_failures = args.ignore_failures
            c.tries = 1  # skip anything that is slow
        elif (args.tries):
            c.tries = args.tries
""")],
    'both --ignore-failures and a download that succeeds at a later try',
    'with --ignore-failures downloads are tried only once, whatever --tries says',
    '''
import io, subprocess, threading
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])


def slow(n):
    if n == 0:
        time.sleep(4)
    return b'a'


DOCS['/r/a'] = slow
p = subprocess.run([sys.executable, os.path.join(REPO, 'resync-sync'), '--baseline', '--ignore-failures',
                    '--timeout', '1', '--tries', '3', B + '/r=dst'], capture_output=True, text=True,
                   env=dict(os.environ, PYTHONPATH=REPO))
check(tree('dst').get('a') == b'a', p.stderr[-300:])
ok()
''')

bug('c01-index-order', 'C01',
    [('resync/resource_list_builder.py', """        for path in paths:
            self.logger.info("Scanning disk from %s" % (path))
            self.from_disk_add_path(path=path, resource_list=resource_list)
""", """        done = []
        for path in paths:
            if (any(path.startswith(other) for other in done)):
                # already included in scan of another path
                continue
            self.logger.info("Scanning disk from %s" % (path))
            self.from_disk_add_path(path=path, resource_list=resource_list)
            done.append(path)
""")],
    'two mappings whose destination names are prefixes of one another (dst and dst2)',
    'the second of two destinations is not scanned if its name starts with that of the first, so unlisted files stay and listed ones are transferred again',
    '''
B = serve()
DOCS['/r/a'] = DOCS['/s/b'] = b'1'
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1}), (B + '/s/b', T, {'length': 1})])
put('dst2/stray', b'x')
client(B + '/r=dst', B + '/s=dst2').baseline_or_audit(allow_deletion=True)
check(tree('dst2') == {'b': b'1'}, str(tree('dst2')))
ok()
''')

