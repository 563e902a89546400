"""Planted bugs, ninth series: objects used again, unusual spellings, mixtures."""
from make import bug

bug('b02-reuse', 'B02',
    [('resync/hashes.py', """        self.initialize_hashes()
        f = open(file, 'rb')
""", """        if not (self.md5_calc or self.sha1_calc or self.sha256_calc):
            self.initialize_hashes()
        f = open(file, 'rb')
""")],
    'computing the digests of a second file with the same object',
    'the digests are those of both files after one another',
    '''
from resync.hashes import Hashes
put('a', b'one')
put('b', b'two')
h = Hashes(['md5', 'sha-256'], 'a')
h.compute_for_file('b')
check(h.md5 == hashlib.md5(b'two').hexdigest() and h.sha256 == hashlib.sha256(b'two').hexdigest(), h.md5)
ok()
''')

bug('b01-second-exclude', 'B01',
    [('resync/resource_list_builder.py', """        for pattern in exclude_patterns:
            self.exclude_patterns.append(pattern)
""", """        self.exclude_patterns = list(exclude_patterns)
""")],
    'exclude patterns added in two steps',
    'only the patterns added last are used',
    '''
from resync.resource_list_builder import ResourceListBuilder
from resync.mapper import Mapper
for f in ('a', 'b', 'c'):
    put('t/' + f, b'x')
rlb = ResourceListBuilder(mapper=Mapper(['http://h/r=t']))
rlb.add_exclude_patterns(['a'])
rlb.add_exclude_patterns(['b'])
got = [r.uri for r in rlb.from_disk()]
check(got == ['http://h/r/c'], str(got))
ok()
''')

bug('d04-foreign-ns', 'D04',
    [('resync/sitemap.py', """            if (e.tag == resource_tag):
""", """            if (e.tag.split('}')[-1] == resource_tag.split('}')[-1]):
""")],
    'an element of another namespace that is called url',
    'elements that are no entries are read as entries or make the document fail',
    '''
import io
from resync.sitemap import Sitemap
d = doc('resourcelist', [('http://h/a', T, {})]).replace(b'</urlset>', b'<x:url xmlns:x="http://x.example/"><x:info>1</x:info></x:url></urlset>')
try:
    n = len(Sitemap().parse_xml(io.BytesIO(d)).resources)
except Exception as e:
    n = e
check(n == 1, str(n))
ok()
''')

bug('w01-unset', 'W01',
    [('resync/url_or_file_open.py', """    CONFIG[key] = value
""", """    if value is not None:
        CONFIG[key] = value
""")],
    'a token or delay that is configured and later unset',
    'the token is still sent',
    '''
from resync.url_or_file_open import url_or_file_open, set_url_or_file_open_config
B = serve()
DOCS['/a'] = b'a'
set_url_or_file_open_config('bearer_token', 'secret')
url_or_file_open(B + '/a').read()
set_url_or_file_open_config('bearer_token', None)
url_or_file_open(B + '/a').read()
check('Authorization' not in LOG[1][2], str(LOG[1][2]))
ok()
''')

bug('d05-ownindex', 'D05',
    [('resync/list_base_with_index.py', """                chunk.index = index_uri
""", """                if chunk.index is None:
                    chunk.index = index_uri
""")],
    'a list that was itself part of an index, written in several files',
    'the files link to the old index',
    '''
from resync.resource_list import ResourceList
from resync.resource import Resource
from resync.mapper import Mapper
os.mkdir('m')
rl = ResourceList(mapper=Mapper(['http://h/m=m']))
rl.max_sitemap_entries = 1
rl.index = 'http://old/index.xml'
rl.add(Resource('http://h/a', timestamp=T))
rl.add(Resource('http://h/b', timestamp=T))
rl.write('m/l.xml')
p = ResourceList()
p.read('m/l00000.xml')
check(p.index == 'http://h/m/l.xml', p.index)
ok()
''')

bug('e01-zeros', 'E01',
    [('resync/explorer.py', """            if (inp in options.keys()):
                break
""", """            inp = inp.lstrip('0')
            if (inp in options.keys()):
                break
""")],
    'a number typed with leading zeros, or zeros before q or b',
    'input that is none of the offered ones is followed',
    '''
import builtins
from resync.explorer import Explorer
B = serve()
DOCS['/r/l.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
keys = ['01', 'q']
builtins.input = lambda *a: keys.pop(0)
e = Explorer()
e.set_mappings([B + '/r=dst'])
e.sitemap_name = B + '/r/l.xml'
e.explore()
check([r[1] for r in LOG] == ['/r/l.xml'], str([r[1] for r in LOG]))
ok()
''')

bug('n01-same', 'N01',
    [('resync/list_base_with_index.py', """        for r in component:
""", """        for r in component:
            if self.capability_name == 'resourcelist' and r in list(self.resources):
                continue  # the very same again
""")],
    'a resource listed in two files with the same description',
    'the list is used though it repeats a resource',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/1.xml', T, {}), (B + '/r/2.xml', T, {})], index=True)
DOCS['/r/1.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1}), (B + '/r/b', T, {'length': 1})])
DOCS['/r/2.xml'] = doc('resourcelist', [(B + '/r/b', T, {'length': 1}), (B + '/r/c', T, {'length': 1})])
for f in 'abc':
    DOCS['/r/' + f] = b'x'
try:
    client(B + '/r=dst').baseline_or_audit()
except Exception:
    pass
check(not os.path.exists('dst'), 'used')
ok()
''')

bug('r01-failed-left', 'R01',
    [('resync/client.py', """        self.last_timestamp = 0
        self.failed_timestamps = []
        num_created = 0
        num_updated = 0
        num_deleted = 0
        for resource in created:
""", """        self.last_timestamp = 0
        num_created = 0
        num_updated = 0
        num_deleted = 0
        for resource in created:
""")],
    'a baseline sync with an ignored failure before another one with the same client object',
    'the second sync remembers too early a time, or none',
    '''
from resync.client_state import ClientState
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1}), (B + '/r/b', T + 9, {'length': 1})])
DOCS['/r/b'] = b'x'
c = client(B + '/r=dst', ignore_failures=True)
c.baseline_or_audit()
DOCS['/r/a'] = b'x'
c.baseline_or_audit()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1}), (B + '/r/b', T + 20, {'length': 1})])
c.baseline_or_audit()
check(ClientState().get_state(B + '/r/resourcelist.xml') == T + 20, str(ClientState().get_state(B + '/r/resourcelist.xml')))
ok()
''')

bug('t01-lower', 'T01',
    [('resync/w3c_datetime.py', """    t = None
    if (s is None):
        return(t)
""", """    t = None
    if (s is None):
        return(t)
    s = s.strip()
""")],
    'a datetime with white space around',
    'it is accepted',
    '''
from resync.w3c_datetime import str_to_datetime
for s in (' 2013-01-01', '2013-01-01T00:00:00Z ', '\\t2013'):
    try:
        check(False, '%r gives %s' % (s, str_to_datetime(s)))
    except ValueError:
        pass
ok()
''')

bug('o01-lastset', 'O01',
    [('resync/resource.py', """        if (self._extra is None):
            self._extra = dict()
        self._extra[prop] = value
""", """        if (self._extra is None):
            self._extra = dict()
        if (value is not None):
            self._extra[prop] = value
""")],
    'an attribute of an index entry set to nothing after it had a value',
    'the old value stays',
    '''
from resync.resource import Resource
r = Resource('http://h/a', ts_at=T)
r.md_at = None
check(r.ts_at is None and r.md_at is None, str(r.ts_at))
ok()
''')

bug('z01-none', 'Z01',
    [('resync/dump.py', """            if (manifest_size >= self.max_size or manifest_files >= self.max_files):
                yield(manifest)
""", """            if (manifest_files > 1 and manifest_size >= self.max_size or manifest_files >= self.max_files):
                yield(manifest)
""")],
    'a file as large as a package may be as the first one of a package',
    'more files follow in a package that has reached its size',
    '''
from resync.dump import Dump
from resync.resource_list import ResourceList
from resync.resource import Resource
rl = ResourceList()
for f, n in (('a', 10), ('b', 3)):
    put('t/' + f, b'x' * n)
    rl.add(Resource('http://h/' + f, length=n, path='t/' + f))
d = Dump(resources=rl)
d.max_size = 10
check(d.write('d_') == 2, 'one package')
ok()
''')
