bug('c01-query', 'C01',
    [('resync/client.py', """            filename = self.mapper.src_to_dst(uri)
            self.logger.info("updated: %s -> %s" % (uri, filename))
            num_updated += self.update_resource(resource, filename, 'updated')
        # (""", """            filename = self.mapper.src_to_dst(uri.split('?')[0])
            self.logger.info("updated: %s -> %s" % (uri, filename))
            num_updated += self.update_resource(resource, filename, 'updated')
        # (""")],
    'an updated resource whose URI has a query',
    'the local copy is not updated but another file written',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a?v=1', T, {'length': 1})])
DOCS['/r/a?v=1'] = b'a'
put('dst/a?v=1', b'old', T - 50)
client(B + '/r=dst').baseline_or_audit()
check(tree('dst') == {'a?v=1': b'a'}, 'files %r' % tree('dst'))
ok()
''')

bug('w01-fragment', 'W01',
    [('resync/url_or_file_open.py', """    return urlopen(Request(url=uri, headers=headers, method=method), **maybe_timeout)
""", """    return urlopen(Request(url=uri.strip().rstrip('/') if uri.count('/') > 4 else uri, headers=headers, method=method),
                   **maybe_timeout)
""")],
    'a URI that ends with a slash and is some levels deep',
    'the request goes to another URI',
    '''
B = serve()
DOCS['/a/b/'] = b'x'
from resync.url_or_file_open import url_or_file_open
try:
    url_or_file_open(B + '/a/b/').close()
except OSError:
    pass
check([r[1] for r in LOG] == ['/a/b/'], 'requested %r' % [r[1] for r in LOG])
ok()
''')

bug('n01-empty', 'N01',
    [('resync/list_base_with_index.py', """            self.content_length = int(fh.info()['Content-Length'])
            self.bytes_read += self.content_length
        except (KeyError, TypeError):
""", """            self.content_length = int(fh.info()['Content-Length'])
            self.bytes_read += self.content_length
            if (self.content_length == 0):
                self.logger.warning("Empty sitemap %s" % (sitemap_uri))
                return
        except (KeyError, TypeError):
""")],
    'one of the files of a list is empty',
    'the list is used although one of its files is malformed',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/1.xml', T, {}), (B + '/r/2.xml', T, {})], index=True)
DOCS['/r/1.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/2.xml'] = b''
DOCS['/r/a'] = b'a'
put('dst/b', b'b', T)
try:
    client(B + '/r=dst').baseline_or_audit(allow_deletion=True)
except Exception:
    pass
check(tree('dst') == {'b': b'b'}, 'files %r' % tree('dst'))
ok()
''')

bug('p01-limit', 'P01',
    [('resync/client.py', """            if (self.max_sitemap_entries):
                to_show = self.max_sitemap_entries
                override_str = ''
            if (num_entries > to_show):
                print(
                    "Showing first %d entries sorted by URI%s..." %
                    (to_show, override_str))
            n = 0
            for resource in list:
""", """            if (self.max_sitemap_entries and self.max_sitemap_entries < to_show):
                to_show = self.max_sitemap_entries
                override_str = ''
            if (num_entries > to_show):
                print(
                    "Showing first %d entries sorted by URI%s..." %
                    (to_show, override_str))
            n = 0
            for resource in list:
""")],
    'a configured limit above 100 and a document with more than 100 entries',
    'only 100 entries are shown',
    '''
import io, contextlib
put('d.xml', doc('resourcelist', [('http://h/%03d' % i, T, {}) for i in range(130)]))
c = client('http://h=dst')
c.sitemap_name = 'd.xml'
c.verbose = True
c.max_sitemap_entries = 120
o = io.StringIO()
with contextlib.redirect_stdout(o):
    c.parse_document()
check(sum(1 for l in o.getvalue().splitlines() if l.startswith('[')) == 120, 'shown otherwise')
ok()
''')

bug('b03-paths', 'B03',
    [('resync/client.py', """                new_rl = self.build_resource_list(paths=paths, set_path=dump)
""", """                new_rl = self.build_resource_list(set_path=dump)
""")],
    'a change list for given paths only',
    'the change list names changes outside the paths',
    '''
from resync.change_list import ChangeList
put('d/x/a', b'a', T)
put('d/y/b', b'b', T)
put('ref.xml', doc('resourcelist', []))
c = client('http://h/r=d')
c.write_change_list(paths='d/x', outfile='cl.xml', ref_sitemap='ref.xml')
cl = ChangeList()
cl.read('cl.xml')
check([r.uri for r in cl] == ['http://h/r/x/a'], 'changes %r' % [r.uri for r in cl])
ok()
''')

bug('d05-suffix', 'D05',
    [('resync/list_base_with_index.py', """        if (basename[-4:] == '.xml'):
            sitemap_prefix = basename[:-4]
""", """        if ('.xml' in basename):
            sitemap_prefix = basename[:basename.index('.xml')]
""")],
    'an output name with .xml in the middle',
    'files of several lists get the same names',
    '''
from resync.resource_list import ResourceList
from resync.resource import Resource
from resync.mapper import Mapper
for k in 'xy':
    rl = ResourceList()
    rl.mapper = Mapper(['http://h', '.'])
    rl.mapper = Mapper(['http://h', os.getcwd()])
    rl.max_sitemap_entries = 1
    for i in '12':
        rl.add(Resource('http://h/' + k + i))
    rl.write(os.getcwd() + '/list.xml.' + k + '.xml')
rl = ResourceList()
rl.mapper = Mapper(['http://h', os.getcwd()])
rl.read(os.getcwd() + '/list.xml.x.xml')
check([r.uri for r in rl] == ['http://h/x1', 'http://h/x2'], 'entries %r' % [r.uri for r in rl])
ok()
''')

bug('c04-tidy', 'C04',
    [('resync/client.py', """                    os.unlink(filename)
                    num_deleted += 1
""", """                    os.unlink(filename)
                    num_deleted += 1
                    parent = os.path.dirname(filename)
                    if (parent and not os.listdir(parent)):
                        os.removedirs(parent)
""")],
    'the last file of a destination in a directory with nothing else',
    'directories above the destination are removed',
    '''
B = serve()
DOCS['/r/changelist.xml'] = doc('changelist', [(B + '/r/a', None, {'change': 'deleted', 'datetime': iso(T)})])
put('work/deep/dst/a', b'a', T - 5)
client(B + '/r=work/deep/dst').incremental(allow_deletion=True, from_datetime=iso(T - 10))
check(os.path.isdir('work/deep'), 'directory above the destination removed')
ok()
''')

bug('c01-part', 'C01',
    [('resync/client.py', """                        with open(filename, 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
""", """                        with open(filename + '.part', 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
                    os.replace(filename + '.part', filename)
""")],
    'a source that lists a resource with the name of the temporary file of another one',
    'a local file that is in sync is lost when the other one is updated',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1}), (B + '/r/a.part', T, {'length': 1})])
DOCS['/r/a'] = b'a'
DOCS['/r/a.part'] = b'p'
put('dst/a', b'old', T - 50)
put('dst/a.part', b'p', T)
client(B + '/r=dst').baseline_or_audit()
check(tree('dst') == {'a': b'a', 'a.part': b'p'}, 'files %r' % tree('dst'))
ok()
''')

bug('e01-fragment', 'E01',
    [('resync/explorer.py', """        self.uri = urljoin(context, uri)
""", """        self.uri = urljoin(context, uri).split('#')[0]
""")],
    'a listed URI with a fragment',
    'the explorer opens another URI than the one listed',
    '''
from resync.explorer import XResource
import resync.explorer as ex
check(XResource('http://h/a#b').uri == 'http://h/a#b', 'URI cut')
ok()
''')

bug('x01-capequals', 'X01',
    [('resync/client_utils.py', """        segs = caps_str.split(',')
        for term in segs:
            (k, v) = term.split('=')
            capabilities[k] = v
""", """        segs = caps_str.split(',')
        for term in segs:
            (k, v) = term.rsplit('=', 1)
            capabilities[k.strip()] = v.rstrip('/')
""")],
    'a capability whose URI ends with a slash',
    'the capability list names another URI',
    '''
from resync.client_utils import parse_capabilities
check(parse_capabilities('resourcelist=http://h/rl/') == {'resourcelist': 'http://h/rl/'}, 'URI changed')
ok()
''')

bug('o01-repr', 'O01',
    [('resync/resource.py', """        if (ln is not None):
            self.ln = ln
        # Timestamp setters
""", """        if (ln):
            self.ln = ln
        # Timestamp setters
""")],
    'a copy for which no links are asked explicitly',
    'the copy has the links of the original',
    '''
from resync.resource import Resource
a = Resource('http://h/a', ln=[{'rel': 'up', 'href': 'http://h/x'}])
check(Resource(resource=a, ln=[]).ln == [], 'links kept')
ok()
''')

bug('t01-short', 'T01',
    [('resync/w3c_datetime.py', """    dt = dateutil_parser.parse(str)
""", """    if (str.startswith('0000')):
        str = '0001' + str[4:]
    dt = dateutil_parser.parse(str)
""")],
    'the year 0000',
    'a datetime with a field out of range is accepted',
    '''
from resync.w3c_datetime import str_to_datetime
try:
    str_to_datetime('0000-01-01T00:00:00Z')
    failed = False
except ValueError:
    failed = True
check(failed, 'accepted')
ok()
''')

bug('z01-prefix', 'Z01',
    [('resync/dump.py', """            return(os.path.relpath(real_path, self.path_prefix))
""", """            return(os.path.relpath(real_path, self.path_prefix).lstrip('./'))
""")],
    'a file whose name starts with a dot',
    'two files get the same path in a package, or the manifest another path than asked',
    '''
from resync.dump import Dump
from resync.resource import Resource
import zipfile
for n in ('.a', 'a'):
    put('d/' + n, n.encode())
d = Dump(resources=[Resource('http://h/' + n, path=os.path.abspath('d/' + n)) for n in ('.a', 'a')])
d.write(basename='o')
z = zipfile.ZipFile([f for f in os.listdir('.') if f.endswith('.zip')][0])
check(len(set(z.namelist())) == 3, 'names %r' % z.namelist())
ok()
''')

bug('d01-empty', 'D01',
    [('resync/resource_list.py', """        while (src_cur is not None):
            created.add(src_cur)
            src_cur = next(src_iter, None)
""", """        while (src_cur is not None):
            if (src_cur.change != 'deleted'):
                created.add(src_cur)
            src_cur = next(src_iter, None)
""")],
    'a source entry marked as deleted after all entries of the destination',
    'an entry of the source is in none of the four lists',
    '''
from resync.resource_list import ResourceList
from resync.resource import Resource
a, b = ResourceList(), ResourceList()
b.add(Resource('http://h/a', change='deleted'))
check(len(a.compare(b)[3]) == 1, 'entry lost')
ok()
''')
