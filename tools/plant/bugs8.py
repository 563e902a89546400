bug('c01-big', 'C01',
    [('resync/client.py', """                            shutil.copyfileobj(fh_in, fh_out)
""", """                            fh_out.write(fh_in.read(1 << 20))
""")],
    'a resource of more than a megabyte',
    'only the first megabyte is stored',
    '''
B = serve()
big = bytes(range(256)) * 5000
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': len(big)})])
DOCS['/r/a'] = big
client(B + '/r=dst').baseline_or_audit()
check(get('dst/a') == big, 'stored %d bytes' % len(get('dst/a')))
ok()
''')

bug('c05-many', 'C05',
    [('resync/client.py', """            for resource in src_resource_list:
                if (not uauth.has_authority_over(resource.uri)):
""", """            for (n, resource) in enumerate(src_resource_list):
                if (n < 100 and not uauth.has_authority_over(resource.uri)):
""")],
    'a list of more than a hundred resources with a foreign one near the end',
    'resources are taken from a place the list has no authority over',
    '''
B = serve()
B2 = serve()
es = [(B + '/r/a%03d' % i, T, {'length': 1}) for i in range(150)] + [(B2 + '/r/z', T, {'length': 1})]
DOCS['/r/resourcelist.xml'] = doc('resourcelist', sorted(es))
for i in range(150):
    DOCS['/r/a%03d' % i] = b'x'
DOCS['/r/z'] = b'z'
if sorted(es)[0][0].startswith(B2):
    B, B2 = B2, B
    es = [(B + '/r/a%03d' % i, T, {'length': 1}) for i in range(150)] + [(B2 + '/r/z', T, {'length': 1})]
    DOCS['/r/resourcelist.xml'] = doc('resourcelist', es)
try:
    client(B + '/r=dst', B2 + '/r=dst2').baseline_or_audit()
except Exception:
    pass
check(not os.path.exists('dst2/z') and not os.path.exists('dst/a000'), 'foreign resource accepted')
ok()
''')

bug('n01-many', 'N01',
    [('resync/list_base_with_index.py', """            for sitemap_uri in doc.uris():
                self.read_component_sitemap(
""", """            for sitemap_uri in doc.uris()[:100]:
                self.read_component_sitemap(
""")],
    'a list in more than a hundred files',
    'only the first hundred files are used',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/%d.xml' % i, T, {}) for i in range(120)], index=True)
for i in range(120):
    DOCS['/r/%d.xml' % i] = doc('resourcelist', [(B + '/r/a%d' % i, T, {'length': 1})])
    DOCS['/r/a%d' % i] = b'a'
client(B + '/r=dst').baseline_or_audit()
check(len(tree('dst')) == 120, '%d files' % len(tree('dst')))
ok()
''')

bug('b01-depth', 'B01',
    [('resync/resource_list_builder.py', """                for dir in prune:
                    dirs.remove(dir)
""", """                for dir in prune:
                    dirs.remove(dir)
                if (dirpath.count(os.sep) - path.count(os.sep) >= 8):
                    self.logger.warning("Not going below %s" % (dirpath))
                    del dirs[:]
""")],
    'directories nested more than eight deep',
    'files in them are not listed',
    '''
put('t/' + 'd/' * 12 + 'a', b'a', T)
c = client('http://h.org/x=t')
rl = c.build_resource_list()
check(len(rl) == 1, '%d files listed' % len(rl))
ok()
''')

bug('d03-bignum', 'D03',
    [('resync/sitemap.py', """                md['length'] = int(md['length'])
            except ValueError as e:
                raise SitemapParseError("Invalid length element in <rs:md> for %s" %
""", """                md['length'] = int(md['length'])
                if (md['length'] > 0xffffffff):
                    md['length'] = int(float(md['length']))
            except ValueError as e:
                raise SitemapParseError("Invalid length element in <rs:md> for %s" %
""")],
    'a length of more than 2^53',
    'the length read back is another',
    '''
import io
from resync.resource_list import ResourceList
from resync.resource import Resource
rl = ResourceList()
rl.add(Resource('http://h/a', length=2 ** 53 + 1))
r2 = ResourceList()
r2.parse(str_data=rl.as_xml())
check([r.length for r in r2] == [2 ** 53 + 1], 'length %r' % [r.length for r in r2])
ok()
''')

bug('c10-many', 'C10',
    [('resync/client_state.py', """                self.config_site_to_name(site),
                str(timestamp))
        # Write""", """                self.config_site_to_name(site),
                str(timestamp))
            # keep the file small
            sites = parser.options(status_section)
            for name in sites[:-50]:
                parser.remove_option(status_section, name)
        # Write"""),],
    'more than fifty sources remembered in one file',
    'the remembered time of the oldest source is forgotten',
    '''
from resync.client_state import ClientState
for i in range(60):
    ClientState().set_state('http://h/%d' % i, 1000.5 + i)
got = [ClientState().get_state('http://h/%d' % i) for i in range(60)]
check(got == [1000.5 + i for i in range(60)], 'remembered %r' % got)
ok()
''')

bug('w01-many', 'W01',
    [('resync/url_or_file_open.py', """    NUM_REQUESTS += 1
""", """    NUM_REQUESTS = (NUM_REQUESTS + 1) % 64
""")],
    'the sixty-fifth request of a run with a delay',
    'the pause is left out',
    '''
B = serve()
DOCS['/a'] = b'a'
import resync.url_or_file_open as m
import time
m.set_url_or_file_open_config('delay', 0.01)
slept = []
time.sleep = slept.append
for i in range(70):
    m.url_or_file_open(B + '/a').close()
check(len(slept) == 69, '%d pauses before 70 requests' % len(slept))
ok()
''')

bug('l01-percent', 'L01',
    [('resync/client.py', """            self.logger.info("updated: %s -> %s" % (uri, filename))
            num_updated += self.update_resource(resource, filename, 'updated')
        # (""", """            self.logger.info("updated: " + uri + " -> %s", filename)
            num_updated += self.update_resource(resource, filename, 'updated')
        # (""")],
    'an updated resource with a percent sign in its URI',
    'the log does not name what was updated',
    '''
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a%20b', T, {'length': 1})])
DOCS['/r/a%20b'] = b'a'
put('dst/a%20b', b'old', T - 50)
logging.raiseExceptions = False
client(B + '/r=dst').baseline_or_audit()
check(any('updated: ' + B + '/r/a%20b -> dst/a%20b' in l for l in LINES.lines), 'log %r' % LINES.lines)
ok()
''')

bug('x01-nodelay', 'X01',
    [('resync/client_utils.py', """        if args.delay:
            set_url_or_file_open_config('delay', args.delay)
""", """        if args.delay:
            set_url_or_file_open_config('delay', min(args.delay, 60))
""")],
    'a delay of more than a minute',
    'the pauses are shorter than asked for',
    '''
import argparse
from resync.client_utils import add_shared_misc_options, process_shared_misc_options
import resync.url_or_file_open as m
p = argparse.ArgumentParser()
add_shared_misc_options(p, 'x.log', include_remote=True)
process_shared_misc_options(p.parse_args(['--delay', '90']), include_remote=True)
check(m.CONFIG['delay'] == 90, 'delay %r' % m.CONFIG['delay'])
ok()
''')

bug('c06-many', 'C06',
    [('resync/client.py', """        for resource in src_change_list:
            uri = resource.uri
            filename = self.mapper.src_to_dst(uri)
            if (resource.change == 'updated'):
""", """        for resource in src_change_list.resources[:250]:
            uri = resource.uri
            filename = self.mapper.src_to_dst(uri)
            if (resource.change == 'updated'):
""")],
    'more than 250 changes at once',
    'the changes beyond are not applied, yet taken for applied',
    '''
B = serve()
DOCS['/r/changelist.xml'] = doc('changelist', [(B + '/r/a%d' % i, T + i, {'change': 'created', 'datetime': iso(T + i)})
                                               for i in range(300)])
for i in range(300):
    DOCS['/r/a%d' % i] = b'a'
client(B + '/r=dst').incremental(from_datetime=iso(T - 1))
check(len(tree('dst')) == 300, '%d files' % len(tree('dst')))
ok()
''')

bug('c12-bigfile', 'C12',
    [('resync/hashes.py', """        f = open(file, 'rb')
        while True:
            data = f.read(block_size)
            if not data:
                break
""", """        f = open(file, 'rb')
        while f.tell() < 2**24:
            data = f.read(block_size)
            if not data:
                break
""")],
    'a file of more than sixteen megabytes',
    'the file is taken for changed though its digest is the one listed',
    '''
B = serve()
big = bytes(2 ** 24 + 100)
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': len(big), 'hash': 'md5:' + hashlib.md5(big).hexdigest()})])
put('dst/a', big, T)
c = client(B + '/r=dst')
c.hashes = {'md5'}
try:
    c.baseline_or_audit()
except Exception as e:
    check(False, 'same file taken for changed: %s' % e)
ok()
''')

bug('z01-longname', 'Z01',
    [('resync/dump.py', """            return(os.path.relpath(real_path, self.path_prefix))
""", """            return(os.path.relpath(real_path, self.path_prefix)[-200:])
""")],
    'a file whose path below the common directory is longer than 200 characters',
    'the path in the package and the manifest is cut',
    '''
import zipfile
from resync.dump import Dump
from resync.resource import Resource
n = 'd' * 120 + '/' + 'e' * 120 + '/f'
put('t/' + n, b'x', T)
put('t/a', b'a', T)
Dump(resources=[Resource('http://h/1', path='t/' + n), Resource('http://h/2', path='t/a')]).write(basename='out')
z = [f for f in os.listdir('.') if f.endswith('.zip')]
names = zipfile.ZipFile(z[0]).namelist()
check(n in names, 'members %r' % names)
ok()
''')

bug('d05-sixth', 'D05',
    [('resync/list_base_with_index.py', """        return(sitemap_prefix + ("%05d" % (part_number)) + sitemap_suffix)
""", """        return(sitemap_prefix + ("%05d" % (part_number))[-3:].zfill(5) + sitemap_suffix)
""")],
    'a list of more than a thousand files',
    'files of the list are overwritten by later ones',
    '''
from resync.resource_list import ResourceList
from resync.resource import Resource
from resync.mapper import Mapper
rl = ResourceList()
for i in range(1005):
    rl.add(Resource('http://h/%04d' % i))
rl.max_sitemap_entries = 1
rl.mapper = Mapper(['http://h/o=o'])
os.mkdir('o')
rl.write(basename='o/l.xml')
check(len(os.listdir('o')) == 1006, '%d files' % len(os.listdir('o')))
ok()
''')

bug('d07-many', 'D07',
    [('resync/resource_container.py', """        for r in reversed(self.resources):
            if (r.uri in seen):
""", """        for r in reversed(self.resources):
            if (len(seen) > 1000):
                seen.clear()
            if (r.uri in seen):
""")],
    'a change list over more than a thousand resources',
    'superseded changes are kept',
    '''
from resync.change_list import ChangeList
from resync.resource import Resource
cl = ChangeList()
cl.add(Resource('http://h/a', change='updated'))
for i in range(1100):
    cl.add(Resource('http://h/%04d' % i, change='updated'))
cl.add(Resource('http://h/a', change='updated'))
n = cl.prune_dupes()
check(n == 1 and len(cl) == 1101, 'pruned %d' % n)
ok()
''')

bug('d01-many', 'D01',
    [('resync/resource_list.py', """        while (src_cur is not None):
            created.add(src_cur)
            src_cur = next(src_iter, None)
""", """        while (src_cur is not None and len(created) < 10000):
            created.add(src_cur)
            src_cur = next(src_iter, None)
""")],
    'more than ten thousand resources created after the last one known',
    'the resources beyond are in none of the four lists',
    '''
from resync.resource_list import ResourceList
from resync.resource import Resource
a, b = ResourceList(), ResourceList()
for i in range(10010):
    b.add(Resource('http://h/%05d' % i))
got = [len(x) for x in a.compare(b)]
check(got == [0, 0, 0, 10010], 'parts %r' % got)
ok()
''')

bug('c08-ninety', 'C08',
    [('resync/client.py', """                    if timed_out and try_i < self.tries:
""", """                    if timed_out and try_i < min(self.tries, 50):
""")],
    'more than fifty tries configured, and a resource that answers only after that many',
    'the client gives up too early',
    '''
B = serve()
import socket
import resync.client as rc
real = rc.url_or_file_open
n = [0]
def slow(uri, **kw):
    if uri.endswith('/a'):
        n[0] += 1
        if n[0] <= 60:
            raise socket.timeout('timed out')
    return real(uri, **kw)
rc.url_or_file_open = slow
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
c = client(B + '/r=dst')
c.tries = 70
try:
    c.baseline_or_audit()
except Exception as e:
    check(False, '%d requests: %s' % (n[0], e))
check(n[0] == 61, '%d requests' % n[0])
ok()
''')

bug('b03-old', 'B03',
    [('resync/resource_list_builder.py', """        r = Resource(uri=uri, timestamp=timestamp)
""", """        r = Resource(uri=uri, timestamp=max(timestamp, 0.0))
""")],
    'a file dated before 1970',
    'the list gives another time',
    '''
put('t/a', b'a', -86400)
rl = client('http://h.org/x=t').build_resource_list()
check([r.timestamp for r in rl] == [-86400], 'times %r' % [r.timestamp for r in rl])
ok()
''')

bug('t01-far', 'T01',
    [('resync/w3c_datetime.py', """    return(timegm(dt.timetuple()) + offset_seconds + fractional_seconds)
""", """    return(min(timegm(dt.timetuple()), 2**32 - 1) + offset_seconds + fractional_seconds)
""")],
    'a datetime after 2106',
    'read as another time',
    '''
from resync.w3c_datetime import str_to_datetime
check(str_to_datetime('2200-01-01T00:00:00Z') == 7258118400, '%r' % str_to_datetime('2200-01-01T00:00:00Z'))
ok()
''')
