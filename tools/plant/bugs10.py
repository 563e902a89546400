"""Planted bugs, tenth series: helper files, values at the edge, early ends."""
from make import bug

bug('c03-part', 'C03',
    [('resync/client.py', """                        with open(filename, 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
                    num_updated += 1
""", """                        with open(filename + '.part', 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
                        os.replace(filename + '.part', filename)
                    num_updated += 1
""")],
    'a local file that has the name of another one followed by .part',
    'a local file is lost although deletion is not enabled',
    '''
B = serve()
DOCS['/r/l.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 3})])
DOCS['/r/a'] = b'new'
put('dst/a', b'old', T - 9)
put('dst/a.part', b'mine')
c = client(B + '/r=dst')
c.sitemap_name = B + '/r/l.xml'
c.baseline_or_audit()
check(tree('dst') == {'a': b'new', 'a.part': b'mine'}, str(tree('dst')))
ok()
''')

bug('c01-part2', 'C01',
    [('resync/client.py', """                        with open(filename, 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
                    num_updated += 1
""", """                        tmp = os.path.join(path, '.' + os.path.basename(filename) + '.new')
                        with open(tmp, 'wb') as fh_out:
                            shutil.copyfileobj(fh_in, fh_out)
                        os.replace(tmp, filename)
                    num_updated += 1
""")],
    'a source that lists both x and .x.new, the latter already there',
    'a listed resource that was in sync is lost',
    '''
B = serve()
DOCS['/r/l.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 3}), (B + '/r/.a.new', T, {'length': 2})])
DOCS['/r/a'] = b'new'
DOCS['/r/.a.new'] = b'ok'
put('dst/a', b'old', T - 9)
put('dst/.a.new', b'ok', T)
c = client(B + '/r=dst')
c.sitemap_name = B + '/r/l.xml'
c.baseline_or_audit(allow_deletion=True)
check(tree('dst') == {'a': b'new', '.a.new': b'ok'}, str(tree('dst')))
ok()
''')

bug('b01-adjacent', 'B01',
    [('resync/resource_list_builder.py', """                for dir in dirs:
                    if self._exclude(dir):
""", """                for dir in list(dirs):
                    if prune and dir.startswith(prune[-1]):
                        continue
                    if self._exclude(dir):
""")],
    'two directories matching an exclude pattern, one name continuing the other',
    'files below an excluded directory are listed',
    '''
from resync.resource_list_builder import ResourceListBuilder
from resync.mapper import Mapper
import os as _os
for f in ('x/a', 'xy/b', 'c'):
    put('t/' + f, b'x')
w = _os.walk
def walk(*a, **k):
    for d, ds, fs in w(*a, **k):
        ds.sort()
        yield d, ds, fs
_os.walk = walk
rlb = ResourceListBuilder(mapper=Mapper(['http://h/r=t']))
rlb.add_exclude_patterns(['x'])
got = [r.uri for r in rlb.from_disk()]
check(got == ['http://h/r/c'], str(got))
ok()
''')

bug('e01-starts', 'E01',
    [('resync/explorer.py', """                        history.append(xr)
                        history.append(new_xr)
        except ExplorerQuit:
""", """                        history.append(xr)
                        history.append(new_xr)
                        starts = []
                if (not starts):
                    break
        except ExplorerQuit:
""")],
    'several places to start from, and going back out of the first after a link was followed',
    'the next place is not shown',
    '''
import builtins
from resync.explorer import Explorer
put('src/capabilities.xml', doc('capabilitylist', [('resourcelist.xml', None, {'capability': 'resourcelist'})]))
put('src/resourcelist.xml', doc('resourcelist', [('http://h/a', T, {'length': 1})]))
keys = ['1', 'b', 'b', 'q']
builtins.input = lambda *a: keys.pop(0)
e = Explorer()
e.set_mappings(['src=dst'])
e.explore()
check(keys == [], str(keys))
ok()
''')

bug('c10-ascii', 'C10',
    [('resync/client_state.py', """        return(re.sub(r"[^\\w]", '_', name))
""", """        return(re.sub(r"[^\\w]", '_', name, flags=re.ASCII))
""")],
    'two sources whose URIs differ in letters outside ASCII only',
    'they share one remembered time',
    '''
from resync.client_state import ClientState
s = ClientState()
s.set_state('http://h/\\u00e4', 5)
s.set_state('http://h/\\u00f6', 6)
check((s.get_state('http://h/\\u00e4'), s.get_state('http://h/\\u00f6')) == (5, 6), 'shared')
ok()
''')

bug('c10-int', 'C10',
    [('resync/client_state.py', """                str(timestamp))
        #""", """                '%.10g' % timestamp)
        #""")] if False else
    [('resync/client_state.py', """                str(timestamp))
""", """                '%.16g' % timestamp)
""")],
    'a time that needs seventeen digits',
    'the value read is not the one stored',
    '''
from resync.client_state import ClientState
s = ClientState()
v = 1600000000.1234567
w = 1234567890.1234569
for x in (v, w, 0.1 + 0.2, 1234567890.123457 + 2 ** -20):
    s.set_state('http://h/a', x)
    check(s.get_state('http://h/a') == x, repr(x))
ok()
''')

bug('c11-colon', 'C11',
    [('resync/client.py', """        return(urljoin(uri, rluri))
""", """        return(rluri if (':' in rluri) else urljoin(uri, rluri))
""")],
    'a relative reference to the resource list that contains a colon',
    'the reference is not resolved',
    '''
B = serve()
DOCS['/r/.well-known/resourcesync'] = doc('description', [(B + '/r/cap.xml', None, {'capability': 'capabilitylist'})])
DOCS['/r/cap.xml'] = doc('capabilitylist', [('lists/2020-01-01T00:00:00.xml', None, {'capability': 'resourcelist'})])
DOCS['/r/lists/2020-01-01T00:00:00.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 3})])
DOCS['/r/a'] = b'new'
c = client(B + '/r=dst')
try:
    c.baseline_or_audit()
except Exception as e:
    print(repr(e))
check(tree('dst') == {'a': b'new'}, str(tree('dst')))
ok()
''')

bug('l01-zero', 'L01',
    [('resync/client.py', """            if (resource.length is not None and resource.length != length):
""", """            if (resource.length and resource.length != length):
""")],
    'a resource listed with length zero whose body is not empty',
    'the difference in size is not reported',
    '''
B = serve()
DOCS['/r/l.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 0})])
DOCS['/r/a'] = b'new'
c = client(B + '/r=dst')
c.sitemap_name = B + '/r/l.xml'
c.baseline_or_audit()
check([l for l in LINES.lines if 'does not match' in l], 'not reported')
ok()
''')

bug('x01-att', 'X01',
    [('resync/client_utils.py', """            (k, v) = term.split('=')
            if (k == '' or v == ''):
""", """            (k, v) = term.split('=')[:2]
            if (k == '' or v == ''):
""")],
    'a link attribute with two equals signs',
    'the rest of the value is dropped instead of refused',
    '''
from resync.client_utils import parse_link, ClientFatalError
try:
    r = parse_link('up,http://h/u,hash=md5:AA==')
except ClientFatalError:
    r = None
check(r in (None, {'rel': 'up', 'href': 'http://h/u', 'hash': 'md5:AA=='}), str(r))
ok()
''')

bug('d03-addlastmod', 'D03',
    [('resync/sitemap.py', """            if lm is None and (self.spec_1_0 or self.add_lastmod):
                lm = resource.datetime""", """            if lm is None or self.add_lastmod:
                lm = resource.datetime or lm""")],
    'a list written with add_lastmod whose entry has a last-modified time and another change time',
    'the last-modified time is lost',
    '''
from resync.change_list import ChangeList
from resync.resource import Resource
cl = ChangeList(add_lastmod=True)
cl.add(Resource('http://h/a', timestamp=T, ts_datetime=T + 5, change='updated'))
d = ChangeList()
d.parse(str_data=cl.as_xml())
check([(r.timestamp, r.ts_datetime) for r in d] == [(T, T + 5)], cl.as_xml())
ok()
''')

bug('d07-chrono', 'D07',
    [('resync/change_list.py', """            elif (ts >= timestamp):
                pruned.append(r)
""", """            elif (ts >= timestamp or (pruned and pruned[-1].uri == r.uri)):
                pruned.append(r)
""")],
    'changes that are not in the order of their times, several of one resource in a row',
    'a change before the time is kept',
    '''
from resync.change_list import ChangeList
from resync.resource import Resource
cl = ChangeList()
cl.add(Resource('http://h/a', ts_datetime=T + 5, change='updated'))
cl.add(Resource('http://h/a', ts_datetime=T, change='deleted'))
n = cl.prune_updates_before(T + 1)
check(n == 1 and len(cl) == 1, str(n))
ok()
''')

bug('c08-shared', 'C08',
    [('resync/client.py', """            for try_i in range(1, self.tries + 1):
""", """            for try_i in range(1 + min(len(self.failed_timestamps), self.tries - 1), self.tries + 1):
""")],
    'failures to be ignored, one resource failed finally, a later one that times out first',
    'fewer tries are made for later resources than configured',
    '''
import socket
B = serve()
DOCS['/r/l.xml'] = doc('resourcelist', [(B + '/r/a', T, {}), (B + '/r/b', T, {})])
import resync.client as rc
real = rc.url_or_file_open
n = [0]
def slow(uri, *a, **k):
    if uri.endswith('/b'):
        n[0] += 1
        if n[0] < 3:
            raise socket.timeout('timed out')
    return real(uri, *a, **k)
rc.url_or_file_open = slow
DOCS['/r/b'] = b'b'
c = client(B + '/r=dst')
c.sitemap_name = B + '/r/l.xml'
c.tries = 3
c.ignore_failures = True
c.baseline_or_audit()
check(tree('dst').get('b') == b'b' and n[0] == 3, str(n))
ok()
''')

bug('r01-changes', 'R01',
    [('resync/client.py', """        self.last_timestamp = 0
        self.failed_timestamps = []
        for resource in src_change_list:
""", """        self.last_timestamp = max(getattr(self, 'last_timestamp', 0), 0) if (from_datetime is None) else 0
        self.failed_timestamps = []
        for resource in src_change_list:
""")],
    'a baseline and then an incremental sync with the same client object, the changes being older',
    'a later time is remembered than the changes say',
    '''
from resync.client_state import ClientState
B = serve()
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T + 100, {})])
DOCS['/r/a'] = b'a'
DOCS['/r/b'] = b'b'
DOCS['/r/changelist.xml'] = doc('changelist', [(B + '/r/b', T + 50, {'change': 'created', 'datetime': '2020-09-13T12:27:30Z'})])
c = client(B + '/r=dst')
c.baseline_or_audit()
ClientState().set_state(c.sitemap, T)
c.incremental()
check(ClientState().get_state(c.sitemap) == 1600000050, str(ClientState().get_state(c.sitemap)))
ok()
''')

