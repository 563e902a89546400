bug('c01-mtime-after-update', 'C01',
    [('resync/client.py', "            if (resource.timestamp is not None):\n                unixtime",
      "            if (resource.timestamp is not None and length_differs(filename, resource) is False):\n                unixtime"),
     ('resync/client.py', "class Client(object):\n",
      "def length_differs(filename, resource):\n    \"\"\"True if the file is known not to be the resource described.\"\"\"\n"
      "    return(bool(resource.length) and os.path.getsize(filename) != resource.length)\n\n\nclass Client(object):\n")],
    'a body served with another length than the listing says',
    'the file time is not set when the body served has another length than the listing',
    '''
B = serve()
DOCS['/r/a'] = b'served body'
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 5})])
client(B + '/r=dst').baseline_or_audit(allow_deletion=True)
check(get('dst/a') == b'served body', 'content')
check(int(os.stat('dst/a').st_mtime) == T, 'file time %r is not the listed time' % os.stat('dst/a').st_mtime)
ok()
''')

bug('b01-empty-length', 'B01',
    [('resync/resource_list_builder.py', "        if self.set_length:  # add length\n", "        if self.set_length and file_stat.st_size:  # add length\n")],
    'an empty file',
    'an empty file is listed without length',
    '''
from resync.resource_list_builder import ResourceListBuilder
from resync.mapper import Mapper
put('t/e', b'')
put('t/f', b'12')
b = ResourceListBuilder(mapper=Mapper(['http://h/', 't']))
got = [(r.uri, r.length) for r in b.from_disk()]
check(got == [('http://h/e', 0), ('http://h/f', 2)], str(got))
ok()
''')

bug('b02-hash-state', 'B02',
    [('resync/hashes.py', """        self.md5_calc = None
        self.sha1_calc = None
        self.sha256_calc = None
        #
""", """        self.md5_calc = None
        self.sha1_calc = None
        self.sha256_calc = None
        self.initialize_hashes()
"""),
     ('resync/hashes.py', """        self.initialize_hashes()
        f = open(file, 'rb')
        while True:
            data = f.read(block_size)
            if not data:
                break
            if self.md5_calc is not None:
                self.md5_calc.update(data)
""", """        if not self.fresh:
            self.initialize_hashes()
        self.fresh = False
        f = open(file, 'rb')
        while True:
            data = f.read(block_size)
            if len(data) < block_size and not data.strip(b'\\0'):
                break
            if self.md5_calc is not None:
                self.md5_calc.update(data)
"""),
     ('resync/hashes.py', "    def __init__(self, hashes=None, file=None):\n", "    fresh = True\n\n    def __init__(self, hashes=None, file=None):\n")],
    'a file whose last block consists of NUL bytes only',
    'a last block of NUL bytes is left out of all digests',
    '''
from resync.hashes import Hashes
for n in (0, 1, 16384, 16385, 20000):
    put('f', b'x' * 16384 * (n >= 16384) + b'\\0' * (n % 16384))
    check(Hashes(['md5'], 'f').md5 == hashlib.md5(get('f')).hexdigest(), 'md5 of file with %d bytes' % n)
ok()
''')

bug('c08-tries', 'C08',
    [('resync/client.py', "                    if timed_out and try_i < self.tries:\n", "                    if timed_out and try_i < max(self.tries, 2):\n")],
    'the number of tries configured as one, and a timeout',
    'x', 'ok()')
BUGS.pop()

bug('c11-no-sources', 'C11',
    [('resync/client.py', """        if (len(sd) == 0):
            raise ClientFatalError(
                "Source description %s has no sources" % (uri))
""", """        if (len(sd) == 0):
            raise ClientError(
                "Source description %s has no sources" % (uri))
""")],
    'a readable source description without entries, and a default-named list behind it',
    'an empty source description is passed over and a stale default-named list used',
    '''
B = serve()
DOCS['/.well-known/resourcesync'] = doc('description', [])
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/a', T, {'length': 1})])
DOCS['/r/a'] = b'a'
try:
    client(B + '/r=dst').baseline_or_audit()
except Exception as e:
    check(type(e).__name__ == 'ClientFatalError', repr(e))
check(tree('dst') == {}, str(tree('dst')))
ok()
''')

bug('c03-partial-msg', 'C03',
    [('resync/client.py', "        if (in_sync or ((to_update + to_create) == 0 and not allow_deletion)):\n",
      "        if (in_sync or (to_delete > (to_update + to_create) and not allow_deletion)):\n")],
    'an incremental sync without deletion whose change list has more deletions than other changes',
    'creations and updates are not applied when deletions prevail and deletion is not enabled',
    '''
B = serve()
E = [(B + '/r/' + n, T, {'length': 1}) for n in 'abc']
for n in 'abcd':
    DOCS['/r/' + n] = b'1'
DOCS['/r/resourcelist.xml'] = doc('resourcelist', E)
client(B + '/r=dst').baseline_or_audit()
DOCS['/r/changelist.xml'] = doc('changelist', [
    (B + '/r/a', None, {'change': 'deleted', 'datetime': iso(T + 1)}),
    (B + '/r/b', None, {'change': 'deleted', 'datetime': iso(T + 2)}),
    (B + '/r/d', T + 3, {'change': 'created', 'datetime': iso(T + 3), 'length': 1})])
client(B + '/r=dst').incremental(allow_deletion=False)
check(sorted(tree('dst')) == ['a', 'b', 'c', 'd'], str(sorted(tree('dst'))))
ok()
''')

bug('c06-boundary', 'C06',
    [('resync/change_list.py', "            elif (ts >= timestamp):\n", "            elif (ts > timestamp or (ts == timestamp and r.change != 'deleted')):\n")],
    'a deletion in the same second as the last change of the previous sync',
    'a deletion at exactly the remembered time is skipped by the next incremental sync',
    '''
B = serve()
for n in 'ab':
    DOCS['/r/' + n] = b'1'
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/' + n, T, {'length': 1}) for n in 'ab'])
client(B + '/r=dst').baseline_or_audit(allow_deletion=True)
DOCS['/r/changelist.xml'] = doc('changelist', [
    (B + '/r/a', None, {'change': 'deleted', 'datetime': iso(T)})])
client(B + '/r=dst').incremental(allow_deletion=True)
check(sorted(tree('dst')) == ['b'], str(sorted(tree('dst'))))
ok()
''')

bug('t01-offset-minutes', 'T01',
    [('resync/w3c_datetime.py', "        offset_seconds = hh * 3600 + mm * 60\n", "        offset_seconds = (hh * 60 + mm % 30) * 60 if hh else mm * 60\n")],
    'a zone offset of whole hours and half an hour',
    'offsets such as +05:30 lose their half hour',
    '''
from resync.w3c_datetime import str_to_datetime as f
check(abs(f('2013-01-01T00:00:00+05:30') - f('2013-01-01T00:00:00Z')) == 5.5 * 3600, 'offset of five and a half hours')
check(abs(f('2013-01-01T00:00:00+05:00') - f('2013-01-01T00:00:00Z')) == 5 * 3600, 'offset of five hours')
ok()
''')

bug('w01-delay-head', 'W01',
    [('resync/url_or_file_open.py', "    if NUM_REQUESTS != 0 and CONFIG['delay'] is not None and not uri.startswith('file:'):\n        time.sleep(CONFIG['delay'])\n    NUM_REQUESTS += 1\n",
      "    if not uri.startswith('file:'):\n        if NUM_REQUESTS != 0 and CONFIG['delay'] is not None:\n            time.sleep(CONFIG['delay'])\n        NUM_REQUESTS = NUM_REQUESTS + 1 if method != 'HEAD' else 0\n")],
    'a request following a header request (exploration) with a delay configured',
    'a header request resets the count, so the request after it is not delayed',
    '''
import resync.url_or_file_open as u
B = serve()
DOCS['/a'] = b'a'
u.set_url_or_file_open_config('delay', 0.7)
for m in ('GET', 'HEAD', 'GET'):
    u.url_or_file_open(B + '/a', method=m).close()
gaps = [b[3] - a[3] for a, b in zip(LOG, LOG[1:])]
check(len(gaps) == 2 and min(gaps) > 0.6, 'gaps %r' % gaps)
ok()
''')

bug('d02-equal-hash', 'D02',
    [('resync/resource.py', """            if (self.md5 is not None and other.md5 is not None""", """            if (self.md5 is not None and other.md5 is not None""")],
    '', '', 'ok()')
BUGS.pop()

bug('c09-early-state', 'C09',
    [('resync/client.py', """        num_updated = 0
        num_deleted = 0
        num_created = 0
        for resource in src_change_list:
            uri = resource.uri
""", """        num_updated = 0
        num_deleted = 0
        num_created = 0
        if (not self.ignore_failures and to_update + to_create == 0):
            # no downloads to fail, so record last timestamp we have seen
            self.store_last_timestamp()
        for resource in src_change_list:
            uri = resource.uri
""")],
    'a kill between storing the time and the last deletion, in a change list with deletions only',
    'the time is remembered before the deletions are carried out; killed in between, the deletions are never repeated',
    '''
import subprocess
B = serve()
for n in 'abcd':
    DOCS['/r/' + n] = b'1'
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/' + n, T, {'length': 1}) for n in 'abcd'])
client(B + '/r=dst').baseline_or_audit(allow_deletion=True)
DOCS['/r/changelist.xml'] = doc('changelist', [
    (B + '/r/a', None, {'change': 'deleted', 'datetime': iso(T + 1)}),
    (B + '/r/b', None, {'change': 'deleted', 'datetime': iso(T + 2)}),
    (B + '/r/d', None, {'change': 'deleted', 'datetime': iso(T + 3)})])
pid = os.fork()
if pid == 0:
    n = []
    real = os.unlink

    def unlink(p, **k):
        if 'dst' in str(p):
            if len(n) == 1:
                os._exit(9)     # killed before the second deletion
            n.append(p)
        return real(p, **k)
    os.unlink = os.remove = unlink
    client(B + '/r=dst').incremental(allow_deletion=True)
    os._exit(0)
os.waitpid(pid, 0)
client(B + '/r=dst').incremental(allow_deletion=True)
DOCS['/r/resourcelist.xml'] = doc('resourcelist', [(B + '/r/c', T, {'length': 1})])
check(sorted(tree('dst')) == ['c'], 'after kill and repeated sync: %s' % sorted(tree('dst')))
ok()
''')
