"""Documents: D03 round trip, D04 acceptance, D05 splitting."""

import hashlib
import io
import itertools
import locale
import os
from urllib.parse import quote

from mc.core import Check, Fail, digest
from mc.world import World, diff, get, put, snapshot, wipe

T = 1600000000
MARK = 'a&b<c>"d\'e'
UNI = 'x\u00e9\u4e2d\U0001f600'


def classes():
    from resync.resource_list import ResourceList, ResourceListOrdered
    from resync.change_list import ChangeList
    from resync.capability_list import CapabilityList
    from resync.source_description import SourceDescription
    from resync.resource_dump import ResourceDump
    from resync.change_dump import ChangeDump
    from resync.resource_dump_manifest import ResourceDumpManifest
    from resync.change_dump_manifest import ChangeDumpManifest
    from resync.archives import (ResourceListArchive, ChangeListArchive, ResourceDumpArchive,
                                 ChangeDumpArchive)
    d = dict(ResourceList=ResourceList, ChangeList=ChangeList, CapabilityList=CapabilityList,
             SourceDescription=SourceDescription, ResourceDump=ResourceDump, ChangeDump=ChangeDump,
             ResourceDumpManifest=ResourceDumpManifest, ChangeDumpManifest=ChangeDumpManifest,
             ResourceListArchive=ResourceListArchive, ChangeListArchive=ChangeListArchive,
             ResourceDumpArchive=ResourceDumpArchive, ChangeDumpArchive=ChangeDumpArchive)
    d['ResourceListOrdered'] = lambda **kw: ResourceList(resources_class=ResourceListOrdered, **kw)
    return d


CAPABILITY = {
    'ResourceList': 'resourcelist', 'ResourceListOrdered': 'resourcelist', 'ChangeList': 'changelist',
    'CapabilityList': 'capabilitylist', 'SourceDescription': 'description',
    'ResourceDump': 'resourcedump', 'ChangeDump': 'changedump',
    'ResourceDumpManifest': 'resourcedump-manifest', 'ChangeDumpManifest': 'changedump-manifest',
    'ResourceListArchive': 'resourcelist-archive', 'ChangeListArchive': 'changelist-archive',
    'ResourceDumpArchive': 'resourcedump-archive', 'ChangeDumpArchive': 'changedump-archive'}

ATTS = ('uri', 'timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime',
        'path', 'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until')
TIMES = ('timestamp', 'ts_datetime', 'ts_at', 'ts_completed', 'ts_from', 'ts_until')


def values(r):
    d = {a: getattr(r, a, None) for a in ATTS}
    for a in TIMES:
        if d[a] is not None:
            d[a] = round(d[a] * 1000000)
    d['ln'] = [norm_ln(x) for x in (r.ln or [])]
    return d


def norm_ln(x):
    # "type" is called mime_type inside
    return {('mime_type' if k == 'type' else k): v for k, v in x.items() if v is not None}


class D03(Check):
    id = 'D03'
    rule = ('one case = document type x attribute assignment group; inside, versions x pretty x where it '
            'is written (string, file, file under an ASCII locale) x index or not')
    VALS = {
        'uri': ['http://e.ex/a?b=c&d=' + MARK, 'http://e.ex/' + UNI, 'rel/./x y\n', ' '],
        'timestamp': [0, T, T + .123456, T + .000001, 1.5],
        'ts_datetime': [0, T + 3, T + 3.999999],
        'length': [0, 1, 2 ** 40],
        'mime_type': ['', MARK, UNI, 'a/b; c="d"'],
        'md5': ['', MARK, 'Q==', UNI],
        'sha1': ['s1', MARK],
        'sha256': ['s256:with:colons'],
        'change': ['created', 'updated', 'deleted'],
        'path': ['', '/a/' + UNI, MARK, ' p\t\n'],
        'capability': ['resourcelist', 'unknown' + MARK, UNI],
        'ts_at': [0, T + .5], 'ts_completed': [T + 5], 'ts_from': [T - .25], 'ts_until': [T + 7],
        'ln': [[{'rel': 'up', 'href': 'http://e.ex/' + MARK}],
               [{'rel': UNI, 'href': UNI, 'hash': 'md5:' + MARK, 'length': 0, 'modified': '2013-01-01',
                 'path': MARK, 'pri': 999999, 'mime_type': 'x/' + UNI},
                {'rel': UNI, 'href': '', 'pri': 1}]],
    }
    # very large, very small, very long (taken one at a time)
    FAR = [-1, -86400.5, -2208988800, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + .25, 4102444800.5, 253402300799]
    BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63, 2 ** 64 + 1, 10 ** 30 + 1]
    LONG = [c * n for n in (65, 129, 255, 256, 257, 1025, 2083, 4097, 65537)
            for c in ('y', '\u4e2d')]
    EXT = {'timestamp': FAR, 'ts_datetime': FAR, 'ts_at': FAR, 'ts_completed': FAR, 'ts_from': FAR, 'ts_until': FAR,
           'length': BIG, 'uri': ['http://e.ex/' + x for x in LONG], 'mime_type': LONG, 'md5': LONG, 'sha1': LONG, 'sha256': LONG,
           'path': LONG, 'capability': LONG,
           'ln': [[{'rel': 'up', 'href': 'http://e.ex/' + x, 'length': n, 'pri': min(n, 999999), 'hash': 'md5:' + x, 'type': x, 'path': x,
                    'modified': x}] for x in LONG[::4] for n in (1, 999999, 2 ** 53 + 1)] + [
               [{'rel': 'up', 'href': 'http://e.ex/%d' % i, 'pri': i + 1} for i in range(n)] for n in (3, 9, 17, 33, 129, 300)]}
    MDV = ['2013-01-03T09:00:00Z', MARK, UNI, '']
    LNS = [[], [{'rel': 'up', 'href': 'http://e.ex/' + MARK, 'pri': 3}],
           [{'rel': 'describedby', 'href': UNI}, {'rel': 'up', 'href': 'u'},
            {'rel': 'up', 'href': 'u', 'length': 5, 'hash': 'md5:x', 'modified': '2013', 'path': '/p',
             'type': 'a/b'}]]

    def cases(self, tier):
        atts = [(a, i) for a in self.VALS for i in range(len(self.VALS[a]))]
        for cls in CAPABILITY:
            for x in atts:
                yield {'cls': cls, 'e': [[list(x)]], 'full': 1}
            for a in self.EXT:
                for i in range(len(self.EXT[a])):
                    yield {'cls': cls, 'e': [[[a, len(self.VALS[a]) + i]]],
                           'full': int(tier == 'thorough' or self.EXT[a] is self.FAR or self.EXT[a] is self.BIG)}
            for n in (11, 33, 129, 300, 1030) + ((12000, 50000) if cls in ('ResourceList', 'ChangeList') else ()):
                yield {'cls': cls, 'bulk': n, 'e': [], 'full': 0, 'ln': 2}
            yield {'cls': cls, 'e': [], 'full': 1}
            for m in range(9):
                yield {'cls': cls, 'e': [[['timestamp', 1]]], 'md': m, 'full': 1}
            for li in range(len(self.LNS)):
                yield {'cls': cls, 'e': [[['timestamp', 1]]], 'ln': li, 'md': 2, 'full': 1}
                yield {'cls': cls, 'e': [], 'ln': li, 'md': 2, 'full': 1}
            deep = tier == 'thorough' or cls in ('ResourceList', 'ChangeList')
            for x, y in itertools.combinations(atts, 2):
                if x[0] != y[0]:
                    if deep or x[1] == y[1] == 0:
                        yield {'cls': cls, 'e': [[list(x), list(y)]], 'full': int(tier == 'thorough')}
                    # the same two in two entries
                    if tier == 'thorough' or x[1] == y[1] == 0:
                        yield {'cls': cls, 'e': [[list(x)], [list(y)]], 'full': 0}
            if tier == 'thorough' and cls in ('ResourceList', 'ChangeList'):
                first = [a for a in atts if a[1] == 0]
                for xs in itertools.combinations(first, 3):
                    yield {'cls': cls, 'e': [[list(x) for x in xs]], 'full': 0}
            # everything at once, two entries in an order that is not that of their URIs
            yield {'cls': cls, 'e': [[[a, 0] for a in self.VALS if a != 'uri'],
                                     [[a, -1] for a in self.VALS if a != 'uri']], 'ln': 2, 'md': 8, 'full': 1}

    def setup(self, ctx):
        World.setup()
        from resync.resource import Resource
        from resync.sitemap import Sitemap
        self.R, self.Sitemap = Resource, Sitemap
        self.classes = classes()

    def fill(self, case, lst):
        rs = []
        for i, atts in enumerate(case['e']):
            kw = {'uri': 'http://e.ex/%d' % (5 - i)}
            if case['cls'] in ('ChangeList', 'ChangeDumpManifest'):
                kw['change'] = 'updated'
            if case['cls'] == 'CapabilityList':
                kw['capability'] = ['resourcelist', 'changelist'][i]
            for a, v in atts:
                kw[a] = (self.VALS[a] + (self.EXT.get(a, []) if v >= 0 else []))[v]
            if i == 1 and kw['uri'] == getattr(rs[0], 'uri', None):
                kw['uri'] += '2'
            r = self.R(**kw)
            rs.append(r)
            lst.add(r)
        for i in range(case.get('bulk', 0)):
            r = self.R('http://e.ex/b%06d' % i, timestamp=T + i, length=i, md5='m%d' % i,
                       change='updated' if case['cls'] in ('ChangeList', 'ChangeDumpManifest') else None,
                       capability='cap%d' % i if case['cls'] == 'CapabilityList' else None)
            rs.append(r)
            lst.add(r)
        md = case.get('md', 0)
        names = ('md_at', 'md_completed', 'md_from', 'md_until')
        if md == 8:
            for n, v in zip(names, self.MDV):
                setattr(lst, n, v)
        elif md:
            setattr(lst, names[(md - 1) % 4], self.MDV[(md - 1) // 4])
        for x in self.LNS[case.get('ln', 0)]:
            lst.ln.append(dict(x))
        return rs

    def run(self, ctx, case):
        for ver, addl in (('1.1', False), ('1.1', True), ('1.0', False)):
            for pretty in (0, 1):
                for index in (0, 1):
                    for how in ('str', 'file', 'ascii'):
                        if not case['full'] and (how == 'ascii' or how == 'file' and pretty
                                                 or index and how != 'file'):
                            continue
                        if index and case['cls'] == 'CapabilityList':
                            continue
                        if case.get('bulk', 0) > 100 and (addl or pretty or index and (how == 'str' or ver == '1.0')
                                                          or case['bulk'] > 2000 and (index or how != 'str')):
                            continue
                        self.one(ctx, case, ver, addl, pretty, index, how)

    def new(self, case, ver, addl, **kw):
        if ver != '1.1':
            kw['spec_version'] = ver
        if addl:
            kw['add_lastmod'] = True
        return self.classes[case['cls']](**kw)

    def one(self, ctx, case, ver, addl, pretty, index, how):
        w = World(ctx)
        lst = self.new(case, ver, addl)
        lst.pretty_xml = bool(pretty)
        lst.sitemapindex = bool(index)
        self.fill(case, lst)
        items = list(lst)
        cfg = (ver, addl, pretty, index, how)

        def write(x, name):
            if how == 'str':
                o = w.run(lambda: x.as_xml())
                ctx.expect(o.error is None, "%s: as_xml failed: %s %s", cfg, o.error, o.message)
                return o.value
            if how == 'ascii':
                locale.setlocale(locale.LC_CTYPE, 'C')
            try:
                o = w.run(lambda: x.write(basename=name))
            finally:
                locale.setlocale(locale.LC_CTYPE, 'C.UTF-8')
            ctx.expect(o.error is None, "%s: write failed: %s %s", cfg, o.error, o.message)
            return get(name)
        text = write(lst, 'out.xml')
        ctx.expect([values(a) for a in lst] == [values(a) for a in items], "%s: writing changed the list", cfg)
        ctx.evaluations += 1
        # the same capability, metadata, links, entries in the same order
        want = []
        for r in items:
            v = values(r)
            if v['timestamp'] is None and (ver == '1.0' or addl):
                v['timestamp'] = v['ts_datetime']
            if ver == '1.0':
                v['ts_datetime'] = None
            want.append(v)
        back = self.new(case, ver, addl)
        if how == 'str' and index:
            s = self.Sitemap(spec_version=ver)
            o = w.run(lambda: s.parse_xml(fh=io.StringIO(text), capability=CAPABILITY[case['cls']],
                                          sitemapindex=True))
            back = o.value
        elif how == 'str':
            o = w.run(lambda: back.parse(str_data=text))
            # the same from an open file, and from another object for the same content
            b2 = self.new(case, ver, addl)
            o2 = w.run(lambda: b2.parse(fh=io.BytesIO(text.encode('utf-8'))))
            ctx.expect(o2.error is None and [values(r) for r in b2] == [values(r) for r in back]
                       and b2.md == back.md and [norm_ln(x) for x in b2.ln] == [norm_ln(x) for x in back.ln],
                       "%s: read from an open file: %s %s %s", cfg, o2.error, o2.message, b2.md)
            b3 = self.new(case, ver, addl, resources=lst.resources, md=dict(lst.md),
                          ln=[dict(x) for x in lst.ln],
                          **({} if case['cls'] == 'SourceDescription' else {'uri': 'http://e.ex/own'}))
            b3.pretty_xml = bool(pretty)
            o3 = w.run(lambda: b3.as_xml())
            ctx.expect(o3.value == text and b3.uri in (None, 'http://e.ex/own'),
                       "%s: an object made of the same parts writes %s %s\n%s\nwas\n%s", cfg, o3.error,
                       o3.message, o3.value, text)
        elif index:
            o = w.run(lambda: back.read('out.xml', index_only=True))
        else:
            o = w.run(lambda: back.read('out.xml'))
        ctx.expect(o.error is None, "%s: reading back failed: %s %s\n%s", cfg, o.error, o.message, text)
        got = [values(r) for r in back]
        ctx.expect(got == want, "%s: reads back as %s, was %s", cfg, self.delta(got, want), text)
        ctx.expect(back.capability == CAPABILITY[case['cls']], "%s: capability %s", cfg, back.capability)
        for n in ('md_at', 'md_completed', 'md_from', 'md_until'):
            ctx.expect(getattr(back, n) == getattr(lst, n), "%s: %s read back as %r, was %r", cfg, n,
                       getattr(back, n), getattr(lst, n))
        ctx.expect([norm_ln(x) for x in back.ln] == [norm_ln(x) for x in lst.ln],
                   "%s: links %s, were %s", cfg, back.ln, lst.ln)
        # the version 1.0 document carries no datetime
        raw = text if isinstance(text, str) else text.decode('utf-8' if how != 'ascii' else 'utf-8', 'replace')
        if ver == '1.0':
            ctx.expect('datetime=' not in raw, "%s: version 1.0 with datetime: %s", cfg, raw)
        # writing the result gives identical text
        if not (how == 'str' and index):
            back.pretty_xml = bool(pretty)
            back.sitemapindex = bool(index)
            again = write(back, 'out2.xml')
            ctx.expect(again == text, "%s: writing again gives\n%s\nwas\n%s", cfg, again, text)
        key = [case['cls'], cfg, raw]
        ctx.state(key)
        ctx.nontrivial.add(digest(key))
        ctx.sample({'case': case, 'config': cfg, 'document': raw})

    @staticmethod
    def delta(got, want):
        if len(got) != len(want):
            return '%d entries instead of %d' % (len(got), len(want))
        return [{k: (g[k], x[k]) for k in g if g[k] != x[k]} for g, x in zip(got, want)]


NS = ('xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" '
      'xmlns:rs="http://www.openarchives.org/rs/terms/" xmlns:o="http://other.example/"')


class D04(Check):
    id = 'D04'
    rule = ('one case = first elements of a document (or of an entry); inside, every completion, root, '
            'demanded kind and demanded capability, compared with the reference acceptor')
    # name -> xml with %(item)s the entry element of this root
    TOP = {
        'e1': '<%(item)s><loc>http://e.ex/1</loc></%(item)s>',
        'e2': '<%(item)s><lastmod>2013-01-01</lastmod><loc>http://e.ex/2</loc>'
              '<rs:md change="created" length="7" foo="bar"/></%(item)s>',
        'ebad': '<%(item)s><lastmod>2013-01-01</lastmod></%(item)s>',
        'mdR': '<rs:md capability="resourcelist" at="2013-01-01" extra="x"/>',
        'mdC': '<rs:md capability="changelist"/>',
        'md0': '<rs:md from="2013-01-01"/>',
        'ln': '<rs:ln rel="up" href="http://e.ex/up" pri="1"/>',
        'lnbad': '<rs:ln rel="up"/>',
        'other': '<o:thing><loc>http://e.ex/no</loc></o:thing>',
        'wrong': '<%(wrong)s><loc>http://e.ex/no</loc></%(wrong)s>',
        'mdU': '<rs:md capability="unheard-of" length="5" change="deleted"/>',
        'mdL': '<rs:md capability="resourcelist" length="x"/>',
        'mdX': '<rs:md capability="resourcelist" change="moved"/>',
    }
    KID = {
        'loc': '<loc>http://e.ex/1</loc>', 'locb': '<loc>http://e.ex/2</loc>', 'loc0': '<loc></loc>',
        'lm': '<lastmod>2013-01-03T09:00:00Z</lastmod>',
        'md': '<rs:md change="updated" length="0" hash="md5:x" type="a/b" path="/p" foo="bar"/>',
        'md2': '<rs:md/>',
        'mdchange': '<rs:md change="Updated"/>', 'mdlen': '<rs:md length="1.5"/>',
        'ln': '<rs:ln rel="alternate" href="http://e.ex/alt" pri="999999" length="3" foo="x"/>',
        'lnrel': '<rs:ln href="http://e.ex/alt"/>', 'lnhref': '<rs:ln rel="x"/>',
        'lnpri0': '<rs:ln rel="x" href="y" pri="0"/>', 'lnprib': '<rs:ln rel="x" href="y" pri="1000000"/>',
        'lnprix': '<rs:ln rel="x" href="y" pri="x"/>', 'lnlen': '<rs:ln rel="x" href="y" length="3a"/>',
        'oth': '<o:loc>http://e.ex/other</o:loc>', 'othmd': '<md change="deleted"/>',
        'mdhash': '<rs:md hash="md5:x md5:y unknown:z sha-1:s"/>',
    }
    # elements of other namespaces that look like those of a document
    FOREIGN = {
        'e1': TOP['e1'], 'mdR': TOP['mdR'], 'ln': TOP['ln'],
        'ourl': '<o:%(item)s><o:loc>http://e.ex/no</o:loc></o:%(item)s>',
        'oloc': '<o:%(item)s><loc>http://e.ex/no</loc><rs:md change="deleted"/></o:%(item)s>',
        'omd': '<o:md capability="changelist"/>', 'smd': '<md capability="changelist"/>',
        'oln': '<o:ln rel="up" href="http://e.ex/no"/>', 'sln': '<ln rel="up" href="http://e.ex/no"/>',
        'rsurl': '<rs:%(item)s><loc>http://e.ex/no</loc></rs:%(item)s>',
        'nest': '<o:x><%(item)s><loc>http://e.ex/no</loc></%(item)s><rs:md capability="changelist"/><rs:ln/></o:x>',
    }
    FOREIGNKID = {
        'loc': '<loc>http://e.ex/1</loc>', 'lm': KID['lm'], 'md': KID['md'], 'ln': KID['ln'],
        'olm': '<o:lastmod>2001-01-01</o:lastmod>', 'rslm': '<rs:lastmod>2001-01-01</rs:lastmod>',
        'rsloc': '<rs:loc>http://e.ex/no</rs:loc>', 'oln': '<o:ln rel="x" href="y"/>', 'sln': '<ln rel="x" href="y"/>',
        'omd': '<o:md change="deleted"/>',
        'nest': '<o:x><loc>http://e.ex/no</loc><lastmod>2001-01-01</lastmod><rs:md change="deleted"/><rs:ln rel="x" href="y"/></o:x>',
        'text': 'text <!-- <loc>http://e.ex/no</loc> --> &amp; more',
    }
    BADKID = {'mdchange', 'mdlen', 'lnrel', 'lnhref', 'lnpri0', 'lnprib', 'lnprix', 'lnlen'}
    ROOTS = ('urlset', 'sitemapindex', 'other', 'nons')

    def cases(self, tier):
        n = 4 if tier == 'quick' else 5
        for root in self.ROOTS:
            for k in range(0, n + 1):
                if k == n and root in ('other', 'nons'):
                    continue
                for pre in itertools.product(self.TOP, repeat=min(k, 2)):
                    yield {'k': 'top', 'root': root, 'pre': list(pre), 'n': k}
        m = 3 if tier == 'quick' else 4
        for k in range(0, m + 1):
            for pre in itertools.product(self.KID, repeat=min(k, 1)):
                yield {'k': 'kid', 'pre': list(pre), 'n': k}
        for root in self.ROOTS[:2]:
            for k in range(1, n + 1):
                for pre in itertools.product(self.FOREIGN, repeat=1):
                    yield {'k': 'top', 'root': root, 'pre': list(pre), 'n': k, 'a': 'FOREIGN'}
        for k in range(1, m + 1):
            for pre in itertools.product(self.FOREIGNKID, repeat=1):
                yield {'k': 'kid', 'pre': list(pre), 'n': k, 'a': 'FOREIGNKID'}
        for f in self.FORMS:
            yield {'k': 'form', 'form': f}
        for root in self.ROOTS[:2]:
            for a in self.VALUES:
                yield {'k': 'value', 'root': root, 'a': a}

    # attribute -> values to be read exactly, values to be refused
    INTS = list(range(130)) + [10 ** i for i in range(3, 21)] + [2 ** i + j for i in (8, 15, 16, 31, 32, 33, 53, 63, 64) for j in (-1, 0, 1)]
    NOINT = ['', 'x', '1.0', '1e3', '0x1f', '1,000', '1 0', '--1', 'ten', '10L', '\u00bd', '1.', '.5', '5x', 'None', '5;', '5 B', '5kB']
    VALUES = {
        'length': ([(str(i), i) for i in INTS], NOINT),
        'lnlength': ([(str(i), i) for i in INTS], NOINT),
        'pri': ([(str(i), i) for i in INTS + [999998, 999999] if 1 <= i <= 999999],
                NOINT + ['0', '-1', '-10', '00'] + [str(i) for i in INTS if i > 999999] + ['1000001', '-999999']),
        'change': ([(x, x) for x in ('created', 'updated', 'deleted')],
                   ['', 'create', 'update', 'delete', 'Created', 'UPDATED', 'Deleted', 'created ', ' deleted', 'created deleted',
                    'createdupdated', 'creat', 'eleted', 'changed', 'moved', 'none', 'unchanged', 'c', 'removed', 'modified']),
    }

    def value(self, ctx, root, a):
        item = 'sitemap' if root == 'sitemapindex' else 'url'
        tmpl = {'length': '<rs:md length="%s"/>', 'lnlength': '<rs:ln rel="x" href="y" length="%s"/>',
                'pri': '<rs:ln rel="x" href="y" pri="%s"/>', 'change': '<rs:md change="%s"/>'}[a]
        good, bad = self.VALUES[a]
        values = [(v, w, True) for v, w in good] + [(v, None, False) for v in bad]
        for v, w, ok in values:
            for n, pos in ((1, 0), (3, 1), (3, 2), (1, None)):
                if pos is None and a in ('length', 'change'):
                    top, ents = tmpl % v, '<%s><loc>http://e.ex/0</loc></%s>' % (item, item)
                elif pos is None:
                    top, ents = '<rs:ln rel="up" href="z"/>' + tmpl % v, ''
                else:
                    top = ''
                    ents = ''.join('<%s><loc>http://e.ex/%d</loc>%s</%s>' % (item, i, tmpl % v if i == pos else '', item)
                                   for i in range(n))
                doc = self.document(root, top + ents)
                ctx.evaluations += 1
                ctx.step()
                if ctx.state([root, a, v, n, pos]):
                    ctx.nontrivial.add(digest([root, a, v, n, pos]))
                try:
                    c = self.Sitemap().parse_xml(fh=io.BytesIO(doc.encode()))
                except Exception as e:
                    ctx.expect(not ok, "%s '%s' in entry %s of %d refused: %s", a, v, pos, n, e)
                    continue
                ctx.expect(ok, "%s '%s' in entry %s of %d accepted", a, v, pos, n)
                if pos is None:
                    got = c.md.get(a) if a in ('length', 'change') else c.ln[-1].get({'lnlength': 'length'}.get(a, a))
                else:
                    r = list(c)[pos]
                    got = getattr(r, a) if a in ('length', 'change') else r.ln[0].get({'lnlength': 'length'}.get(a, a))
                    ctx.expect(len(list(c)) == n and all((x.length, x.change, x.ln) == (None, None, None)
                                                         for i, x in enumerate(c) if i != pos), "other entries")
                ctx.expect(got == w, "%s '%s' read as %r", a, v, got)

    # other ways to write the same document
    FORMS = ['prefix', 'rsdefault', 'bom', 'utf16', 'utf16be', 'latin1', 'ascii', 'doctype', 'cdata', 'charref', 'comments',
             'pi', 'quotes', 'space', 'crlf', 'attrs', 'nodecl', 'attributes', 'startend', 'nsinner', 'textcomments', 'bytes', 'tabs']

    def form(self, ctx, form):
        """Every spelling of the same document gives the same entries."""
        import re
        for root, item in (('urlset', 'url'), ('sitemapindex', 'sitemap')):
            for n in range(0, 4):
                ents = ''.join('<%s><loc>http://e.ex/%s\u00e9&amp;%d</loc><lastmod>2013-01-03T09:00:00Z</lastmod><rs:md change="updated" '
                               'length="%d" type="a/\u00fc"/><rs:ln rel="alternate" href="http://e.ex/alt%d"/></%s>' % (
                                   item, 'x' * i, i, i, i, item) for i in range(n))
                body = '<rs:md capability="changelist" from="2013-01-01"/><rs:ln rel="up" href="http://e.ex/up"/>' + ents
                doc = '<?xml version="1.0" encoding="UTF-8"?>\n<%s %s>%s</%s>' % (root, NS, body, root)
                enc = 'utf-8'
                if form == 'prefix':
                    doc = re.sub(r'(</?)([a-z]+[ >])', r'\1s:\2', doc).replace('xmlns=', 'xmlns:s=')
                elif form == 'rsdefault':
                    doc = re.sub(r'<rs:(\w+) ', r'<\1 xmlns="http://www.openarchives.org/rs/terms/" ', doc)
                elif form == 'bom':
                    doc = '\ufeff' + doc
                elif form in ('utf16', 'utf16be'):
                    enc = 'utf-16' if form == 'utf16' else 'utf-16-be'
                    doc = ('\ufeff' if form == 'utf16be' else '') + doc.replace('UTF-8', 'UTF-16')
                elif form == 'latin1':
                    enc = 'iso-8859-1'
                    doc = doc.replace('UTF-8', 'ISO-8859-1')
                elif form == 'ascii':
                    enc = 'ascii'
                    doc = doc.replace('\u00e9', '&#233;').replace('\u00fc', '&#xFC;').replace('UTF-8', 'US-ASCII')
                elif form == 'doctype':
                    doc = doc.replace('?>', '?><!DOCTYPE %s>' % root, 1)
                elif form == 'cdata':
                    doc = re.sub(r'<loc>(.*?)</loc>', lambda m: '<loc><![CDATA[%s]]></loc>' % m.group(1).replace('&amp;', '&'), doc)
                elif form == 'charref':
                    doc = doc.replace('http:', '&#104;&#x74;tp:').replace('changelist', 'change&#108;ist').replace('2013', '2&#48;13')
                elif form == 'comments':
                    doc = doc.replace('><', '><!-- <url> -- >< -->'.replace('-- >', '>') + '<')
                elif form == 'pi':
                    doc = doc.replace('><', '><?php echo "<loc>"; ?><')
                elif form == 'quotes':
                    doc = doc.replace('"', "'")
                elif form == 'space':
                    doc = doc.replace('><', '>\n   <') + '\n\n'
                elif form == 'crlf':
                    doc = doc.replace('><', '>\r\n<') + '\r\n'
                elif form == 'tabs':
                    doc = re.sub(r' (\w+=")', r'\t\n \1', doc)
                elif form == 'attrs':
                    doc = doc.replace('length=', 'x-length="9" o:length="77" o:change="deleted" length=').replace(
                        'capability=', 'o:capability="resourcelist" capability=')
                elif form == 'nodecl':
                    doc = doc[doc.index('\n') + 1:]
                elif form == 'attributes':
                    doc = doc.replace('<loc>', '<loc xml:lang="en" o:x="1">').replace('<lastmod>', '<lastmod id="a">').replace(
                        '<%s>' % item, '<%s id="x" loc="http://e.ex/no">' % item)
                elif form == 'startend':
                    doc = re.sub(r'<(rs:\w+) ([^>]*)/>', r'<\1 \2></\1>', doc)
                elif form == 'nsinner':
                    doc = doc.replace(' xmlns:rs="http://www.openarchives.org/rs/terms/"', '').replace(
                        '<rs:', '<rs:', 1)
                    doc = re.sub(r'<rs:(\w+) ', r'<rs:\1 xmlns:rs="http://www.openarchives.org/rs/terms/" ', doc)
                elif form == 'textcomments':
                    doc = re.sub(r'<loc>(http:)', r'<loc><!-- a -->\1<!-- b -->', doc)
                want = ['http://e.ex/%s\u00e9&%d' % ('x' * i, i) for i in range(n)]
                for cap in (None, 'changelist'):
                    ctx.evaluations += 1
                    ctx.step()
                    try:
                        s = self.Sitemap()
                        c = s.parse_xml(fh=io.BytesIO(doc.encode(enc)), capability=cap)
                    except Exception as e:
                        ctx.fail('document of %d entries spelt %s refused: %s: %s' % (n, form, type(e).__name__, e))
                    got = [(r.uri, r.timestamp, r.change, r.length, r.mime_type, [x['href'] for x in r.ln or []]) for r in c]
                    exp = [(u, 1357203600, 'updated', i, 'a/\u00fc', ['http://e.ex/alt%d' % i]) for i, u in enumerate(want)]
                    ctx.expect(got == exp, "document spelt %s: read %s, should be %s", form, got, exp)
                    ctx.expect((c.capability, c.md_from, c.up) == ('changelist', '2013-01-01', 'http://e.ex/up'),
                               "document spelt %s: metadata %s links %s", form, c.md, c.ln)
                    ctx.expect(s.parsed_index == (root == 'sitemapindex'), "document spelt %s: kind", form)
                    if ctx.state([form, root, n, cap]):
                        ctx.nontrivial.add(digest([form, root, n, cap]))

    def setup(self, ctx):
        World.setup()
        from resync.sitemap import Sitemap
        from resync.change_list import ChangeList
        from resync.resource_list_builder import ResourceListBuilder    # noqa: F401
        self.Sitemap, self.CL = Sitemap, ChangeList
        self.classes = classes()

    @staticmethod
    def document(root, body):
        if root == 'nons':
            return '<urlset>%s</urlset>' % body.replace('rs:', '').replace('o:', '')
        return '<?xml version="1.0" encoding="UTF-8"?>\n<%s %s>%s</%s>' % (root, NS, body, root)

    def run(self, ctx, case):
        if case['k'] == 'form':
            return self.form(ctx, case['form'])
        if case['k'] == 'value':
            return self.value(ctx, case['root'], case['a'])
        if case['k'] == 'top':
            root = case['root']
            TOP = getattr(self, case.get('a', 'TOP'))
            names = {'item': 'sitemap' if root == 'sitemapindex' else 'url',
                     'wrong': 'url' if root == 'sitemapindex' else 'sitemap'}
            for tail in itertools.product(TOP, repeat=case['n'] - len(case['pre'])):
                seq = list(case['pre']) + list(tail)
                if case['n'] >= 4 and len(set(seq)) < 2:
                    continue
                doc = self.document(root, ''.join(TOP[x] % names for x in seq))
                for kind in (None, False, True):
                    for cap in (None, 'resourcelist', 'changelist', 'unheard-of'):
                        if case['n'] >= 4 and cap == 'unheard-of':
                            continue
                        self.top(ctx, root, seq, doc, kind, cap)
                if case['n'] <= 3 and root in ('urlset', 'sitemapindex'):
                    self.cont(ctx, root, seq, doc)
        else:
            KID = getattr(self, case.get('a', 'KID'))
            for tail in itertools.product(KID, repeat=case['n'] - len(case['pre'])):
                self.kid(ctx, list(case['pre']) + list(tail), KID)
        ctx.sample(case)

    def spec_top(self, root, seq, kind, cap):
        """None if rejected, else (uris, capability, number of links)."""
        if root in ('other', 'nons'):
            return None
        if kind is not None and kind != (root == 'sitemapindex'):
            return None
        mds = [x for x in seq if x.startswith('md')]
        if len(mds) > 1 or any(x in ('ebad', 'lnbad', 'mdL', 'mdX') for x in seq):
            return None
        ents = [i for i, x in enumerate(seq) if x in ('e1', 'e2')]
        if ents and any(x.startswith('md') or x == 'ln' for x in seq[ents[0]:]):
            return None
        c = {'mdR': 'resourcelist', 'mdC': 'changelist', 'mdU': 'unheard-of'}.get(mds[0] if mds else None)
        if cap is not None:
            if c is None:
                if cap != 'resourcelist':
                    return None
                c = 'resourcelist'
            if c != cap:
                return None
        return (['http://e.ex/' + x[1] for x in seq if x in ('e1', 'e2')], c, seq.count('ln'))

    def top(self, ctx, root, seq, doc, kind, cap):
        want = self.spec_top(root, seq, kind, cap)
        s = self.Sitemap()
        ctx.evaluations += 1
        ctx.step()
        try:
            c = s.parse_xml(fh=io.StringIO(doc), capability=cap, sitemapindex=kind)
        except Exception as e:
            if want is not None:
                ctx.fail("root %s, elements %s, demanded kind %s and capability %s: refused (%s: %s)" % (
                    root, seq, kind, cap, type(e).__name__, e))
            got = None
        else:
            if want is None:
                ctx.fail("root %s, elements %s, demanded kind %s and capability %s: accepted" % (
                    root, seq, kind, cap))
            got = ([r.uri for r in c], c.capability, len(c.ln))
            ctx.expect(got == want, "root %s, elements %s: read %s, should be %s", root, seq, got, want)
            ctx.expect(s.parsed_index == (root == 'sitemapindex'), "kind reported %s", s.parsed_index)
            ctx.expect(s.resources_created == len(want[0]), "number of entries reported")
            for r in c:
                if r.uri.endswith('2'):
                    ctx.expect((r.change, r.length, r.timestamp) == ('created', 7, 1356998400), "entry %r", r)
                else:
                    ctx.expect((r.change, r.length, r.timestamp) == (None, None, None), "entry %r", r)
            if 'mdR' in seq:
                ctx.expect(c.md_at == '2013-01-01', "metadata %s", c.md)
        key = [root, seq, kind, cap]
        if ctx.state(key) and want is not None:
            ctx.nontrivial.add(digest(key))

    def cont(self, ctx, root, seq, doc):
        """The same through the list classes: they demand their own capability."""
        for cls in ('ResourceList', 'ChangeList', 'SourceDescription', 'CapabilityList'):
            uris = [x for x in seq if x in ('e1', 'e2')]
            if len(set(uris)) < len(uris) or (cls == 'ChangeList' and 'e1' in uris):
                continue    # what the class itself refuses is D08
            want = self.spec_top(root, seq, False, CAPABILITY[cls])
            c = self.classes[cls]()
            ctx.evaluations += 1
            ctx.step()
            try:
                c.parse(str_data=doc)
            except Exception:
                ctx.expect(want is None, "%s: root %s, elements %s: refused", cls, root, seq)
            else:
                ctx.expect(want is not None, "%s: root %s, elements %s: accepted", cls, root, seq)
                ctx.expect(sorted(r.uri for r in c) == sorted(want[0]), "%s: entries", cls)

    def kid(self, ctx, seq, KID):
        doc = self.document('urlset', '<url>%s</url>' % ''.join(KID[x] for x in seq))
        bad = (sum(x in ('loc', 'locb', 'loc0') for x in seq) != 1 or 'loc0' in seq
               or seq.count('lm') > 1
               or sum(x.startswith('md') for x in seq) > 1
               or any(x in self.BADKID for x in seq))
        ctx.evaluations += 1
        ctx.step()
        if ctx.state(seq) and not bad:
            ctx.nontrivial.add(repr(seq))
        try:
            c = self.Sitemap().parse_xml(fh=io.BytesIO(doc.encode()))
        except Exception as e:
            ctx.expect(bad, "entry of %s: refused (%s: %s)", seq, type(e).__name__, e)
            return
        ctx.expect(not bad, "entry of %s: accepted", seq)
        rs = list(c)
        ctx.expect(len(rs) == 1, "entry of %s: %d entries", seq, len(rs))
        r = rs[0]
        got = (r.uri, r.timestamp, r.change, r.length, r.md5, r.sha1, r.mime_type, r.path,
               [(x['rel'], x.get('pri'), x.get('length')) for x in r.ln or []])
        full = 'md' in seq
        h = 'mdhash' in seq
        want = ('http://e.ex/1' if 'loc' in seq else 'http://e.ex/2', 1357203600 if 'lm' in seq else None,
                'updated' if full else None, 0 if full else None, 'x' if full or h else None,
                's' if h else None, 'a/b' if full else None, '/p' if full else None,
                [('alternate', 999999, 3)] * seq.count('ln'))
        ctx.expect(got == want, "entry of %s: read %s, should be %s", seq, got, want)


def files_in(d):
    return [k for k in snapshot(d) if not k.endswith('/')]


class D05(Check):
    id = 'D05'
    rule = ('one case = list type x n entries x limit m x source of the entries x options; written, '
            'checked file by file, and read back from disk and over http')
    TYPES = ['ResourceList', 'ResourceListOrdered', 'ChangeList', 'ChangeDumpManifest',
             'ResourceListArchive', 'ChangeListArchive', 'ResourceDump', 'ChangeDump',
             'ResourceDumpManifest', 'SourceDescription', 'ResourceDumpArchive', 'ChangeDumpArchive']
    ROOT = 'http://e.ex/out'
    BASENAMES = ['list.xml.a', 'list.xml.a.xml', 'list.xml.b.xml', 'list.xml.xml', 'x.XML', 'x.Xml', 'xml', 'a.xm', 'a.xmlx',
                 '.xml', '..xml', '.a.xml', 'a..xml', 'a', 'b', 'a.b', 'a.b.xml', 'a-b.xml', 'a_b.xml', '0', '1.xml', 'a%20b.xml',
                 'a+b.xml', 'xml.xml', 'a.xml~', 'd.xml/x.xml', 'd.xml/y', 'd/x.xml', 'd/e/x', 'a=b.xml', 'a&b.xml', 'A.xml', '%s.xml',
                 '%05d.xml', '{}.xml', 'a:b.xml', "a'b.xml", 'a,b.xml', 'a;b.xml', '~a.xml', '-a.xml', '00000.xml0', 'list.xml',
                 'y' * 150 + '.xml']

    def cases(self, tier):
        N = 12 if tier == 'quick' else 20
        for cls in self.TYPES:
            few = cls not in ('ResourceList', 'ChangeList') and tier == 'quick'
            for n in range(0, N + 1):
                for m in (1, 2, 3, 4, 5, 6, None) + ((7, 11, 19) if tier != 'quick' else ()):
                    if few and (n > 7 or m in (5, 6)):
                        continue
                    for src in ('added', 'iter', 'itercount', 'list'):
                        if src == 'list' and cls.startswith('ResourceList') and cls != 'ResourceListArchive':
                            src = 'same'
                        for multi in (1, 0):
                            if src != 'added' and not multi:
                                continue
                            yield {'cls': cls, 'n': n, 'm': m, 'src': src, 'multi': multi,
                                   'pretty': n % 2, 'name': 'list.xml' if n % 3 else 'list'}
        # lists that have links of their own already
        for cls in self.TYPES:
            for own in (['index'], ['up'], ['index', 'up'], ['related', 'index'], ['up', 'related', 'index', 'alternate']):
                for n, m in ((3, 1), (4, 2), (2, None)):
                    yield {'cls': cls, 'n': n, 'm': m, 'src': 'added', 'multi': 1, 'pretty': 0, 'name': 'l.xml', 'own': own}
        # names of every form
        for name in self.BASENAMES:
            for cls in ('ResourceListOrdered', 'ChangeList'):
                for n, m in ((3, 1), (4, 2), (2, None)):
                    yield {'cls': cls, 'n': n, 'm': m, 'src': 'added', 'multi': 1, 'pretty': 0, 'name': name}
        # two lists next to each other
        for a, b in itertools.combinations([n for n in self.BASENAMES if not n.endswith('l/x.xml')], 2):
            if (a[:-4] if a.endswith('.xml') else a) != (b[:-4] if b.endswith('.xml') else b):
                yield {'cls': 'ResourceListOrdered', 'm': 1, 'multi': 1, 'pretty': 0, 'name': a, 'other': b}
        # many parts: order of names
        for cls in ('ResourceListOrdered', 'ChangeList'):
            yield {'cls': cls, 'n': 23, 'm': 2, 'src': 'added', 'multi': 1, 'pretty': 0, 'name': 'l.xml'}
            yield {'cls': cls, 'n': 101, 'm': 1, 'src': 'added', 'multi': 1, 'pretty': 0, 'name': 'l.xml'}
            for n, m in ((1005, 1), (1100, 11), (2100, 2), (5000, 4999)) + (
                    ((50000, 0), (50001, 0)) if tier == 'thorough' or cls == 'ChangeList' else ()) + (
                    ((10010, 1), (99999, 5), (100003, 0)) if tier == 'thorough' else ()):
                yield {'cls': cls, 'n': n, 'm': m, 'src': 'added', 'multi': 1, 'pretty': 0, 'name': 'l.xml'}

    def setup(self, ctx):
        World.setup()
        from resync.resource import Resource
        from resync.mapper import Mapper
        from resync.sitemap import Sitemap
        self.R, self.Mapper, self.Sitemap = Resource, Mapper, Sitemap
        self.classes = classes()

    def new(self, case, **kw):
        c = self.classes[case['cls']](**kw)
        c.mapper = self.Mapper([self.ROOT + '=out'])
        if case['m'] != 0:      # (0: as it is by default)
            c.max_sitemap_entries = case['m']
        c.allow_multifile = bool(case['multi'])
        c.pretty_xml = bool(case['pretty'])
        return c

    def entries(self, case):
        n = case['n']
        ordered = case['cls'] not in ('ResourceList', 'ResourceDump', 'ChangeDump', 'ResourceDumpManifest',
                                      'SourceDescription')
        out = []
        for i in range(n):
            j = i if not ordered else (i * 7) % 103 if n < 103 else (i * 7) % 999983
            out.append(self.R(uri='http://e.ex/r%0*d' % (3 if n < 103 else 6, j), timestamp=T + i, length=i, ts_datetime=T + i,
                              change='updated' if case['cls'] in ('ChangeList', 'ChangeDumpManifest') else None))
        return out

    def build(self, case):
        rs = self.entries(case)
        if case['src'] in ('added', 'same'):
            c = self.new(case)
            for r in rs:
                c.add(r)
            if case['src'] == 'same' and rs:
                # the same container used for another list object
                c = self.new(case, resources=c.resources)
        elif case['src'] == 'list':
            c = self.new(case, resources=list(rs))
        else:
            c = self.new(case, resources=iter(rs))
            if case['src'] == 'itercount':
                c.count = len(rs)
        c.md_at = '2013-01-01T00:00:00Z'
        c.describedby = 'http://e.ex/desc'
        for rel in case.get('own', ()):
            # links a list may have from elsewhere
            c.link_set(rel, 'http://e.ex/own-' + rel, mime_type='text/x')
        return c, [values(r) for r in rs]

    def read(self, w, case, uri, **kw):
        c = self.new(dict(case, multi=kw.get('multi', 1)))
        o = w.run(lambda: c.read(uri=uri))
        return o, c

    def pair(self, ctx, case):
        w = World(ctx)
        os.mkdir('out')
        names = [case['name'], case['other']]
        made = []
        for i, name in enumerate(names):
            os.makedirs(os.path.dirname('out/' + name), exist_ok=True)
            lst, want = self.build(dict(case, n=2, src='added'))
            for r in lst:
                r.uri += '-%d' % i
            want = [values(r) for r in lst]
            before = snapshot('out')
            o = w.run(lambda: lst.write(basename='out/' + name))
            ctx.expect(o.error is None, "%s: writing failed: %s %s", names, o.error, o.message)
            after = snapshot('out')
            ctx.expect(all(after.get(k) == v for k, v in before.items() if v[0] == 'f'),
                       "lists %s: writing the second changed the first: %s", names, diff(before, after))
            made.append(want)
        ctx.state(case)
        for name, want in zip(names, made):
            o, c = self.read(w, case, 'out/' + name)
            ctx.expect(o.error is None, "%s: reading %s failed: %s %s", names, name, o.error, o.message)
            ctx.expect([values(r) for r in c] == want, "lists %s: %s reads back %s", names, name, [r.uri for r in c])

    def run(self, ctx, case):
        if 'other' in case:
            return self.pair(ctx, case)
        w = World(ctx)
        os.mkdir('out')
        os.makedirs(os.path.dirname('out/' + case['name']), exist_ok=True)
        n, m = case['n'], case['m']
        m = 50000 if m == 0 else m
        lst, want = self.build(case)
        head = [dict(lst.md), [dict(x) for x in lst.ln]]
        head[0].setdefault('capability', CAPABILITY[case['cls']])
        base = 'out/' + case['name']
        what = '%(cls)s of %(n)d entries, limit %(m)s, from %(src)s, named %(name)s' % case
        parts = 0 if m is None or n <= m else -(-n // m)
        o = w.run(lambda: lst.write(basename=base))
        ctx.state(case)
        if parts and not case['multi']:
            ctx.expect(o.error is not None, "%s: written although multifile is disabled", what)
            for f in os.listdir('out'):
                o, c = self.read(w, case, 'out/' + f)
                ctx.expect(o.error is not None, "%s: refused, but left %s with %s entries", what, f, len(c))
            return
        ctx.expect(o.error is None, "%s: writing failed: %s %s", what, o.error, o.message)
        files = sorted(snapshot('out')) if '/' in case['name'] else sorted(os.listdir('out'))
        files = [f for f in files if not f.endswith('/')]
        ctx.expect(case['name'] in files, "%s: no %s, only %s", what, base, files)
        ctx.expect(len(files) == parts + 1, "%s: files %s, should be %d", what, files, parts + 1)
        if case['src'] in ('added', 'same', 'list'):
            ctx.expect([values(r) for r in lst] == want, "%s: writing changed the list", what)
        lst.default_capability()
        ctx.expect([dict(lst.md), [dict(x) for x in lst.ln]] == head, "%s: writing changed the metadata or links of the list: %s",
                   what, [lst.md, lst.ln])
        # publish as written
        for f in files:
            w.web.docs[self.ROOT + '/' + f] = get('out/' + f)
        # read back, from disk and over http, and check links and metadata
        for uri in (base, 'file:' + quote(os.path.abspath(base)), self.ROOT + '/' + case['name']):
            if uri.startswith('file:') and n % 4:
                continue
            o, c = self.read(w, case, uri)
            if uri.startswith('file:') and parts:
                # mapping of part URIs is relative: only the absolute one applies
                c = self.new(dict(case, multi=1))
                c.mapper = self.Mapper([self.ROOT + '=' + os.path.abspath('out')])
                o = w.run(lambda: c.read(uri=uri))
            ctx.expect(o.error is None, "%s: reading %s failed: %s %s", what, uri, o.error, o.message)
            got = [values(r) for r in c]
            ctx.expect(got == want, "%s: %s reads back %s, should be %s", what, uri, [g['uri'] for g in got],
                       [g['uri'] for g in want])
            ctx.expect(c.md_at == '2013-01-01T00:00:00Z' and c.describedby == 'http://e.ex/desc'
                       and c.capability == CAPABILITY[case['cls']], "%s: metadata %s links %s", what, c.md, c.ln)
            ctx.expect(sorted(map(repr, map(sorted, map(dict.items, c.ln)))) == sorted(
                map(repr, map(sorted, map(dict.items, head[1])))), "%s: links %s, were %s", what, c.ln, head[1])
        if not parts:
            self.strings(ctx, w, case, what, want)
            return
        o, c = self.read(w, case, base, multi=0)
        ctx.expect(o.error is not None, "%s: index read although multifile is disabled", what)
        # the index and every part
        s = self.Sitemap()
        with open(base, 'rb') as f:
            idx = s.parse_xml(fh=f, sitemapindex=True, capability=CAPABILITY[case['cls']])
        seen, sizes = [], []
        ies = list(idx)
        ctx.expect(len(ies) == parts, "%s: index names %d files, should be %d", what, len(ies), parts)
        for e in ies:
            ctx.expect(e.uri.startswith(self.ROOT + '/'), "%s: index entry %s", what, e.uri)
            p = 'out' + e.uri[len(self.ROOT):]
            ctx.expect(os.path.isfile(p), "%s: index names %s, files %s", what, e.uri, files)
            raw = get(p)
            ctx.expect(e.md5 == hashlib.md5(raw).hexdigest(), "%s: digest of %s", what, p)
            # valid by itself
            c = self.new(dict(case, multi=0))
            o = w.run(lambda: c.parse(uri=p))
            ctx.expect(o.error is None, "%s: part %s: %s %s", what, p, o.error, o.message)
            ctx.expect(c.index == self.ROOT + '/' + case['name'], "%s: index link of part %s is %s", what, p,
                       c.index)
            sizes.append(len(c))
            ctx.expect(0 < len(c) <= m, "%s: part %s holds %d", what, p, len(c))
            seen += [values(r) for r in c]
        ctx.expect(seen == want, "%s: parts hold %s", what, [g['uri'] for g in seen])
        # parts and index as strings
        if case['src'] != 'iter':
            pos = 0
            for k in range(parts):
                if parts > 101 and k not in (0, 1, 9, 10, 99, 100, 999, 1000, parts // 2, parts - 2, parts - 1):
                    pos += sizes[k]
                    continue
                lst2, _ = self.build(case)
                o = w.run(lambda: lst2.as_xml_part(basename=self.ROOT + '/' + case['name'], part_number=k))
                ctx.expect(o.error is None, "%s: part %d as string: %s %s", what, k, o.error, o.message)
                c = self.new(dict(case, multi=0))
                c.parse(str_data=o.value)
                got = [values(r) for r in c]
                ctx.expect(got == want[pos:pos + sizes[k]], "%s: part %d as string has %s", what, k,
                           [g['uri'] for g in got])
                pos += sizes[k]
            for k in (parts, parts + 1):
                lst2, _ = self.build(case)
                o = w.run(lambda: lst2.as_xml_part(basename='x.xml', part_number=k))
                ctx.expect(o.error is not None, "%s: there is a part %d", what, k)
            o = w.run(lambda: lst2.as_xml_index(basename=self.ROOT + '/' + case['name']))
            ctx.expect(o.error is None, "%s: index as string: %s %s", what, o.error, o.message)
            i2 = self.Sitemap().parse_xml(fh=io.StringIO(o.value), sitemapindex=True)
            ctx.expect([r.uri for r in i2] == [e.uri for e in ies], "%s: index as string names %s", what,
                       [r.uri for r in i2])
            o = w.run(lambda: lst2.as_xml())
            ctx.expect(o.error is not None, "%s: single document of a list over the limit", what)
            o = w.run(lambda: lst2.as_xml(allow_multifile=True, basename=self.ROOT + '/' + case['name']))
            ctx.expect(o.error is None, "%s: index or document: %s %s", what, o.error, o.message)
            i2 = self.Sitemap().parse_xml(fh=io.StringIO(o.value), sitemapindex=True)
            ctx.expect([r.uri for r in i2] == [e.uri for e in ies], "%s: index or document names %s", what,
                       [r.uri for r in i2])
            # names that cannot be mapped to URIs: refused, nothing readable left
            os.makedirs(os.path.dirname('elsewhere/' + case['name']))
            lst3, _ = self.build(case)
            o = w.run(lambda: lst3.write(basename='elsewhere/' + case['name']))
            ctx.expect(o.error is not None, "%s: split although the names have no URIs", what)
            for f in files_in('elsewhere'):
                o, c = self.read(w, case, 'elsewhere/' + f)
                ctx.expect(o.error is not None, "%s: refused, but left %s with %s entries", what, f, len(c))
        # the entries of the index alone
        for uri in (base, self.ROOT + '/' + case['name']):
            c = self.new(dict(case, multi=1))
            o = w.run(lambda: c.read(uri=uri, index_only=True))
            ctx.expect(o.error is None, "%s: reading the index alone: %s %s", what, o.error, o.message)
            ctx.expect([(r.uri, r.md5) for r in c] == [(e.uri, e.md5) for e in ies] and c.sitemapindex
                       and c.capability == CAPABILITY[case['cls']], "%s: the index alone reads %s", what,
                       [r.uri for r in c])
            for text in (c.index_as_xml(),) + ((c.as_xml(),) if len(c) <= m else ()):
                i3 = self.Sitemap().parse_xml(fh=io.StringIO(text), sitemapindex=True,
                                              capability=CAPABILITY[case['cls']])
                ctx.expect([values(r) for r in i3] == [values(e) for e in ies],
                           "%s: the index read and written again names %s", what, [r.uri for r in i3])
        # a part that is missing or is an index itself must not go unnoticed
        for k in {0, parts - 1}:
            uri = ies[k].uri
            keep = w.web.docs[uri]
            for sub in (None, w.web.docs[self.ROOT + '/' + case['name']], keep[:len(keep) // 2]):
                if sub is None:
                    del w.web.docs[uri]
                else:
                    w.web.docs[uri] = sub
                o, c = self.read(w, case, self.ROOT + '/' + case['name'])
                ctx.expect(o.error is not None, "%s: read although part %d is %s", what, k,
                           'missing' if sub is None else 'bad')
            w.web.docs[uri] = keep
        ctx.sample({'case': case, 'files': files})

    def strings(self, ctx, w, case, what, want):
        """A list within the limit is one document, and has neither index nor parts."""
        if case['src'] == 'iter':
            return
        base = self.ROOT + '/' + case['name']
        for fn in (lambda l: l.as_xml(), lambda l: l.as_xml(allow_multifile=True, basename=base)):
            lst, _ = self.build(case)
            o = w.run(lambda: fn(lst))
            ctx.expect(o.error is None, "%s: as string: %s %s", what, o.error, o.message)
            c = self.new(dict(case, multi=0))
            c.parse(str_data=o.value)
            ctx.expect([values(r) for r in c] == want, "%s: as string has %s", what, [r.uri for r in c])
        for fn in (lambda l: l.as_xml_index(basename=base), lambda l: l.as_xml_part(basename=base)):
            lst, _ = self.build(case)
            o = w.run(lambda: fn(lst))
            ctx.expect(o.error is not None, "%s: has an index or a part as string", what)
