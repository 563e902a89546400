"""Z01 dump packages, E01 explorer, X01 command line, B03 published lists."""

import io
import itertools
import os
import re
import sys
import zipfile
import xml.etree.ElementTree as ET

from mc.core import Check, Fail
from mc import run as _run
from mc.world import World, WEB, BASE, get, put, snapshot, diff, iso, xml_doc

SM = '{http://www.sitemaps.org/schemas/sitemap/0.9}'
RS = '{http://www.openarchives.org/rs/terms/}'


def parse(data, what):
    """Independent reading of a document: (root, md, links, entries)."""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Fail('%s is not a well formed document: %s: %r' % (what, e, data[:200]))
    if root.tag not in (SM + 'urlset', SM + 'sitemapindex'):
        raise Fail('%s has root element %s' % (what, root.tag))
    md, ln, entries = None, [], []
    for e in root:
        if e.tag == RS + 'md':
            if md is not None:
                raise Fail('%s has two md elements' % what)
            md = dict(e.attrib)
        elif e.tag == RS + 'ln':
            ln.append(dict(e.attrib))
        elif e.tag == SM + ('url' if root.tag == SM + 'urlset' else 'sitemap'):
            d = {}
            for c in e:
                if c.tag == RS + 'md':
                    d.update(c.attrib)
                elif c.tag == RS + 'ln':
                    d.setdefault('ln', []).append(dict(c.attrib))
                elif c.tag.startswith(SM):
                    if c.tag[len(SM):] in d:
                        raise Fail('%s: entry with two %s' % (what, c.tag))
                    d[c.tag[len(SM):]] = c.text
            if 'loc' not in d:
                raise Fail('%s: entry without location' % what)
            entries.append(d)
        else:
            raise Fail('%s has unexpected element %s' % (what, e.tag))
    return root.tag[len(SM):], md or {}, ln, entries


# --- running the command line tools ---------------------------------------------------------------

_code = {}


def script(name):
    path = os.path.join(_run.REPO, name)
    if path not in _code:
        with open(path, 'rb') as f:
            _code[path] = compile(f.read(), path, 'exec')
    exec(_code[path], {'__name__': '__main__', '__file__': path})


def tool(w, name, argv, listen=None, around=None):
    """Run a script of the repository as its main program would, in this process."""
    import logging
    config = sys.modules['resync.url_or_file_open'].CONFIG
    saved = dict(config)
    argv0, sys.argv = sys.argv, [name] + list(argv)
    handlers = {}
    for n in ('client', 'resync', None):
        lg = logging.getLogger(n)
        handlers[n] = (list(lg.handlers), lg.level, lg.propagate)
    try:
        return w.run(around or (lambda: script(name)), listen)
    finally:
        sys.argv = argv0
        config.clear()
        config.update(saved)
        for n, (h, level, prop) in handlers.items():
            lg = logging.getLogger(n)
            for x in list(lg.handlers):
                if x not in h:
                    lg.removeHandler(x)
                    x.close()
            lg.setLevel(level)
            lg.propagate = prop


# --- Z01 ------------------------------------------------------------------------------------------

ZP = ['a', 'b', 'ab', 'd/a', 'd/ab', 'da/a', 'd/e/a', 'manifest.xml', 'd/manifest.xml', 'dé/a b']
ZNAMES = ['.a', '..a', '...', 'a.', 'A', ' a', 'a ', '-a', '_a', '~a', 'a~', '.d/a', '..d/a', 'd./a', '-d/a', 'D/a',
          'd/.a', 'a.zip', 'a.xml', 'manifest', 'Manifest.xml', 'a%20b', 'a+b', 'a&b', 'a<b', "a'b", 'a"b', 'a\\b', 'a:b',
          'c:/a', 'a?b', 'a#b', 'a*b', 'a;b', 'a=b', 'a,b', '\u00e9', 'e\u0301', '\u4e2d', '\U0001f600', 'out_', '00000', 'd/d/d/d/d/a',
          'n' * 200, '.manifest.xml', 'manifest.xml/a']
ZT = 1600000000


def zbytes(i, size):
    """Distinct contents of given size for file number i."""
    return bytes((65 + 7 * i + j) % 256 for j in range(size))


class Z01(Check):
    id = 'Z01'
    rule = ('every set of files of the path alphabet, every size assignment x limits; an execution is '
            'non-trivial if at least one package is written or an error is required')
    assumptions = ['every resource has a file of its own, dated after 1980 (zip)',
                   'files do not change while the dump is written']

    def cases(self, tier):
        deep = tier == 'thorough'
        for n in range(1, 6 if deep else 5):
            for ps in itertools.combinations(range(len(ZP)), n):
                yield ['shape', list(ps)]
        for a in ZNAMES:
            yield ['shape', [a]]
            yield ['tool', [a]]
        for a, b in itertools.combinations(ZNAMES + ['a'], 2):
            yield ['shape', [a, b]]
        for a, b in itertools.combinations(ZNAMES, 2):
            if deep or a.strip('.-_ /') == b.strip('.-_ /') or a.lower() == b.lower():
                yield ['tool', [a, b]]
        for n in range(0, 6 if deep else 5):
            for sizes in itertools.product(range(4 if n < 5 else 3), repeat=n):
                yield ['split', list(sizes)]
        for n in range(1, 5 if deep else 4):
            for i in range(n):
                for kind in ('nopath', 'missing', 'big', 'short', 'long', 'dir'):
                    yield ['error', n, i, kind]
        for n in range(1, 4):
            for ps in itertools.combinations(range(len(ZP)), n):
                yield ['tool', list(ps)]
        # long, deep, many, big
        for n in (49, 63, 64, 65, 99, 100, 101, 120, 127, 128, 129, 150, 199, 200, 249, 250, 255):
            for ps in (['d' * n + '/' + 'e' * n + '/f', 'a'], ['d' * n + '/f', 'd' * n + '/g'],
                       ['d' * (n - 1) + 'x/f', 'd' * (n - 1) + 'y/f'], ['x/' + 'd' * n + '/f', 'y/' + 'd' * n + '/f'],
                       ['x/' * n + 'f', 'x/' * (n - 1) + 'y/f', 'f']):
                yield ['shape', ps]
                yield ['tool', ps]
        for n in (11, 33, 65, 100, 101, 130, 260, 520, 1030, 2600) + ((10001, 50001, 65537) if deep else ()):
            yield ['many', n]
        for n in (16385, 65535, 65537, 2 ** 20 + 1, 2 ** 24 + 1) + ((2 ** 27 + 1,) if deep else ()):
            yield ['large', n]

    def setup(self, ctx):
        World.setup()

    # the reference partition: closed as soon as a limit is reached
    @staticmethod
    def partition(sizes, max_size, max_files):
        out, cur, total = [], [], 0
        for i, s in enumerate(sizes):
            cur.append(i)
            total += s
            if total >= max_size or len(cur) >= max_files:
                out.append(cur)
                cur, total = [], 0
        if cur:
            out.append(cur)
        return out

    def packages(self, base, groups, uris, datas, separate, what):
        """Compare the packages written with the expected groups."""
        d = os.path.dirname(base) or '.'
        pre = os.path.basename(base)
        zips = sorted(f for f in os.listdir(d) if f.startswith(pre) and f.endswith('.zip'))
        if len(zips) != len(groups):
            raise Fail('%s: packages %s, expected %d' % (what, zips, len(groups)))
        xmls = sorted(f for f in os.listdir(d) if f.startswith(pre) and f.endswith('.xml'))
        if len(xmls) != (len(groups) if separate else 0):
            raise Fail('%s: separate manifests %s for %d packages' % (what, xmls, len(groups)))
        for k, (z, g) in enumerate(zip(zips, groups)):
            wh = '%s package %s' % (what, z)
            with zipfile.ZipFile(io.BytesIO(get(os.path.join(d, z)))) as zf:
                names = zf.namelist()
                if zf.testzip() is not None or len(set(names)) != len(names):
                    raise Fail('%s: bad members %s' % (wh, names))
                if 'manifest.xml' not in names:
                    raise Fail('%s has no manifest: %s' % (wh, names))
                content = {n: zf.read(n) for n in names}
            man = self.manifest(content.pop('manifest.xml'), wh)
            if sorted(man) != sorted(uris[i] for i in g):
                raise Fail('%s: manifest lists %s, expected %s'
                           % (wh, sorted(man), sorted(uris[i] for i in g)))
            if sorted(p for p in man.values()) != sorted(content):
                raise Fail('%s: manifest paths %s, members %s'
                           % (wh, sorted(man.values()), sorted(content)))
            for i in g:
                if content[man[uris[i]]] != datas[i]:
                    raise Fail('%s: %s holds %r, the file of %s is %r'
                               % (wh, man[uris[i]], content[man[uris[i]]][:200], uris[i], datas[i][:200]))
            if separate:
                sep = self.manifest(get(os.path.join(d, xmls[k])), wh + ' separate manifest')
                if sep != man:
                    raise Fail('%s: separate manifest %s differs from %s' % (wh, sep, man))

    @staticmethod
    def manifest(data, what):
        root, md, ln, entries = parse(data, what + ' manifest')
        if root != 'urlset' or md.get('capability') != 'resourcedump-manifest':
            raise Fail('%s manifest is a %s' % (what, md))
        man = {}
        for e in entries:
            p = e.get('path')
            if e['loc'] in man or p is None:
                raise Fail('%s manifest: entry %s twice or without path' % (what, e))
            p = p[1:] if p.startswith('/') else p
            parts = p.split('/')
            if p.startswith('/') or '' in parts or '..' in parts or '.' in parts:
                raise Fail('%s manifest: path %r of %s' % (what, e['path'], e['loc']))
            man[e['loc']] = p
        if len(set(man.values())) != len(man):
            raise Fail('%s manifest: shared paths %s' % (what, man))
        return man

    def run(self, ctx, case):
        from resync.dump import Dump
        from resync.resource import Resource
        from resync.resource_list import ResourceList
        kind = case[0]
        w = World(ctx)
        ctx.state(case)

        def dump(paths, uris, lengths, max_size=None, max_files=None, compress=True, separate=True,
                 plain=False, base='out_', twice=False):
            rs = [Resource(u, path=p, **({} if l is None else {'length': l}))
                  for u, p, l in zip(uris, paths, lengths)]
            if plain:
                res = rs
            else:
                res = ResourceList()
                for r in rs:
                    res.add(r)

            def go():
                d = Dump(resources=res, compress=compress)
                if max_size is not None:
                    d.max_size = max_size
                if max_files is not None:
                    d.max_files = max_files
                return d.write(basename=base, write_separate_manifests=separate)
            o = w.run(go)
            if o.error is None and [r.path for r in rs] != list(paths):
                raise Fail('%s: the local paths became %s' % (case, [r.path for r in rs]))
            return o

        def clean(base='out_'):
            for f in os.listdir(os.path.dirname(base) or '.'):
                if f.startswith(os.path.basename(base)):
                    os.unlink(os.path.join(os.path.dirname(base), f))

        if kind == 'shape':
            ps = [p if isinstance(p, str) else ZP[p] for p in case[1]]
            datas = [zbytes(i, 1 + (i % 3)) for i in range(len(ps))]
            for p, b in zip(ps, datas):
                put('t/' + p, b, ZT)
            uris = ['http://h.org/%d' % i for i in range(len(ps))]
            for root in ('t/', './t/', w.x + '/t/', '', '../x/t/', 'mixed'):
                for reverse in (False, True):
                    paths = [(w.x + '/t/' if root == 'mixed' and i % 2 else
                              't/' if root == 'mixed' else root) + p for i, p in enumerate(ps)]
                    us = uris[::-1] if reverse else uris
                    for compress, separate, plain in ((True, True, False), (False, False, True)):
                        if root == '':
                            os.chdir('t')
                        o = dump(paths, us, [None] * len(ps), compress=compress, separate=separate,
                                 plain=plain, base=w.x + '/out_')
                        what = 'files %s, compress %s' % (paths, compress)
                        if o.error is not None or o.value != 1:
                            raise Fail('%s: %s %s %s' % (what, o.error, o.message, o.value))
                        self.packages(w.x + '/out_', [list(range(len(ps)))], us, datas, separate,
                                      what)
                        clean(w.x + '/out_')
                os.chdir(w.x)
            ctx.sample({'files': ps})
        elif kind == 'many':
            n = case[1]
            paths = ['t/d%d/f%05d' % (i % 7, i) for i in range(n)]
            datas = [b'%d' % i for i in range(n)]
            for p, b in zip(paths, datas):
                put(p, b, ZT)
            uris = ['http://h.org/%05d' % i for i in range(n)]
            for mf in [None, n + 1, n, n - 1, n // 2 + 1, 10] + ([1] if n < 150 or ctx.thorough and n < 2000 else []):
                groups = self.partition([len(b) for b in datas], 10 ** 8, mf or 50000)
                if len(groups) > 1200:
                    continue
                o = dump(paths, uris, [None] * n, None, mf, separate=mf != n, plain=mf == n)
                what = '%d files, at most %s' % (n, mf)
                if o.error is not None or o.value != len(groups):
                    raise Fail('%s: %s %s, %s packages, expected %d' % (what, o.error, o.message, o.value, len(groups)))
                self.packages('out_', groups, uris, datas, mf != n, what)
                clean()
        elif kind == 'large':
            n = case[1]
            paths = ['t/a', 't/b', 't/c']
            datas = [(b'0123456789abcde' * (n // 15 + 1))[:k] for k in (n, n - 1, 3)]
            for p, b in zip(paths, datas):
                put(p, b, ZT)
            uris = ['http://h.org/%05d' % i for i in range(3)]
            for compress in (True, False):
                for ms in (None, 2 * n, n):
                    groups = self.partition([len(b) for b in datas], ms or 10 ** 8, 50000)
                    if ms is None and n > 10 ** 8:
                        continue
                    o = dump(paths, uris, [None, n - 1, None], ms, None, compress=compress)
                    what = 'files of %d bytes, at most %s' % (n, ms)
                    if o.error is not None or o.value != len(groups):
                        raise Fail('%s: %s %s, %s packages, expected %d' % (what, o.error, o.message, o.value, len(groups)))
                    self.packages('out_', groups, uris, datas, True, what)
                    clean()
        elif kind == 'split':
            sizes = case[1]
            n = len(sizes)
            paths = ['t/%s' % 'abcde'[i] for i in range(n)]
            datas = [zbytes(i, s) for i, s in enumerate(sizes)]
            for p, b in zip(paths, datas):
                put(p, b, ZT)
            uris = ['http://h.org/%d' % i for i in range(n)]
            if n == 0:
                ctx.trivial()
            biggest = max(sizes) if sizes else 1
            for max_files in range(1, n + 2):
                for max_size in list(range(max(biggest, 1), sum(sizes) + 2)) or [1]:
                    groups = self.partition(sizes, max_size, max_files)
                    lens = [s if (i + max_files) % 2 else None for i, s in enumerate(sizes)]
                    o = dump(paths, uris, lens, max_size, max_files, plain=bool(max_size % 2),
                             separate=bool(max_files % 2))
                    what = 'sizes %s, at most %d files / %d bytes' % (sizes, max_files, max_size)
                    if o.error is not None or o.value != len(groups):
                        raise Fail('%s: %s %s, %s packages, expected %d'
                                   % (what, o.error, o.message, o.value, len(groups)))
                    self.packages('out_', groups, uris, datas, bool(max_files % 2), what)
                    clean()
        elif kind == 'error':
            n, i, what = case[1:]
            paths = ['t/%d' % k for k in range(n)]
            datas = [zbytes(k, 2) for k in range(n)]
            for p, b in zip(paths, datas):
                put(p, b, ZT)
            lens = [2 if k % 2 else None for k in range(n)]
            if what == 'nopath':
                paths[i] = None
            elif what == 'missing':
                os.unlink(paths[i])
            elif what == 'dir':
                os.unlink(paths[i])
                lens[i] = 2
                os.mkdir(paths[i])
            elif what == 'big':
                put(paths[i], b'x' * 11, ZT)
                lens[i] = None
            elif what == 'short':
                lens[i] = 3
            else:
                lens[i] = 1
            uris = ['http://h.org/%d' % k for k in range(n)]
            for plain in (False, True):
                for mf in (1, 9):
                    o = dump(paths, uris, lens, 10, mf, plain=plain)
                    if o.error is None:
                        raise Fail('dump with %s at %d of %d gave no error' % (what, i, n))
                    left = [f for f in os.listdir('.') if f.startswith('out_')]
                    if left:
                        raise Fail('dump with %s at %d of %d wrote %s' % (what, i, n, left))
        else:
            ps = [p if isinstance(p, str) else ZP[p] for p in case[1]]
            datas = [zbytes(i, 1 + (i % 3)) for i in range(len(ps))]
            for p, b in zip(ps, datas):
                put('t/' + p, b, ZT)
            from urllib.parse import unquote
            for m in ('t', 't/', './t', w.x + '/t'):
                o = tool(w, 'resync-build', ['--write-resourcedump', '--outfile', 'out_',
                                             'http://h.org/x=' + m])
                what = 'resync-build --write-resourcedump of %s as %s' % (ps, m)
                if o.error is not None or 'Fatal' in o.stderr:
                    raise Fail('%s: %s %s %s' % (what, o.error, o.message, o.stderr))
                order = sorted(range(len(ps)), key=lambda i: ps[i])
                z = [f for f in os.listdir('.') if f.startswith('out_') and f.endswith('.zip')]
                if len(z) != 1:
                    raise Fail('%s wrote %s' % (what, os.listdir('.')))
                # the URI of a file is the mapping's business (M01, B01): match loosely
                with zipfile.ZipFile(io.BytesIO(get(z[0]))) as zf:
                    man = self.manifest(zf.read('manifest.xml'), what)
                byrel = {(u if u[15:] in ps else unquote(u))[15:]: u for u in man}
                if sorted(byrel) != sorted(ps):
                    raise Fail('%s: manifest lists %s' % (what, sorted(man)))
                self.packages('out_', [order], [byrel[p] for p in ps], datas, True, what)
                clean()


# --- B03 ------------------------------------------------------------------------------------------

META = 'http://src.example/meta'
FILES = ['a', 'd/b', 'c&d']
# state of a file: absent, or (content, time)
V = {'-': None,
     '1': (b'one', 1500000000),
     '2': (b'twotwo', 1500000100),
     't': (b'one', 1500000200),      # same content, later
     'h': (b'eno', 1500000000),      # only a digest tells
     # before, at and after the epoch, times that need more than 32 bits, sizes beyond the buffers
     'p': (b'one', -1), 'q': (b'one', -86400), 'r': (b'twotwo', -2208988800), 's': (b'', -5000000000),
     'e': (b'one', 0), 'f': (b'one', 1), 'i': (b'one', 2 ** 31 - 1), 'j': (b'twotwo', 2 ** 31), 'k': (b'one', 2 ** 32 + 5),
     'l': (b'', 4102444800), 'm': (b'one', 8 * 10 ** 9),
     'x': (b'x' * 65537, 1500000000), 'y': (b'y' * 1100000, 1500000000), 'z': (b'', 1500000000)}
LINKS = [[],
         ['--capabilitylist-link', 'http://src.example/cap.xml',
          '--describedby-link', 'http://src.example/d.html',
          '--link', 'related,http://o.example/?a&b,type=text/html'],
         ['--sourcedescription-link', 'http://src.example/sd', '--link', 'x,y']]
LINKS_WANT = {0: [], 1: [{'rel': 'describedby', 'href': 'http://src.example/d.html'},
                         {'rel': 'up', 'href': 'http://src.example/cap.xml'},
                         {'rel': 'related', 'href': 'http://o.example/?a&b', 'type': 'text/html'}],
              2: [{'rel': 'x', 'href': 'y'}]}
# (to file, max entries, hashes, links, newreference, spec version)
PROFILES = [(0, None, (), 0, 0, '1.1'), (1, None, (), 1, 0, '1.0'), (1, 1, ('md5',), 0, 1, '1.0'),
            (0, 2, ('md5', 'sha-256'), 2, 0, '1.0'), (1, 2, (), 0, 0, '1.0'),
            (1, None, ('sha-1',), 0, 1, '1.1')]
NO_DATETIME = 'changes listed without datetime are refused by the incremental sync'


class B03(Check):
    id = 'B03'
    rule = ('every pair of states of the tree x option profile: list, baseline sync, change list, '
            'incremental sync; every subset of capabilities; non-trivial if a document was written')
    assumptions = ['file names are made of URI characters', 'the source does not change meanwhile']

    def cases(self, tier):
        deep = tier == 'thorough'
        vs = '-12th'
        for a in itertools.product(vs, repeat=2):
            for b in itertools.product(vs, repeat=2):
                yield ['two', ''.join(a), ''.join(b)]
        unusual = 'pqrsefijklmxyz'
        for a in unusual:
            for b in unusual + '-1':
                yield ['two', a + '1', b + '1']
                yield ['two', '-' + b, a + b]
        for a in itertools.product('-12' if not deep else '-12h', repeat=3):
            for b in itertools.product('-12' if not deep else '-12t', repeat=3):
                yield ['three', ''.join(a), ''.join(b)]
        caps = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive']
        for n in range(0, 6 if deep else 4):
            for names in itertools.permutations(caps, n):
                yield ['caps', list(names)]
        for n in range(1, 4):
            for us in itertools.permutations(['http://src.example/c1', '/c2', 'http://o/c?x=1&y=<'],
                                             n):
                yield ['desc', list(us)]
        yield ['empty']

    def known(self, case, msg):
        if case[0] in ('two', 'three') and msg.endswith(NO_DATETIME):
            return 'change-list-without-datetime'
        return None

    def setup(self, ctx):
        World.setup()

    @staticmethod
    def tree(state):
        return {f: V[v] for f, v in zip(FILES, state) if V[v] is not None}

    @staticmethod
    def lay(d, tree):
        for f in FILES:
            p = d + '/' + f
            if os.path.lexists(p):
                os.unlink(p)
        if not os.path.isdir(d):
            os.mkdir(d)
        for f, (b, t) in tree.items():
            put(d + '/' + f, b, t)

    @staticmethod
    def files(d):
        s = snapshot(d)
        return {k: (v[1], v[2] // 1000000000) for k, v in s.items() if v[0] == 'f'}

    def document(self, w, argv, outfile, what, max_entries=None):
        """Run the builder; return [(md, ln, entries)] of the (one or more) documents."""
        args = list(argv)
        if outfile:
            args += ['--outfile', outfile]
        before = snapshot('.')
        o = tool(w, 'resync-build', args)
        if o.error is not None:
            raise Fail('%s: %s %s %s' % (what, o.error, o.message, o.stderr[-300:]))
        after = snapshot('.')
        if outfile is None:
            if 'FatalError' in o.stderr:
                return o
            if before != after:
                raise Fail('%s to standard output wrote files: %s' % (what, diff(before, after)))
            data = o.stdout
            if not data.lstrip().startswith('<'):
                raise Fail('%s: standard output starts with %r' % (what, data[:80]))
            return [parse(data.strip(), what)]
        if 'FatalError' in o.stderr:
            raise Fail('%s: %s' % (what, o.stderr))
        if o.stdout.strip():
            raise Fail('%s to a file printed %r' % (what, o.stdout[:200]))
        d = os.path.dirname(outfile) + '/'
        new = sorted(k for k in after if before.get(k) != after[k] and not k.endswith('/'))
        if outfile not in new or [k for k in new if not k.startswith(d)]:
            raise Fail('%s to %s wrote %s' % (what, outfile, new))
        first = parse(after[outfile][1], what)
        docs = [first]
        if first[0] == 'sitemapindex':
            for e in first[3]:
                loc = e['loc']
                if not loc.startswith(META + '/') or d + loc[len(META) + 1:] not in new:
                    raise Fail('%s: index lists %s, files written %s' % (what, loc, new))
                docs.append(parse(after[d + loc[len(META) + 1:]][1], what + ' ' + loc))
        if len(new) != len(docs):
            raise Fail('%s: files written %s, %d documents' % (what, new, len(docs)))
        return docs

    def entries(self, docs, capability, links, what, max_entries):
        for i, (root, md, ln, entries) in enumerate(docs):
            if md.get('capability') != capability:
                raise Fail('%s: capability %s' % (what, md))
            if root != ('urlset' if i or len(docs) == 1 else 'sitemapindex'):
                raise Fail('%s: document %d is a %s' % (what, i, root))
            if max_entries and (i or len(docs) == 1) and len(entries) > max_entries:
                raise Fail('%s: %d entries in a document' % (what, len(entries)))
        if docs[0][2] != links and sorted(map(str, docs[0][2])) != sorted(map(str, links)):
            raise Fail('%s: links %s, asked for %s' % (what, docs[0][2], links))
        return [e for d in (docs[1:] or docs) for e in d[3]]

    @staticmethod
    def rel(e, what):
        if not e['loc'].startswith(BASE + '/'):
            raise Fail('%s: lists %s' % (what, e['loc']))
        return e['loc'][len(BASE) + 1:]

    def check_list(self, es, tree, hashes, what):
        import base64
        import hashlib
        got = [self.rel(e, what) for e in es]
        if sorted(got) != sorted(tree):
            raise Fail('%s: lists %s, the tree has %s' % (what, sorted(got), sorted(tree)))
        for e in es:
            b, t = tree[self.rel(e, what)]
            self.check_entry(e, b, t, hashes, what)

    @staticmethod
    def check_entry(e, b, t, hashes, what):
        import hashlib
        if e.get('lastmod') != iso(t) or e.get('length') != str(len(b)):
            raise Fail('%s: %s for %d bytes of %s' % (what, e, len(b), iso(t)))
        alg = {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}
        want = sorted('%s:%s' % (h, hashlib.new(alg[h], b).hexdigest()) for h in hashes)
        if sorted((e.get('hash') or '').split()) != want:
            raise Fail('%s: digests %s, expected %s' % (what, e.get('hash'), want))

    def run(self, ctx, case):
        kind = case[0]
        ctx.state(case)
        if kind in ('caps', 'desc', 'empty'):
            return getattr(self, 'run_' + kind)(ctx, *case[1:])
        old, new = self.tree(case[1]), self.tree(case[2])
        ps = PROFILES if kind == 'two' or ctx.thorough else \
            [PROFILES[(sum(map(ord, case[1] + case[2])) + ord(case[1][0]) // 7) % len(PROFILES)]]
        found = None
        for prof in ps:
            w = World(ctx)
            f = self.one(ctx, w, old, new, prof, '%s -> %s %s' % (case[1], case[2], list(prof)))
            found = f or found
        if found:
            raise Fail(found)

    def one(self, ctx, w, old, new, prof, name):
        tofile, maxn, hashes, links, newref, spec = prof
        os.mkdir('m')
        self.lay('t', old)
        opts = ['--spec-version', spec]
        for h in hashes:
            opts += ['--hash', h]
        if maxn:
            opts += ['--max-sitemap-entries', str(maxn)]
        maps = [BASE + '=t', META + '=m']
        out = LINKS[links]

        def build(mode, outfile, more=()):
            what = name + ' ' + mode + (' to %s' % outfile if outfile else '')
            return self.document(w, [mode] + opts + list(out) + list(more) + ['--paths', 't'] + maps,
                                 outfile, what, maxn), what
        # 1. resource list of the reference state
        docs, what = build('--write-resourcelist', 'm/rl.xml' if tofile or maxn else None)
        es = self.entries(docs, 'resourcelist', LINKS_WANT[links], what, maxn)
        self.check_list(es, old, hashes, what)
        if not (tofile or maxn):
            # serve what was printed
            o = tool(w, 'resync-build', ['--write-resourcelist'] + opts + list(out)
                     + ['--paths', 't'] + maps)
            put('m/rl.xml', o.stdout.encode('utf-8'))
        if not tofile:
            # splitting needs file names: on standard output it is an error
            docs, what = build('--write-resourcelist', None)
            if maxn and len(old) > maxn:
                if isinstance(docs, list):
                    raise Fail('%s: more entries than allowed on standard output' % what)
            elif not isinstance(docs, list):
                raise Fail('%s: %s' % (what, docs.stderr))
        # 2. serve it and sync
        for f in os.listdir('m'):
            w.web.docs[META + '/' + f] = get('m/' + f)
        for f, (b, t) in old.items():
            w.web.docs[BASE + '/' + f] = b
        w.web.doc_uris = None
        os.mkdir('dst')
        # an empty list stops a baseline sync on purpose (C02)
        if old:
            o = w.baseline(sitemap_name=META + '/rl.xml', spec_version=spec)
            if o.error is not None:
                raise Fail('%s: baseline from the written list: %s %s' % (name, o.error, o.message))
            if self.files('dst') != old:
                raise Fail('%s: baseline from the written list gives %s, expected %s'
                           % (name, self.files('dst'), old))
        # 3. new state, change list
        self.lay('t', new)
        if newref:
            build('--write-resourcelist', 'm/nrl.xml')
            for f in os.listdir('m'):
                w.web.docs[META + '/' + f] = get('m/' + f)
        # with limited documents the list may be split over files, that need names
        docs, what = build('--write-changelist', 'm/cl.xml' if tofile or maxn else None,
                           ['--reference', 'm/rl.xml'] + (['--newreference', 'm/nrl.xml']
                                                          if newref else []))
        es = self.entries(docs, 'changelist', LINKS_WANT[links], what, maxn)
        want = {}
        for f in FILES:
            a, b = old.get(f), new.get(f)
            if a is None and b is not None:
                want[f] = 'created'
            elif b is None and a is not None:
                want[f] = 'deleted'
            elif a is not None and (a[1] != b[1] or len(a[0]) != len(b[0])
                                    or (hashes and a[0] != b[0])):
                want[f] = 'updated'
        got = [(self.rel(e, what), e.get('change')) for e in es]
        if sorted(got) != sorted(want.items()):
            raise Fail('%s: changes %s, expected %s' % (what, sorted(got), sorted(want.items())))
        for e in es:
            f = self.rel(e, what)
            if f in new:
                self.check_entry(e, new[f][0], new[f][1], hashes, what)
        if not want:
            return None
        # 4. apply it
        if tofile or maxn:
            for f in os.listdir('m'):
                w.web.docs[META + '/' + f] = get('m/' + f)
        else:
            o = tool(w, 'resync-build', ['--write-changelist'] + opts + list(out)
                     + ['--reference', 'm/rl.xml', '--paths', 't'] + maps)
            w.web.docs[META + '/cl.xml'] = o.stdout.encode('utf-8')
        w.web.docs = {u: d for u, d in w.web.docs.items() if not u.startswith(BASE + '/')}
        for f, (b, t) in new.items():
            w.web.docs[BASE + '/' + f] = b
        o = w.incremental(sitemap_name=META + '/rl.xml', change_list_uri=META + '/cl.xml',
                          from_datetime='1800-01-01', spec_version=spec, hashes=hashes)
        if spec != '1.0' and o.error is not None and not any(e.get('datetime') for e in es) \
                and self.files('dst') == old:
            return '%s: %s' % (name, NO_DATETIME)
        if o.error is not None:
            raise Fail('%s: incremental with the written change list: %s %s'
                       % (name, o.error, o.message))
        # what no entry tells apart keeps its old content
        expect = {f: (new[f] if f in want else old[f]) for f in new}
        if self.files('dst') != expect:
            raise Fail('%s: incremental with the written change list gives %s, expected %s'
                       % (name, self.files('dst'), expect))
        return None

    def run_caps(self, ctx, names):
        w = World(ctx)
        os.mkdir('m')
        uris = {n: 'http://src.example/%d?a&b' % i if i % 2 else '/rel/%d' % i
                for i, n in enumerate(names)}
        arg = ','.join('%s=%s' % (n, uris[n]) for n in names)
        for out in (None, 'm/cap.xml'):
            for k in (0, 1, 2):
                what = 'capability list %s, links %d' % (arg, k)
                argv = ['--write-capabilitylist', arg] + LINKS[k]
                if not names:
                    o = tool(w, 'resync-build', argv)
                    if o.error is None and 'FatalError' not in o.stderr:
                        raise Fail('%s was accepted: %s' % (what, o.stdout))
                    continue
                docs = self.document(w, argv, out, what)
                links = {0: [], 1: [x for x in LINKS_WANT[1] if x['rel'] != 'up'],
                         2: [{'rel': 'up', 'href': 'http://src.example/sd'},
                             {'rel': 'x', 'href': 'y'}]}[k]
                es = self.entries(docs, 'capabilitylist', links, what, None)
                got = sorted((e.get('capability'), e['loc']) for e in es)
                if got != sorted(uris.items()):
                    raise Fail('%s: entries %s' % (what, got))
                if out:
                    os.unlink(out)

    def run_desc(self, ctx, uris):
        w = World(ctx)
        os.mkdir('m')
        for out in (None, 'm/sd.xml'):
            for k in (0, 1, 2):
                what = 'source description %s, links %d' % (uris, k)
                docs = self.document(w, ['--write-sourcedescription', ','.join(uris)] + LINKS[k],
                                     out, what)
                links = {0: [], 1: [x for x in LINKS_WANT[1] if x['rel'] != 'up'],
                         2: [{'rel': 'x', 'href': 'y'}]}[k]
                es = self.entries(docs, 'description', links, what, None)
                got = [(e.get('capability'), e['loc']) for e in es]
                if sorted(got) != sorted(('capabilitylist', u) for u in uris):
                    raise Fail('%s: entries %s' % (what, got))
                if out:
                    os.unlink(out)

    def run_empty(self, ctx):
        w = World(ctx)
        os.mkdir('m')
        for out in (None, 'm/e.xml'):
            for k in (0, 1, 2):
                for more in ([], [BASE + '=m'], ['--reference', 'm/nothere']):
                    what = 'empty change list, links %d %s' % (k, more)
                    docs = self.document(w, ['--write-changelist', '--empty'] + LINKS[k] + more,
                                         out, what)
                    es = self.entries(docs, 'changelist', LINKS_WANT[k], what, None)
                    if es:
                        raise Fail('%s: entries %s' % (what, es))
                    if out:
                        os.unlink(out)


# --- E01 ------------------------------------------------------------------------------------------

H = 'http://src.example'


def page(cap, entries, index=False, ix=None, **ln):
    if ix:
        ln['index'] = ix
    return {'cap': cap, 'entries': entries, 'index': index, 'ln': ln}


LISTS = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive',
         'resourcedump-archive', 'changelist-archive', 'changedump-archive']
LEAVES = LISTS[:4]
NOINDEX = ['capabilitylist'] + LISTS[4:]      # (no such indexes)
# the site: path -> page, or bytes that are no document
SITE = {
    '/.well-known/resourcesync': page('description', [('../cap.xml', None, None),
                                                      (H + '/cap2.xml', 'capabilitylist', None),
                                                      ('/html', 'capabilitylist', None)],
                                      describedby='/about.html'),
    '/cap.xml': page('capabilitylist', [('lists/rl.xml', 'resourcelist', None),
                                        ('lists/cl.xml', 'changelist', None),
                                        ('/nothere.xml', 'resourcedump', None),
                                        ('bad.xml', 'changedump', None)],
                     up='.well-known/resourcesync', describedby='about.html'),
    '/cap2.xml': page('capabilitylist', [], up='/nothere.xml'),
    '/cap3.xml': page('capabilitylist', [('/lists/rl.xml', 'resourcelist', 0),
                                         ('lists/cl.xml', 'changelist', 7),
                                         ('/lists/rlindex.xml', 'resourcelist', 10 ** 9)]),
    '/lists/zero.xml': page('resourcelist', [('/res/a', None, 0), ('/res/nil', None, 0),
                                             ('/lists/rl.xml', 'resourcelist', 0)],
                            up='/cap3.xml'),
    '/lists/zindex.xml': page('resourcelist', [('zero.xml', None, 0), ('rl.xml', None, 3)], index=True),
    '/lists/rl.xml': page('resourcelist', [('../res/a', None, 5), (H + '/res/b', None, 9),
                                           ('http://other.example/c', None, None)],
                          up='../cap.xml', ix='rlindex.xml'),
    '/lists/cl.xml': page('changelist', [('/res/a', None, 6), ('/res/a', None, None),
                                         ('/res/sub', 'resourcelist', None)], up='/cap.xml'),
    '/lists/rlindex.xml': page('resourcelist', [('rl.xml', None, None), ('rl2.xml', None, None),
                                                ('#', None, None)],
                               index=True, up='../cap.xml'),
    '/lists/rl2.xml': page(None, [('rl.xml', None, None), ('?x=1&y', None, None)]),
    '/lists/dump.xml': page('resourcedump', [('d.zip', None, 3)], describedby='/about.html',
                            ix='dumpindex.xml'),
    '/lists/dumpindex.xml': page('resourcedump', [('dump.xml', None, None)], index=True),
    '/lists/arch.xml': page('resourcelist-archive', [('rl.xml', None, None), ('rl2.xml', 'x', None)],
                            up='/cap2.xml'),
    '/many20': page('resourcelist', [('r%d' % i, None, None) for i in range(20)]),
    '/many22': page('resourcelist', [('r%d' % i, None, None) for i in range(22)]),
    '/many21': page('resourcelist', [('r%d' % i, None, None) for i in range(21)]),
    '/many25': page('capabilitylist', [('r%d' % i, LISTS[i % 8], None) for i in range(25)]),
    '/bad.xml': b'<urlset xmlns="http://www.sitemaps.org/schemas/sitemap/0.9"><url>',
    '/html': b'<html><body>hello</body></html>',
    '/noloc': b'<urlset xmlns="http://www.sitemaps.org/schemas/sitemap/0.9"><url><lastmod>x</lastmod>'
              b'</url></urlset>',
    '/empty': b'',
    '/binary': b'\x00\xff\xfe\x80' * 20,
    '/twomd': b'<urlset xmlns="http://www.sitemaps.org/schemas/sitemap/0.9" xmlns:rs="http://www.'
              b'openarchives.org/rs/terms/"><rs:md capability="resourcelist"/><rs:md/></urlset>',
    # what is known about a resource from its description is compared with the header
    '/lists/known.xml': page('resourcelist', [
        ('/res/a', None, {'length': 5, 'type': 'text/plain', 'lastmod': '2017-07-14T02:40:00Z'}),
        ('/res/a', None, {'length': 6, 'type': 'text/html'}), ('/r1', None, {'type': 'text/plain'}),
        ('/res/a', None, {'lastmod': '2017-07-14T02:40:01Z'})]),
    # every combination of facts: none, right and wrong
    **{'/lists/facts%d.xml' % i: page(('resourcelist', 'changelist', 'resourcelist')[i], [
        ('/res/a', None, {k: v for k, v in (('length', l), ('type', t), ('lastmod', m)) if v is not None})
        for t in (None, 'text/plain', 'text/html') for m in (None, '2017-07-14T02:40:00Z', '2017-07-14T02:40:01Z')])
       for i, l in enumerate((None, 5, 4))},
    # kinds of documents that do not belong there
    '/odd.xml': page('capabilitylist', [('/lists/rl.xml', 'changelist', None), ('/cap2.xml', 'capabilitylist', None),
                                        ('/lists/cl.xml', 'description', None), ('/lists/rl2.xml', 'resourcedump', None),
                                        ('/lists/rlindex.xml', None, None), ('/weird.xml', 'resourcelist', None)]),
    '/weird.xml': page('changedump-manifest', [('/res/a', None, 5), ('/cap3.xml', 'capabilitylist', None)], up='/odd.xml'),
    # URIs in all their forms, of documents and of resources
    '/names.xml': page('capabilitylist', [(u, 'resourcelist', None) for u in (
        '/lists/rl.xml#a', '#b', '?x=1#c', '/lists/rl.xml?v=2', '//src.example/lists/rl.xml', './lists/rl.xml',
        '../lists/rl.xml', 'lists/../lists/rl.xml', 'HTTP://src.example/lists/rl.xml', '/lists//rl.xml', '/lists/',
        '/lists/rl.xml/', '/lists/rl%2exml', '/lists/rl.xml;p', '/lists/rl.xml?a#b', '/LISTS/rl.xml', ';p', 'names.xml',
        'http://src.example', 'http://src.example:80/lists/rl.xml')], up='/cap.xml#up', describedby='/about.html#top',
        ix='/lists/rlindex.xml#ix'),
    '/lists/names.xml': page('resourcelist', [(u, None, 5) for u in (
        '/res/a#frag', '/res/a#', '/res/a?x=1', '/res/a?x#y', '/res/a;p', '/res/a/', '/res/./a', '../res/a', '//src.example/res/a',
        '/res/%61', '/res/a%23b', '/res/a%20b', '/res/a+b', "/res/a'b", '/res/(a)', '/res/a&b', '/res/a=b', '/res/a,b',
        '/res/~a', '/res/a|b')], up='../cap.xml?u#v', describedby='/about.html?d#e'),
    '/res/a?x=1': 'leaf', '/res/a;p': 'leaf', '/res/a/': 'leaf', '/res/%61': 'leaf', '/res/a&b': 'leaf',
    '/res/a%23b': 'leaf', '/about.html?d': 'leaf', '/lists/rl.xml?v=2': page('resourcelist', [('/r1', None, 5)]),
    '/about.html': 'leaf', '/res/a': 'leaf', '/lists/d.zip': 'leaf', '/r1': 'leaf', '/r19': 'leaf',
}
LEAF = b'12345'
HEADERS = {H + '/res/a': {'Content-Type': 'text/plain', 'Last-Modified': 'Fri, 14 Jul 2017 02:40:00 GMT',
                          'ETag': '"e"'}}
FAULTS = {H + '/refused': 'refused', H + '/slow': 'timeout', H + '/error': '500'}
SITE['/faults'] = page('capabilitylist', [('/refused', 'resourcelist', None),
                                          ('/slow', 'changelist', None),
                                          ('/error', 'resourcedump', None),
                                          ('ftp://src.example/x', 'changedump', None),
                                          ('nosuch:thing', 'changedump', None),
                                          ('http://[bad/', 'resourcelist', None)],
                       ix='/slow', describedby='/refused')

STARTS = {
    'sitemap': ({'sitemap': H + '/cap.xml'}, [H + '/cap.xml']),
    'dump': ({'sitemap': H + '/lists/dump.xml'}, [H + '/lists/dump.xml']),
    'arch': ({'sitemap': H + '/lists/arch.xml'}, [H + '/lists/arch.xml']),
    'root': ({'map': H}, [H + '/.well-known/resourcesync']),
    'path': ({'map': H + '/cap.xml'}, [H + '/cap.xml', H + '/.well-known/resourcesync']),
    'badpath': ({'map': H + '/nothere'}, [H + '/nothere', H + '/.well-known/resourcesync']),
    'dir': ({'map': 'site'}, ['site/capabilities.xml', 'site/resourcelist.xml']),
    'file': ({'map': 'site/capabilities.xml'}, ['site/capabilities.xml']),
    'abs': ({'sitemap': '@/site/capabilities.xml'}, ['@/site/capabilities.xml']),
    'nofile': ({'map': 'site/nothere.xml'}, ['site/nothere.xml']),
    'faults': ({'sitemap': H + '/faults'}, [H + '/faults']),
    'emptydir': ({'map': 'nothing'}, None),
    'dir sd': ({'map': 'one/sd'}, ['one/sd/resourcesync']),
    'dir cl': ({'map': 'one/cl/'}, ['one/cl/changelist.xml']),
    'dir all': ({'map': '@/one/all'}, ['@/one/all/' + n for n in ('resourcesync', 'capabilities.xml',
                                                                'resourcelist.xml', 'changelist.xml')]),
    'dir other': ({'map': 'one/other'}, None),
    'none': ({}, None),
    'at names d': ({'sitemap': 'odd/d/list.xml'}, ['odd/d/list.xml']),
    'at names e': ({'sitemap': '@/odd/d e/list.xml'}, ['@/odd/d e/list.xml']),
    'at names %': ({'map': 'odd/d%20/list.xml'}, ['odd/d%20/list.xml']),
    'at names f': ({'sitemap': 'odd/caps%2f.xml'}, ['odd/caps%2f.xml']),
}
for _p in ('bad.xml', 'html', 'noloc', 'empty', 'binary', 'twomd', 'many20', 'many21', 'many22', 'many25', 'lists/facts0.xml',
           'lists/facts1.xml', 'lists/facts2.xml', 'cap2.xml', 'cap3.xml', 'odd.xml', 'weird.xml', 'lists/known.xml', 'names.xml', 'lists/names.xml', 'lists/zero.xml', 'lists/zindex.xml', 'lists/rlindex.xml'):
    STARTS['at ' + _p] = ({'sitemap': H + '/' + _p}, [H + '/' + _p])
# started by the command line tool; options without a meaning for exploring change nothing
NOISE = ['--noauth', '--multifile', '--max-sitemap-entries', '1', '--exclude', '.*', '--hash', 'md5',
         '--outfile', 'out.xml', '--paths', 'site', '--reference', 'site/resourcelist.xml',
         '--changelist-uri', H + '/lists/cl.xml', '--dump', 'dump.zip']
for _k, _a in (('tool', []), ('tool verbose', ['--verbose']), ('tool options', NOISE),
               ('tool token', ['--access-token', 'sesame', '--checksum', '--delay', '0.25'])):
    STARTS[_k] = ({'argv': ['--sitemap', H + '/cap.xml'] + _a}, [H + '/cap.xml'])
STARTS['tool file'] = ({'argv': ['--sitemap', '@/site/capabilities.xml', '--verbose']},
                       ['@/site/capabilities.xml'])
STARTS['tool none'] = ({'argv': []}, None)
STARTS['tool exclude'] = ({'argv': NOISE}, None)
# local copies: path -> page
LOCAL = {'site/capabilities.xml': page('capabilitylist', [('lists/rl.xml', 'resourcelist', None),
                                                          ('nothere.xml', 'changelist', None),
                                                          (H + '/lists/rl.xml', 'resourcelist',
                                                           None)], describedby='about.html'),
         'site/resourcelist.xml': page('resourcelist', [('res/a', None, {'length': 5, 'lastmod': '2017-07-14T02:40:00Z'}),
                                                        ('res/zz', None, None),
                                                        ('res/a', None, {'lastmod': '2017-07-14T02:40:01Z'})],
                                       up='capabilities.xml'),
         'site/lists/rl.xml': page('resourcelist', [('../res/a', None, 4)],
                                   up='../capabilities.xml', ix='/dev/null/x'),
         'site/about.html': 'leaf', 'site/res/a': 'leaf',
         **{'odd/%s/list.xml' % d: page('resourcelist', [(n, None, 5) for n in (
             'r', './r', 'r%20x', 'r#x', 'r?x', 'r x', 'r;x', '../%s/r' % d, 'R', 'r+x', 'r%2fx', 'r/x', '#x')],
             up='../caps#%s.xml' % d, ix='../caps%2f.xml') for d in ('d', 'd%20', 'd#', 'd e')},
         **{'odd/%s/%s' % (d, n): 'leaf' for d in ('d', 'd%20', 'd e') for n in ('r', 'r%20x', 'r#x', 'r?x', 'r x', 'r+x', 'r;x')},
         'odd/caps%2f.xml': page('capabilitylist', [('d%20/list.xml', 'resourcelist', None), ('d/list.xml', 'resourcelist', None)]),
         'odd/caps#d.xml': page('capabilitylist', [('d e/list.xml', 'resourcelist', None)]),
         'one/sd/resourcesync': page('description', [('../../site/capabilities.xml', 'capabilitylist', None)]),
         'one/cl/changelist.xml': page('changelist', [('../../site/res/a', None, None)]),
         'one/other/sitemap.xml': page('resourcelist', []),
         'one/all/resourcesync': page('description', []), 'one/all/capabilities.xml': page('capabilitylist', []),
         'one/all/resourcelist.xml': page('resourcelist', []), 'one/all/changelist.xml': page('changelist', [])}

KEYS = ['1', '2', '3', 'b', 'q', 'u', 'i', 'd', 'junk', '', '0', '4']
FEWKEYS = ['1', '2', 'b', 'u', 'i']
ODD = [' 1', '1 ', 'Q', 'B', '-1', '99', '21', '20', '25', '\u0661', '1.0', '[1]', 'back', 'quit',
       'None', '\x00', '01', '+1', '*', '%s', '{0}', '\u00e9' * 300]


class NeedInput(BaseException):
    """The explorer waits for a key after the last one of this execution."""


class Keys:
    """Standard input of the explorer; calls back at each question."""

    def __init__(self, asked):
        self.asked = asked

    def readline(self, *a):
        return self.asked()

    def read(self, *a):
        return self.asked()

    def __iter__(self):
        return self

    def __next__(self):
        s = self.asked()
        if not s:
            raise StopIteration
        return s

    def isatty(self):
        return False

    def flush(self):
        pass

    encoding = 'utf-8'
    errors = 'strict'


class Browser:
    """The reference: what the session must show and do."""

    def __init__(self, site, starts):
        self.site = site
        self.starts = list(starts)
        self.history = []
        self.over = False
        self.next_start()

    def next_start(self):
        if self.starts:
            self.history = [(self.starts.pop(0), 'doc', {}, None)]
        else:
            self.over = True

    @property
    def current(self):
        return self.history[-1]

    def options(self):
        """Ordered [(key, shown uri, target, mode, what is known, expected kinds)]."""
        from urllib.parse import urljoin
        uri, mode, _, _ = self.current
        p = self.site.get(uri)
        if mode != 'doc' or not isinstance(p, dict):
            return []
        out = []

        def join(u):
            try:
                return urljoin(uri, u)
            except ValueError:
                return u
        for rel, key in (('describedby', 'd'), ('up', 'u'), ('index', 'i')):
            if rel in p['ln']:
                out.append((key, p['ln'][rel], join(p['ln'][rel]),
                            'head' if key == 'd' else 'doc', {}, None))
        n = len(p['entries'])
        for i, (loc, cap, length) in enumerate(p['entries'][:20 if n > 21 else n]):
            leaf = cap is None and p['cap'] in LEAVES and not p['index']
            known = length if isinstance(length, dict) else {} if length is None else {'length': length}
            out.append((str(i + 1), loc, join(loc), 'head' if leaf else 'doc', known,
                        [cap] if cap else self.entry_kinds(p)))
        return out

    @staticmethod
    def entry_kinds(p):
        """Kinds of documents that a document may list (None: not judged)."""
        cap = p['cap']
        if cap is None:
            return None
        if p['index']:
            return [cap]
        if cap.endswith('-archive'):
            return [cap[:-len('-archive')]]
        return {'description': ['capabilitylist'], 'capabilitylist': LISTS}.get(cap)

    def key(self, k):
        """Type a key: 'again', 'page' or 'over'."""
        for o in self.options():
            if o[0] == k:
                self.history.append(o[2:6])
                return 'page'
        if k == 'q':
            self.over = True
        elif k == 'b':
            self.history.pop()
            if not self.history:
                self.next_start()
        else:
            return 'again'
        return 'over' if self.over else 'page'


class Site(dict):
    """What there is; a fragment makes no difference."""

    def get(self, uri):
        return dict.get(self, uri.split('#')[0] if uri and ':' in uri else uri)


class E01(Check):
    id = 'E01'
    rule = ('every sequence of keys up to the depth at every start; an execution is non-trivial if '
            'at least one page was shown')
    assumptions = ['documents of more than 21 entries offer their first 20',
                   'back from a starting point goes on to the next starting point, or ends']

    def cases(self, tier):
        deep = tier == 'thorough'
        for s in STARTS:
            if s.startswith('at '):
                for k in KEYS + ODD + (list('56789') if 'facts' in s else [])\
                        + ([str(i) for i in range(5, 21)] if 'names' in s else []):
                    yield [s, [k], KEYS, 1 if not deep else 2]
            elif STARTS[s][1] is None:
                yield [s, [], [], 0]
            else:
                for k in KEYS:
                    for k2 in (KEYS if deep else [None]):
                        yield [s, [k] if k2 is None else [k, k2], KEYS, 2]
                for k in ODD:
                    yield [s, [k, '1'], ODD[:6], 1]
                if s in ('sitemap', 'path', 'dir', 'dump', 'arch', 'dir all'):
                    for k in FEWKEYS:
                        for k2 in FEWKEYS:
                            yield [s, [k, k2], FEWKEYS, 4 if deep else 3]

    def setup(self, ctx):
        World.setup()

    def lay(self, w):
        self.web = {}
        self.site = Site()
        for path, p in SITE.items():
            data = LEAF if p == 'leaf' else p if isinstance(p, bytes) else self.doc(p)
            self.web[H + path] = data
            self.site[H + path] = p
        os.mkdir('nothing')
        for path, p in LOCAL.items():
            data = LEAF if p == 'leaf' else self.doc(p)
            put(path, data, 1500000000)
            self.site[path] = p
            self.site[w.x + '/' + path] = p
        w.web.fault = lambda uri, r: FAULTS.get(uri)

    @staticmethod
    def doc(p):
        return xml_doc(p['cap'], [dict(length if isinstance(length, dict) else {'length': length}, loc=loc,
                                       capability=cap)
                                  for loc, cap, length in p['entries']], index=p['index'],
                       ln=[{'rel': r, 'href': h} for r, h in p['ln'].items()])

    def run(self, ctx, case):
        start, first, keys, more = case
        w = World(ctx)
        self.lay(w)
        before = snapshot('.')

        def go():
            w.web.reset()
            w.web.docs = self.web
            w.web.headers = HEADERS
            w.web.fault = lambda uri, r: FAULTS.get(uri)
            self.session(ctx, w, start, first, keys, more)
        ctx.explore(go)
        after = snapshot('.')
        if before != after:
            raise Fail('the session changed local files: %s' % diff(before, after))

    @staticmethod
    def titles(what, uri, p, kinds, new):
        """Kind and number of entries, and warnings about documents of a wrong kind."""
        head, _, rest = new.partition('\n[')
        words = re.findall(r'[\w-]+', head.replace(uri, ' '))
        if str(len(p['entries'])) not in words:
            raise Fail('%s: %s with %d entries shown as %r' % (what, uri, len(p['entries']), head))
        kind = (p['cap'] + ('index' if p['index'] else '')) if p['cap'] else None
        if kind and kind not in words:
            raise Fail('%s: %s of kind %s shown as %r' % (what, uri, kind, head))
        warned = bool(re.search('(?i)warning.*expected', head))
        odd = bool(re.search('(?i)warning.*unknown', head))
        if kind and odd != (p['cap'] not in LISTS + ['description', 'capabilitylist'] or p['cap'] in NOINDEX and p['index']):
            raise Fail('%s: %s of kind %s: %r' % (what, uri, kind, head))
        if kinds is not None:
            if warned and kind in kinds:
                raise Fail('%s: %s of expected kind %s: %r' % (what, uri, kind, head))
            if not warned and not any((kind or '').startswith(k) for k in kinds):
                raise Fail('%s: no warning that %s of kind %s is none of %s: %r' % (what, uri, kind, kinds, head))
        fit = Browser.entry_kinds(p)
        items = re.split(r'(?m)^\[', '\n[' + rest)
        items = {x.split(']')[0]: x for x in items if x.strip()}
        for i, (loc, cap, _) in enumerate(p['entries']):
            x = items.get(str(i + 1))
            if x is None or cap is None:
                continue
            x = x.replace(loc, ' ')
            if cap not in re.findall(r'[\w-]+', x):
                raise Fail('%s: %s: kind %s of entry %d not shown: %r' % (what, uri, cap, i + 1, x))
            if fit is not None and ('EXPECTED' in x) != (cap not in fit):
                raise Fail('%s: %s lists %s, fit are %s: %r' % (what, uri, cap, fit, x))

    def session(self, ctx, w, start, first, keys, more):
        from resync.explorer import Explorer
        how, starts = STARTS[start]
        typed = []
        pages = [0]
        b = None
        if starts is not None:
            b = Browser(self.site, [s.replace('@', w.x) for s in starts])
        state = {'kind': 'page', 'at': 0, 'log': 0}

        def shown():
            """What was printed and requested since the last question."""
            text = sys.stdout.getvalue()
            new = text[state['at']:]
            state['at'] = len(text)
            log = w.web.log[state['log']:]
            state['log'] = len(w.web.log)
            return new, [(r.method, r.uri) for r in log]

        def verify():
            new, reqs = shown()
            what = 'start %s, keys %s' % (start, typed)
            if b is None:
                raise Fail('%s: question without any document: %r' % (what, new[-200:]))
            if b.over:
                raise Fail('%s: the session goes on after its end: %r' % (what, new[-200:]))
            offers = re.findall(r'(?m)^\[([^\]\n]*)\] (.*)$', new)
            if state['kind'] == 'again':
                if reqs:
                    raise Fail('%s: asking again requested %s' % (what, reqs))
                return
            uri, mode, known, kinds = b.current
            ctx.state([start, [list(map(str, x)) for x in b.history], len(b.starts)])
            pages[0] += 1
            opts = b.options()
            if [o[0] for o in offers] != [o[0] for o in opts]:
                raise Fail('%s: %s offers %s, expected %s: %r' % (
                    what, uri, offers, [o[:2] for o in opts], new[-600:]))
            for (k, text), o in zip(offers, opts):
                if not text.endswith(o[1]):
                    raise Fail('%s: %s offers [%s] %s, expected %s' % (what, uri, k, text, o[1]))
            p = self.site.get(uri)
            if uri is not None and uri not in new:
                raise Fail('%s: shows %s as %r' % (what, uri, new[:300]))
            if mode == 'doc' and isinstance(p, dict):
                self.titles(what, uri, p, kinds, new)
            want = []
            if uri is not None and re.match('https?:|ftp:', uri) and 'other' not in uri[:9]:
                want = [('HEAD' if mode == 'head' else 'GET', uri.split('#')[0])]
            if uri is not None and ('[' in uri or uri.startswith('nosuch')):
                want = []
            if reqs != want:
                raise Fail('%s: at %s (%s) requests %s, expected %s' % (what, uri, mode, reqs, want))
            if mode == 'head' and uri is not None:
                there = self.site.get(uri) is not None and uri not in FAULTS
                if there and '200' not in new.replace(uri, ''):
                    raise Fail('%s: no status 200 for %s: %r' % (what, uri, new))
                if there and self.site.get(uri) == 'leaf':
                    heads = {'content-length': len(LEAF)}
                    if uri.split('#')[0] in w.web.headers:
                        heads.update((k.lower(), v) for k, v in w.web.headers[uri.split('#')[0]].items())
                    elif not re.match(r'\w+:', uri):
                        heads['last-modified'] = '2017-07-14T02:40:00Z'
                    for h, k in (('content-length', 'length'), ('content-type', 'type'),
                                 ('last-modified', 'lastmod')):
                        lines = [x for x in new.lower().splitlines() if x.strip().startswith(h + ':')]
                        if len(lines) != (h in heads):
                            raise Fail('%s: %s of %s shown %s: %r' % (what, h, uri, lines, new))
                        if not lines:
                            continue
                        if str(heads[h]).lower() not in lines[0]:
                            raise Fail('%s: %s %s of %s not shown: %r' % (what, h, heads[h], uri, new))
                        v = known.get(k)
                        rest = lines[0].replace(str(heads[h]).lower(), ' ')
                        said = ('matches' in rest, 'expected' in rest and 'matches' not in rest
                                if v is None else 'expected %s' % str(v).lower() in lines[0])
                        if h == 'last-modified' and 'GMT' in heads[h] and v == '2017-07-14T02:40:00Z':
                            continue    # the same time in another form: not judged
                        if said != (v is not None and str(v) == str(heads[h]),
                                    v is not None and str(v) != str(heads[h])):
                            raise Fail('%s: %s of %s is %s, listed as %s: %r' % (what, h, uri, heads[h], v, new))
                if not there and '200' in new.replace(uri, ''):
                    raise Fail('%s: status 200 for %s: %r' % (what, uri, new))

        failed = []

        def asked():
            try:
                verify()
            except Fail as e:       # whatever the code under test would do with it
                failed.append(e)
                raise NeedInput()
            i = len(typed)
            if i < len(first):
                k = first[i]
            elif i < len(first) + more:
                c = ctx.choose('key', len(keys) + 1)
                k = keys[c] if c < len(keys) else None
            else:
                raise NeedInput()
            typed.append(k)
            if k is None:
                b.over = True
                return ''           # end of input ends the session
            state['kind'] = b.key(k)
            return k + '\n'

        left = [False]

        def run():
            e = Explorer()
            if 'sitemap' in how:
                e.sitemap_name = how['sitemap'].replace('@', w.x)
            if 'map' in how:
                e.set_mappings([how['map'].replace('@', w.x) + '=dst'])
            old, sys.stdin = sys.stdin, Keys(asked)
            try:
                e.explore()
            except NeedInput:
                left[0] = True
            finally:
                sys.stdin = old

        def go():
            old, sys.stdin = sys.stdin, Keys(asked)
            try:
                script('resync-explorer')
            except NeedInput:
                left[0] = True
            finally:
                sys.stdin = old
        if 'argv' in how:
            o = tool(w, 'resync-explorer', [a.replace('@', w.x) for a in how['argv']], around=go)
            if starts is None and o.error is None and 'FatalError' in o.stderr:
                o.error = 'fatal'
        else:
            o = w.run(run)
        if failed:
            raise failed[0]
        what = 'start %s, keys %s' % (start, typed)
        token = 'Bearer sesame' if '--access-token' in how.get('argv', ()) else None
        for r in o.requests:
            if r.headers.get('authorization') != token:
                raise Fail('%s: request %s has authorization %s' % (what, r, r.headers.get('authorization')))
        slept = [sum(r.sleeps) for r in o.requests]
        pause = 0.25 if '--delay' in how.get('argv', ()) else 0
        if [y - x for x, y in zip(slept, slept[1:])] != [pause] * (len(slept) - 1):
            raise Fail('%s: pauses before requests %s' % (what, slept))
        if o.effects:
            raise Fail('%s: local effects %s' % (what, o.effects[:3]))
        if starts is None:
            if o.error != 'fatal':
                raise Fail('%s: %s %s, expected an error message' % (what, o.error, o.message))
            if o.requests:
                raise Fail('%s: requests %s' % (what, o.requests))
            ctx.trivial()
            return
        if o.error is not None:
            raise Fail('%s: session ended with %s: %s' % (what, o.error, o.message))
        if not left[0] and not b.over:
            raise Fail('%s: session ended at %s' % (what, b.current))
        if left[0] and b.over:
            raise Fail('%s: session goes on after its end' % what)
        if not left[0] and len(w.web.log) > state['log']:
            raise Fail('%s: requests after the end: %s' % (what, w.web.log[state['log']:]))
        if pages[0] > 3:
            ctx.sample({'start': start, 'keys': typed, 'requests': [str(r) for r in o.requests]})


# --- X01 ------------------------------------------------------------------------------------------

T0 = 1500000000
# resources of the source: name -> (content, time)
SRC = {'same': (b'same', T0), 'upd': (b'updated', T0 + 100), 'new': (b'new', T0 + 200),
       'dig': (b'digest', T0), 'n.tmp': (b'temporary', T0 + 50), 'd/u': (b'deep', T0 + 300)}
LOC = {'same': (b'same', T0), 'upd': (b'old', T0 - 100), 'dig': (b'tsegid', T0),
       'extra': (b'extra', T0), 'd/old': (b'in d', T0), 'k.tmp': (b'keep', T0)}
# option name -> arguments
SYNC = {'sitemap': ['--sitemap', META + '/alt.xml'],
        'capabilitylist': ['--capabilitylist', META + '/cap.xml'],
        'delete': ['--delete'], 'dryrun': ['--dryrun'], 'exclude': ['--exclude', r'.*\.tmp$'],
        'exdir': ['--exclude', 'd$'], 'md5': ['--hash', 'md5'], 'sha': ['--hash', 'sha-256'], 'checksum': ['--checksum'],
        'noauth': ['--noauth'], 'strictauth': ['--strictauth'],
        'ignore': ['--ignore-failures'], 'tries': ['--tries', '2'], 'timeout': ['--timeout', '7'],
        'token': ['--access-token', 'sesame'], 'delay': ['--delay', '0.5'],
        'multifile': ['--multifile'], 'max': ['--max-sitemap-entries', '1'],
        'spec': ['--spec-version', '1.0'], 'verbose': ['--verbose'],
        'logfile': ['--logger', '--logfile', 'client.log'],
        'from': ['--from', iso(T0 + 150)], 'cluri': ['--changelist-uri', META + '/chg.xml'],
        'empty': ['--empty'], 'eval': ['--eval']}
MODES = {'baseline': '--baseline', 'audit': '--audit', 'inc': '--incremental', 'parse': '--parse'}
WORLDS = ['good', 'foreign', 'outside', 'failing', 'slow', 'index']


class X01(Check):
    id = 'X01'
    rule = ('every combination of at most 2 (quick) / 3 (thorough) options with every mode and world; '
            'every link and capability argument over the alphabet; every expected failure')
    assumptions = ['options that a mode does not use have no effect on it']

    def cases(self, tier):
        deep = tier == 'thorough'
        for n in range(0, 4 if deep else 3):
            for os_ in itertools.combinations(sorted(SYNC), n):
                for m in MODES:
                    yield ['sync', m, list(os_)]
        if not deep:        # what needs another option
            for os_ in itertools.combinations(sorted(set(SYNC) - {'from'}), 2):
                yield ['sync', 'inc', ['from'] + list(os_)]
            for o in sorted(set(BUILD) - {'max', 'outfile'}):
                for m in BMODES:
                    yield ['build', m, ['max', 'outfile', o]]
        for a, b in itertools.permutations(list(MODES) + [None], 2):
            yield ['modes', a, b]
        for n in range(0, 4 if deep else 3):
            for os_ in itertools.combinations(sorted(BUILD), n):
                for m in BMODES:
                    yield ['build', m, list(os_)]
        parts = ['', 'a', 'rel=x', 'a=', '=b', 'a=b', 'c=d=e', 'href=z', ' ', '\u00e9=\u00fc', 'a=c']
        for n in range(0, 4 if not deep else 5):
            for p in itertools.product(parts, repeat=n):
                yield ['link', ','.join(p)]
        for k in range(len(FAILURES)):
            yield ['failure', k]
        for m in ('baseline', 'audit', 'inc', 'parse'):
            for v in ('0', '0.001', '0.5', '1', '9', '10', '11', '59', '60', '61', '90', '100', '300', '3600', '3601', '86400', '1000000',
                      '1e3', '.5', '007'):
                yield ['value', 'delay', m, v]
            for v in ('x', 'a b', 'a=', '\u00e9', 'Bearer t', ' a', 'a:b', '"a"', '%41', 'a,b', '0', 'None', 'a/b+c', '%s',
                      *('t' * n for n in (63, 64, 65, 128, 129, 255, 256, 257, 1025, 4097))):
                yield ['value', 'token', m, v]
        for m in ('baseline', 'inc'):
            for v in ('1', '2', '9', '10', '11', '29', '30', '31', '59', '60', '61', '120', '299', '300', '301', '3600', '86400', '1000000'):
                yield ['value', 'timeout', m, v]
            for v in (None, '1', '2', '3', '9', '10', '11', '19', '20', '21', '50', '51', '99', '100', '101', '128', '256', '300'):
                yield ['value', 'tries', m, v]
        for v in ('1', '2', '3', '4', '6', '9', '10', '11', '12', '13', '99', '100', '1000', '49999', '50000', '50001', '1000000000'):
            yield ['value', 'max', 'list', v]
        for v, t in (('2017', -10 ** 7), ('2017-07', -10 ** 6), ('2017-07-14', -9600), ('2017-07-14T02:42Z', 120), ('2017-07-14T02:43Z', 180),
                     ('2017-07-14T02:43:20Z', 200), ('2017-07-14T02:43:21Z', 201),
                     ('2017-07-14T02:43:19.999Z', 199.999), ('2017-07-14T02:43:20.001Z', 200.001),
                     ('2017-07-15', 76800), ('2018', 10 ** 7), ('1969-12-31', -T0 - 86400), ('1900-01-01', -T0 * 2),
                     ('2200-01-01', 10 ** 10), ('2039-01-01T00:00:00Z', 10 ** 9)):
            yield ['value', 'from', 'inc', [v, t]]
        for name, spell in sorted(SPELL.items()):
            for long, others in sorted(spell.items()):
                for x in others:
                    for m in (list(MODES) if name == _S else BMODES if name == _B else ['explore']):
                        if not long.startswith('--write') or long in BMODE[m]:
                            yield ['spell', name, m, long, x]
        for name, modes in ((_S, list(MODES)), (_B, BMODES), ('resync-explorer', ['explore'])):
            for m in modes:
                for n in range(5):
                    for os_ in itertools.combinations(LOGS, n):
                        if name != 'resync-explorer' or 'eval' not in os_:
                            yield ['console', name, m, list(os_)]

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        ctx.state(case)
        getattr(self, 'run_' + case[0])(ctx, *case[1:])

    # --- resync-sync

    def source(self, w, world):
        """Serve one of the worlds; returns {list name: {uri: (content, time)}}."""
        import hashlib
        res = {BASE + '/' + n: v for n, v in SRC.items()}
        if world == 'foreign':
            res['http://other.example/f'] = (b'foreign', T0 + 20)
        elif world == 'outside':
            res['http://src.example/else/o'] = (b'outside', T0 + 20)

        def entry(u, **kw):
            b, t = res[u]
            return dict(loc=u, lastmod=t, length=len(b), hash='md5:%s sha-256:%s' % (
                hashlib.md5(b).hexdigest(), hashlib.sha256(b).hexdigest()), **kw)
        lists = {BASE + '/resourcelist.xml': sorted(res)}
        res[BASE + '/alt'] = (b'alternative', T0 + 40)
        res[BASE + '/cap'] = (b'by capability', T0 + 40)
        lists[META + '/alt.xml'] = sorted(lists[BASE + '/resourcelist.xml'] + [BASE + '/alt'])
        lists[META + '/bycap.xml'] = sorted(lists[BASE + '/resourcelist.xml'] + [BASE + '/cap'])
        docs = {u: b for u, (b, t) in res.items()}
        for l, us in lists.items():
            docs[l] = xml_doc('resourcelist', [entry(u) for u in us])
            if world == 'index':
                docs[l + '.1'] = xml_doc('resourcelist', [entry(u) for u in us[:2]])
                docs[l + '.2'] = xml_doc('resourcelist', [entry(u) for u in us[2:]])
                docs[l] = xml_doc('resourcelist', [{'loc': l + '.1'}, {'loc': l + '.2'}], index=True)
        docs[META + '/cap.xml'] = xml_doc('capabilitylist', [
            {'loc': META + '/bycap.xml', 'capability': 'resourcelist'}])
        # change lists: default one below BASE, another one below META
        ch = {}
        ch[BASE + '/changelist.xml'] = [('upd', 'updated', 100), ('new', 'created', 200),
                                        ('extra', 'deleted', 250), ('d/u', 'created', 300),
                                        ('n.tmp', 'created', 310), ('k.tmp', 'deleted', 320)]
        ch[META + '/chg.xml'] = [('new', 'created', 200), ('dig', 'updated', 210)]
        for l, changes in ch.items():
            es = []
            for n, c, dt in changes:
                if c == 'deleted':
                    es.append({'loc': BASE + '/' + n, 'change': c, 'lastmod': T0 + dt,
                               'datetime': T0 + dt})
                else:
                    e = entry(BASE + '/' + n, change=c, datetime=T0 + dt)
                    e['lastmod'] = T0 + dt
                    es.append(e)
            if world == 'foreign':
                es.append(entry('http://other.example/f', change='created', datetime=T0 + 400))
            elif world == 'outside':
                es.append(entry('http://src.example/else/o', change='created', datetime=T0 + 400))
            docs[l] = xml_doc('changelist', es)
        w.web.docs = docs
        seen = {}

        def fault(uri, r):
            if world == 'failing' and uri == BASE + '/upd':
                return '404'
            if world == 'slow' and uri == BASE + '/new' and r.method == 'GET':
                seen[uri] = seen.get(uri, 0) + 1
                return 'timeout' if seen[uri] <= 2 else None
        w.web.fault = fault
        return res, lists, ch

    def predict(self, mode, opts, world, res, lists, ch):
        """(error expected, {name: (content, time)} or None, names that must be unchanged)."""
        on = set(opts)
        tree = {n: v for n, v in LOC.items()}
        base = BASE + '/resourcelist.xml'
        used = META + '/alt.xml' if 'sitemap' in on else \
            META + '/bycap.xml' if 'capabilitylist' in on else base
        named = META + '/alt.xml' if 'sitemap' in on else base
        # the extra mappings make these local
        local = {'http://other.example/f': 'f', 'http://src.example/else/o': 'o'}

        def name(u):
            return local.get(u) or u[len(BASE) + 1:]

        def excluded(n):
            return 'exclude' in on and n.endswith('.tmp') or 'exdir' in on and n.startswith('d/')

        def refused(lists_, uris):
            if 'noauth' in on:
                return False
            for u in uris:
                ok = False
                for l in lists_:
                    if 'strictauth' in on:
                        ok = ok or u.startswith(l[:l.rindex('/') + 1])
                    else:
                        ok = ok or u.split('/')[2] == l.split('/')[2]
                if not ok:
                    return True
            return False
        if mode == 'parse':
            return False, tree, named
        todo = {}
        if mode in ('baseline', 'audit'):
            if world == 'index' and 'multifile' in on:
                return True, tree, used
            us = [u for u in lists[used] if not excluded(name(u))]
            dig = on & {'md5', 'sha', 'checksum'}
            for u in us:
                n, (b, t) = name(u), res[u]
                if n not in tree:
                    todo[n] = (u, 'created')
                elif len(tree[n][0]) != len(b) or tree[n][1] != t or (dig and tree[n][0] != b):
                    todo[n] = (u, 'updated')
            for n in tree:
                if n not in [name(u) for u in us] and not excluded(n):
                    todo[n] = (None, 'deleted')
            if mode == 'audit':
                return False, tree, used
            if refused([named], us):
                return True, tree, used
        else:
            if 'from' not in on:
                return True, tree, used
            cl = META + '/chg.xml' if 'cluri' in on else BASE + '/changelist.xml'
            us = [BASE + '/' + n for n, c, dt in ch[cl] if not excluded(n)]
            if world == 'foreign':
                us.append('http://other.example/f')
            elif world == 'outside':
                us.append('http://src.example/else/o')
            if refused([cl] + ([] if 'cluri' in on else [named]), us):
                return True, tree, used
            for n, c, dt in ch[cl]:
                if dt >= 150 and not excluded(n):
                    todo[n] = (None if c == 'deleted' else BASE + '/' + n, c)
            for u, n in local.items():
                if u in us and (world == 'foreign' or world == 'outside'):
                    if 'spec' not in on or res[u][1] >= T0 + 150:
                        todo[n] = (u, 'created')
        if 'dryrun' in on:
            return False, tree, used
        error = False
        for n, (u, c) in todo.items():
            if c == 'deleted':
                if 'delete' in on:
                    tree.pop(n, None)
                continue
            fails = (world == 'failing' and n == 'upd') or \
                (world == 'slow' and n == 'new' and 'tries' in on)
            if fails:
                if 'ignore' not in on:
                    error = True
                continue
            t = res[u][1]
            if mode == 'inc' and u.startswith(BASE):
                t = T0 + dict((a, d) for a, _, d in ch[cl])[n]
            tree[n] = (res[u][0], t)
        if error:
            return True, None, used
        return False, tree, used

    def run_sync(self, ctx, mode, opts):
        for world in WORLDS:
            if world == 'index' and mode == 'inc':
                continue
            w = World(ctx)
            what = 'resync-sync %s %s, %s source' % (MODES[mode], ' '.join(opts), world)
            for n, (b, t) in LOC.items():
                put('dst/' + n, b, t)
            res, lists, ch = self.source(w, world)
            argv = [MODES[mode]]
            for o in opts:
                argv += SYNC[o]
            argv += [BASE + '=dst']
            if world in ('foreign', 'outside'):
                os.mkdir('dst2')
                argv += ['http://other.example=dst2' if world == 'foreign' else
                         'http://src.example/else=dst2']
            o = tool(w, 'resync-sync', argv)
            if o.error not in (None,):
                raise Fail('%s ended with %s: %s' % (what, o.error, o.message))
            error, tree, used = self.predict(mode, opts, world, res, lists, ch)
            if ('FatalError' in o.stderr) != error:
                raise Fail('%s: %s, expected %s' % (what, o.stderr[-300:] or 'no error',
                                                    'an error' if error else 'none'))
            got = {}
            for d in ('dst', 'dst2'):
                if os.path.isdir(d):
                    for k, v in snapshot(d).items():
                        if v[0] == 'f':
                            got[k] = (v[1], v[2] // 1000000000)
            if tree is not None and got != tree:
                raise Fail('%s: destination %s, expected %s'
                           % (what, {k: v for k, v in got.items() if tree.get(k) != v},
                              {k: v for k, v in tree.items() if got.get(k) != v}))
            self.requests(w, o, mode, opts, what, used, error)
            others = [k for k in snapshot('.') if not k.startswith('dst')]
            allowed = {'.resync-client-status.cfg'} if mode in ('baseline', 'inc') and \
                'dryrun' not in opts else set()
            if 'logfile' in opts:
                allowed.add('client.log')
                if 'client.log' not in others:
                    raise Fail('%s: no log file' % what)
            if set(others) - allowed:
                raise Fail('%s left %s' % (what, others))
            if mode == 'parse':
                n = len(lists[used]) if world != 'index' else 2
                if not re.search(r'\b%d\b' % n, o.stdout.split('\n')[0]) \
                        or 'resourcelist' not in o.stdout:
                    raise Fail('%s printed %r for %d entries' % (what, o.stdout[:200], n))
            ctx.sample({'argv': argv, 'error': error})

    def requests(self, w, o, mode, opts, what, used, error):
        on = set(opts)
        uris = [r.uri for r in o.requests]
        if mode in ('baseline', 'audit', 'parse') and used not in uris:
            raise Fail('%s: %s was not requested: %s' % (what, used, uris))
        if mode == 'inc' and not error or (mode == 'inc' and 'from' in on):
            cl = META + '/chg.xml' if 'cluri' in on else BASE + '/changelist.xml'
            if cl not in uris:
                raise Fail('%s: %s was not requested: %s' % (what, cl, uris))
        if mode in ('audit', 'parse') or 'dryrun' in on:
            bad = [u for u in uris if w.web.docs.get(u, b'<')[:1] != b'<']
            if bad:
                raise Fail('%s requested resources %s' % (what, bad))
        for r in o.requests:
            auth = r.headers.get('authorization')
            if auth != ('Bearer sesame' if 'token' in on else None):
                raise Fail('%s: request with authorization %s' % (what, auth))
            if r.uri.startswith(BASE) and not r.uri.endswith('.xml') and '.well-known' not in r.uri \
                    and '.xml.' not in r.uri:
                if 'timeout' in on and r.timeout != 7:
                    raise Fail('%s: request of %s with timeout %s' % (what, r.uri, r.timeout))
                if 'timeout' not in on and isinstance(r.timeout, (int, float)):
                    raise Fail('%s: request of %s with timeout %s' % (what, r.uri, r.timeout))
        n = len(o.requests)
        slept = [round(sum(r.sleeps), 3) for r in o.requests]
        for i, (a, b) in enumerate(zip(slept, slept[1:])):
            if b - a != (0.5 if 'delay' in on else 0):
                raise Fail('%s: pauses before requests %s' % (what, slept))

    # --- values of options

    def run_value(self, ctx, opt, mode, value):
        what = '%s with %s %s' % (mode, opt, value)
        w = World(ctx)
        if opt == 'max':
            os.mkdir('pub')
            for i in range(12):
                put('t/%02d' % i, b'x' * i, T0)
            o = tool(w, 'resync-build', ['--write-resourcelist', '--outfile', 'pub/rl.xml', '--max-sitemap-entries', value,
                                         BASE + '=t', META + '=pub'])
            if o.error or 'FatalError' in o.stderr:
                raise Fail('%s: %s %s' % (what, o.error, o.stderr[-300:]))
            n = int(value)
            sizes = []
            for f in sorted(os.listdir('pub')):
                root, md, ln, entries = parse(get('pub/' + f), what)
                if f == 'rl.xml' and n < 12:
                    if root != 'sitemapindex' or len(entries) != -(-12 // n):
                        raise Fail('%s: %s of %d entries' % (what, root, len(entries)))
                else:
                    sizes.append(len(entries))
            if sizes != [n] * (12 // n) + ([12 % n] if 12 % n else []) if n < 12 else sizes != [12]:
                raise Fail('%s: documents of %s entries' % (what, sizes))
            return
        for k in ((0,) if opt != 'tries' else (int(value or 20) - 1, int(value or 20))):
            w = World(ctx)
            for n, (b, t) in LOC.items():
                put('dst/' + n, b, t)
            res, lists, ch = self.source(w, 'good')
            seen = []

            def fault(uri, r):
                if opt == 'tries' and uri == BASE + '/new':
                    seen.append(r)
                    return 'timeout' if len(seen) <= k else None
            w.web.fault = fault
            argv = [MODES[mode]]
            opts = ['from'] if mode == 'inc' else []
            if opt == 'from':
                argv += ['--from', value[0]]
            elif mode == 'inc':
                argv += SYNC['from']
            if value is not None and opt != 'from':
                argv += ['--' + {'token': 'access-token'}.get(opt, opt), value] if not value.startswith('-') else []
            o = tool(w, 'resync-sync', argv + ['--delete', BASE + '=dst'])
            if o.error is not None:
                raise Fail('%s: %s %s' % (what, o.error, o.message))
            error = 'FatalError' in o.stderr
            if error != (opt == 'tries' and k == int(value or 20)):
                raise Fail('%s, %d timeouts: %s' % (what, k, o.stderr[-300:] or 'no error'))
            slept = [round(sum(r.sleeps), 6) for r in o.requests]
            pause = float(value) if opt == 'delay' else 0
            if [round(b - a, 6) for a, b in zip(slept, slept[1:])] != [pause] * (len(slept) - 1):
                raise Fail('%s: pauses before requests %s' % (what, slept))
            for r in o.requests:
                if r.headers.get('authorization') != ('Bearer ' + value if opt == 'token' else None):
                    raise Fail('%s: request with authorization %r' % (what, r.headers.get('authorization')))
                if opt == 'timeout' and r.uri in res and r.timeout != int(value):
                    raise Fail('%s: request of %s with timeout %s' % (what, r.uri, r.timeout))
            if opt == 'tries' and len(seen) != int(value or 20):
                raise Fail('%s, %d timeouts: %d requests' % (what, k, len(seen)))
            got = {f: v[1] for f, v in snapshot('dst').items() if v[0] == 'f'}
            if opt == 'from':
                want = {f: b for f, (b, t) in LOC.items()}
                for f, c, dt in ch[BASE + '/changelist.xml']:
                    if dt >= value[1]:
                        if c == 'deleted':
                            want.pop(f, None)
                        else:
                            want[f] = res[BASE + '/' + f][0]
                if got != want:
                    raise Fail('%s: destination %s, should be %s' % (what, sorted(got), sorted(want)))
            elif not error and mode in ('baseline', 'inc') and got.get('new') != b'new':
                raise Fail('%s: destination %s' % (what, sorted(got)))

    # --- spelling of options, console and log file

    def plain(self, ctx, name, mode, argv, world='good', prepare=None):
        w = World(ctx)
        for n, (b, t) in LOC.items():
            put('dst/' + n, b, t)
        for n in ('a', 'd/b', 'x.tmp'):
            put('t/' + n, n.encode(), T0)
        os.mkdir('pub')
        put('ref.xml', xml_doc('resourcelist', [dict(loc=BASE + '/z', lastmod=T0, length=1)]))
        self.source(w, world)
        if prepare:
            prepare()
        log = []

        def go():
            import logging
            h = logging.Handler(1)
            h.emit = lambda r: log.append((r.levelno, r.getMessage(), r.name))
            old, sys.stdin = sys.stdin, io.StringIO('q\n')
            for n in ('resync', 'client'):
                logging.getLogger(n).addHandler(h)
            try:
                script(name)
            finally:
                sys.stdin = old
                for n in ('resync', 'client'):
                    logging.getLogger(n).removeHandler(h)
        o = tool(w, name, argv, around=go)
        return o, log, snapshot('.')

    @staticmethod
    def basic(name, mode):
        if name == _S:
            return [MODES[mode]] + (['--from', iso(T0 + 150)] if mode == 'inc' else []), [BASE + '=dst']
        if name == _B:
            return list(BMODE[mode]), [BASE + '=t', META + '=pub']
        return ['--sitemap', META + '/cap.xml'], []

    def run_spell(self, ctx, name, mode, long, short):
        first, last = self.basic(name, mode)
        value = VALUES.get(long, [])
        if long in first:
            argv = [first, [short if x == long else x for x in first]]
        elif long in list(MODES.values()):
            return ctx.trivial()
        else:
            argv = [first + [long] + value, first + [short] + value]
        seen = []
        for a in argv:
            o, log, tree = self.plain(ctx, name, mode, a + last, world='slow')
            seen.append(repr((o.error, o.message, o.stdout, o.stderr, [str(r) for r in o.requests],
                              [str(r.timeout) for r in o.requests], log,
                              [(k, v if k.startswith('dst') else v[:2]) for k, v in tree.items()
                               if not k.endswith(('.log', '.zip'))],
                              sorted(tree))))
        seen = [re.sub(r'\d\d\d\d-\d\d-\d\dT[\d:.]+Z', 'T', x) for x in seen]
        if seen[0] != seen[1]:
            i = next(i for i in range(len(seen[0])) if seen[0][:i + 1] != seen[1][:i + 1])
            raise Fail('%s %s differs from %s: %r / %r' % (name, argv[0] + last, argv[1] + last,
                                                         seen[0][max(0, i - 80):i + 80],
                                                         seen[1][max(0, i - 80):i + 80]))

    def run_console(self, ctx, name, mode, opts):
        first, last = self.basic(name, mode)
        argv = first + [x for o in opts for x in LOGS[o]] + last
        what = '%s %s' % (name, ' '.join(argv))
        path = 'my.log' if 'logfile' in opts else \
            'resync-explorer.log' if 'explorer' in name else 'resync-client.log'
        for old in (None, b'an older line\n'):
            for world in ('good', 'failing') if name == _S else ('good',):
                o, log, tree = self.plain(ctx, name, mode, argv, world,
                                          (lambda: put(path, old)) if old else None)
                if name == _S and mode == 'inc' and len(log) < 5:
                    raise Fail('%s: log is %s' % (what, log))
                err = o.stderr.split('\nFatalError: ')[0]
                want = ''.join(m + '\n' for l, m, _ in log if l >= (20 if 'verbose' in opts else 30))
                if err != want:
                    raise Fail('%s: wrote %r, logged %r' % (what, err, want))
                logs = sorted(k for k in tree if k.endswith('.log'))
                if 'logger' not in opts:
                    if 'logfile' in opts and not old:
                        continue        # (whether this alone asks for a log is not judged)
                    if logs != ([path] if old else []) or old and 'logfile' not in opts and tree[path][1] != old:
                        raise Fail('%s: log files %s' % (what, logs))
                    continue
                if logs != [path]:
                    raise Fail('%s: log files %s, expected %s' % (what, logs, path))
                text = tree[path][1].decode('utf-8')
                if old:
                    if not text.startswith(old.decode()):
                        raise Fail('%s: the log file was overwritten: %r' % (what, text[:100]))
                    text = text[len(old):]
                want = [(n, l, m) for l, m, n in log if l >= (10 if 'eval' in opts else 20)]
                for n, l, m in want:
                    level = {10: 'DEBUG', 20: 'INFO', 30: 'WARNING', 40: 'ERROR', 50: 'CRITICAL'}[l]
                    line, sep, rest = text.partition(m + '\n')
                    if not sep or not re.match(r'^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?Z \| %s \| %s \| $'
                                               % (re.escape(n), level), line):
                        raise Fail('%s: log file has %r for %s %r' % (what, text[:200], level, m))
                    text = rest
                if text:
                    raise Fail('%s: log file ends with %r' % (what, text))

    def run_modes(self, ctx, a, b):
        w = World(ctx)
        put('dst/x', b'x', T0)
        self.source(w, 'good')
        before = snapshot('.')
        for extra in ([], ['--delete'], ['--dryrun']):
            argv = [MODES[m] for m in (a, b) if m] + extra + [BASE + '=dst']
            if a and b:
                pass
            else:
                argv = extra + [BASE + '=dst']      # no mode at all
            o = tool(w, 'resync-sync', argv)
            if o.error != 'exit' or o.message in ('0', 'None') or not o.stderr.strip():
                raise Fail('resync-sync %s was not refused: %s' % (argv, o))
            if o.requests or snapshot('.') != before:
                raise Fail('resync-sync %s was refused, but had effects' % argv)
        argv = [BMODES[0]] + [BMODES[1]] + [BASE + '=dst']
        for argv in ([BMODE['list'][0], BMODE['empty'][0], '--empty', BASE + '=dst'],
                     [BASE + '=dst'], ['--outfile', 'o', BASE + '=dst'],
                     [BMODE['list'][0]] + BMODE['caps'] + ['--outfile', 'o', BASE + '=dst'],
                     BMODE['caps'] + BMODE['desc'],
                     ['--write-resourcelist', '--write-resourcedump', BASE + '=dst'],
                     ['--write-changelist', '--outfile', 'o', BASE + '=dst']):
            o = tool(w, 'resync-build', argv)
            if o.error != 'exit' or o.message in ('0', 'None') or not o.stderr.strip():
                raise Fail('resync-build %s was not refused: %s' % (argv, o))
            if snapshot('.') != before:
                raise Fail('resync-build %s was refused, but wrote files' % argv)

    # --- resync-build

    def run_build(self, ctx, mode, opts):
        import hashlib
        w = World(ctx)
        on = set(opts)
        tree = {'a': (b'aaa', T0), 'd/b': (b'bbbb', T0 + 1), 'x.tmp': (b'tmp', T0 + 2)}
        for n, (b, t) in tree.items():
            put('t/' + n, b, t)
        # references: without a, with z
        ref = [dict(loc=BASE + '/d/b', lastmod=T0 + 1, length=4),
               dict(loc=BASE + '/z', lastmod=T0, length=1)]
        put('ref.xml', xml_doc('resourcelist', ref))
        put('new.xml', xml_doc('resourcelist', ref[:1] + [dict(loc=BASE + '/w', lastmod=T0,
                                                              length=2)]))
        argv = list(BMODE[mode])
        for o_ in opts:
            argv += BUILD[o_]
        argv += [BASE + '=t', META + '=pub']
        os.mkdir('pub')
        what = 'resync-build %s' % ' '.join(argv)
        before = snapshot('.')
        o = tool(w, 'resync-build', argv)
        after = snapshot('.')
        new = {k for k in after if before.get(k) != after[k]}
        if any(before[k] != after.get(k) for k in before):
            raise Fail('%s changed files: %s' % (what, diff(before, after)))
        if 'log' in on:
            if 'build.log' not in new:
                raise Fail('%s: no log file' % what)
            new.discard('build.log')
        disk = {n: v for n, v in tree.items()
                if not ('exclude' in on and n.endswith('.tmp'))
                and not ('exdir' in on and n.startswith('d/') and 'paths' not in on)
                and not ('paths' in on and not n.startswith('d/'))}
        names = {n: None for n in disk}
        if mode == 'change':
            target = {'d/b': (4, T0 + 1), 'w': (2, T0)} if 'newref' in on else \
                {n: (len(b), t) for n, (b, t) in disk.items()}
            old = {'d/b': (4, T0 + 1), 'z': (1, T0)}
            names = {n: 'created' if n not in old else 'updated' for n in target
                     if old.get(n) != target[n]}
            names.update({n: 'deleted' for n in old if n not in target})
        if 'empty' in on and mode == 'change' or mode == 'empty':
            names = {}
        if mode in ('caps', 'desc'):
            names = None
        if mode == 'dump':
            z = [k for k in new if k.endswith('.zip')]
            if o.error is not None or 'Error' in o.stderr or len(z) != 1:
                raise Fail('%s: %s %s, wrote %s' % (what, o.error, o.stderr, sorted(new)))
            with zipfile.ZipFile(io.BytesIO(after[z[0]][1])) as zf:
                got = len(zf.namelist()) - 1
            if got != len(disk):
                raise Fail('%s: %d files in the dump, expected %s' % (what, got, sorted(disk)))
            if ('outfile' in on) != all(k.startswith('pub/out.xml') for k in new):
                raise Fail('%s wrote %s' % (what, sorted(new)))
            return
        count = len(names) if names is not None else 0
        if 'max' in on and count > 1:
            if 'outfile' not in on:
                # cannot be split on standard output
                if o.error is not None or 'Error' not in o.stderr or '<?xml' in o.stdout:
                    raise Fail('%s: %s %s, printed %r' % (what, o.error, o.stderr[-200:],
                                                         o.stdout[:200]))
                return
            if 'multi' in on and mode in ('list', 'change'):
                if o.error is not None or 'Error' not in o.stderr:
                    raise Fail('%s: %s %s' % (what, o.error, o.stderr))
                return
        if o.error is not None or 'Error' in o.stderr:
            raise Fail('%s: %s %s %s' % (what, o.error, o.message, o.stderr[-300:]))
        if 'outfile' in on:
            if 'pub/out.xml' not in new or (len(new) > 1) != ('max' in on and count > 1):
                raise Fail('%s wrote %s' % (what, sorted(new)))
            data = after['pub/out.xml'][1].decode('utf-8')
        else:
            if new:
                raise Fail('%s wrote %s' % (what, sorted(new)))
            data = o.stdout
            if 'verbose' in on:     # also says other things
                data = data[max(data.find('<?xml'), 0):data.rfind('>') + 1]
        root, md, ln, es = parse(data.strip(), what)
        cap = {'list': 'resourcelist', 'change': 'changelist', 'empty': 'changelist',
               'caps': 'capabilitylist', 'desc': 'description'}[mode]
        if md.get('capability') != cap:
            raise Fail('%s: capability %s' % (what, md))
        links = []
        if 'describedby' in on:
            links.append(('describedby', 'http://l/d', None))
        if 'capl' in on and mode in ('list', 'change', 'empty'):
            links.append(('up', 'http://l/c', None))
        if 'srcd' in on and mode == 'caps':
            links.append(('up', 'http://l/s', None))
        if 'link' in on:
            links += [('r1', 'http://l/1', None), ('r2', 'http://l/2', 't')]
        got = [(l.get('rel'), l.get('href'), l.get('type')) for l in ln]
        if sorted(got, key=str) != sorted(links, key=str):
            raise Fail('%s: links %s, expected %s' % (what, got, links))
        if 'max' in on and count > 1:
            if root != 'sitemapindex' or len(es) != count:
                raise Fail('%s: %s of %d parts, expected %d' % (what, root, len(es), count))
            return
        if mode == 'caps':
            if sorted((e.get('capability'), e['loc']) for e in es) != \
                    [('changelist', 'http://l/cl'), ('resourcelist', 'http://l/rl')]:
                raise Fail('%s: entries %s' % (what, es))
            return
        if mode == 'desc':
            if [(e.get('capability'), e['loc']) for e in es] != \
                    [('capabilitylist', 'http://l/c1'), ('capabilitylist', 'http://l/c2')]:
                raise Fail('%s: entries %s' % (what, es))
            return
        got = {e['loc'][len(BASE) + 1:]: e.get('change') for e in es}
        if got != names:
            raise Fail('%s: entries %s, expected %s' % (what, got, names))
        want = set()
        if 'hash' in on:
            want.add('sha-256')
        if 'checksum' in on:
            want.add('md5')
        for e in es:
            n = e['loc'][len(BASE) + 1:]
            if n in disk and not ('newref' in on and mode == 'change'):
                have = {h.split(':')[0] for h in (e.get('hash') or '').split()}
                if have != want:
                    raise Fail('%s: digests %s, expected %s' % (what, have, want))

    # --- arguments

    def run_link(self, ctx, arg):
        from resync.client_utils import (parse_link, parse_links, parse_capabilities,
                                         parse_capability_lists, ClientFatalError)

        def attempt(f, a):
            try:
                return f(a)
            except ClientFatalError:
                return None
            except Exception as e:
                raise Fail('%s(%r) ended with %s: %s' % (f.__name__, a, type(e).__name__, e))
        segs = arg.split(',')
        want = None
        pairs = [tuple(s.split('=')) for s in segs[2:]]
        if len(segs) >= 2 and segs[1] != '' and all(len(p) == 2 and p[0] and p[1] for p in pairs):
            want = {'rel': segs[0], 'href': segs[1]}
            if not {'rel', 'href'} & {p[0] for p in pairs}:
                want.update(pairs)
                got = attempt(parse_link, arg)
                if got != want:
                    raise Fail('link %r is parsed as %s, expected %s' % (arg, got, want))
                got = attempt(parse_links, ['x,y', arg])
                if got != [{'rel': 'x', 'href': 'y'}, want]:
                    raise Fail('links x,y and %r are parsed as %s' % (arg, got))
        else:
            for f, a in ((parse_link, arg), (parse_links, [arg]), (parse_links, ['x,y', arg])):
                got = attempt(f, a)
                if got is not None:
                    raise Fail('bad link %r is parsed as %s' % (arg, got))
        pairs = [s.split('=') for s in segs]
        got = attempt(parse_capabilities, arg)
        if all(len(p) == 2 for p in pairs):
            if got is None or sorted(got.items()) != sorted({p[0]: p[1] for p in pairs}.items()):
                raise Fail('capabilities %r are parsed as %s' % (arg, got))
        elif got is not None:
            raise Fail('bad capabilities %r are parsed as %s' % (arg, got))
        got = attempt(parse_capability_lists, arg)
        if got != segs:
            raise Fail('capability lists %r are parsed as %s' % (arg, got))

    def run_failure(self, ctx, k):
        name, argv = FAILURES[k]
        w = World(ctx)
        put('dst/a', b'a', T0)
        put('t/a', b'a', T0)
        put('bad.xml', b'<urlset')
        put('html', b'<html/>')
        os.mkdir('ro')
        put('ref.xml', xml_doc('resourcelist', [dict(loc=BASE + '/z%d' % i, lastmod=T0)
                                                for i in range(3)]))
        w.web.docs = {META + '/bad.xml': b'<urlset', META + '/html': b'<html/>',
                      META + '/empty.xml': xml_doc('resourcelist', []),
                      META + '/cl.xml': xml_doc('changelist', [
                          dict(loc=BASE + '/a', change='exploded', datetime=T0, lastmod=T0)]),
                      META + '/nodate.xml': xml_doc('changelist', [
                          dict(loc=BASE + '/a', change='updated', lastmod=T0)]),
                      META + '/none.xml': xml_doc('changelist', [
                          dict(loc=BASE + '/a', change='updated')]),
                      META + '/unmapped.xml': xml_doc('resourcelist', [
                          dict(loc='http://src.example/q', lastmod=T0)]),
                      META + '/ok.xml': xml_doc('resourcelist', [
                          dict(loc=BASE + '/a', lastmod=T0 + 5, length=2)]),
                      META + '/cap.xml': xml_doc('capabilitylist', [])}
        before = snapshot('.')
        o = tool(w, name, argv)
        what = '%s %s' % (name, ' '.join(argv))
        if o.error not in (None, 'exit'):
            raise Fail('%s ended with a traceback: %s: %s' % (what, o.error, o.message))
        if o.error == 'exit' and o.message in ('0', 'None'):
            raise Fail('%s: no failure' % what)
        if not o.stderr.strip() or 'Traceback' in o.stderr:
            raise Fail('%s: no error message: %r' % (what, o.stderr[-300:]))
        if o.error is None and 'rror' not in o.stderr:
            raise Fail('%s: no error message: %r' % (what, o.stderr[-300:]))
        if '<?xml' in o.stdout:
            raise Fail('%s printed a document' % what)
        after = snapshot('.')
        if before != after:
            raise Fail('%s failed, but changed files: %s' % (what, diff(before, after)))


BMODE = {'list': ['--write-resourcelist'],
         'change': ['--write-changelist', '--reference', 'ref.xml'],
         'empty': ['--write-changelist', '--empty'],
         'caps': ['--write-capabilitylist', 'resourcelist=http://l/rl,changelist=http://l/cl'],
         'desc': ['--write-sourcedescription', 'http://l/c1,http://l/c2'],
         'dump': ['--write-resourcedump']}
BMODES = list(BMODE)
BUILD = {'outfile': ['--outfile', 'pub/out.xml'], 'hash': ['--hash', 'sha-256'],
         'checksum': ['--checksum'], 'exclude': ['--exclude', r'.*\.tmp$'],
         'exdir': ['--exclude', 'd$'], 'paths': ['--paths', 't/d'], 'describedby': ['--describedby-link', 'http://l/d'],
         'capl': ['--capabilitylist-link', 'http://l/c'],
         'srcd': ['--sourcedescription-link', 'http://l/s'],
         'link': ['--link', 'r1,http://l/1', '--link', 'r2,http://l/2,type=t'],
         'max': ['--max-sitemap-entries', '1'], 'newref': ['--newreference', 'new.xml'],
         'empty': ['--empty'], 'spec': ['--spec-version', '1.0'], 'multi': ['--multifile'],
         'verbose': ['--verbose'], 'log': ['--logger', '--logfile', 'build.log'],
         'eval': ['--eval']}
_S, _B = 'resync-sync', 'resync-build'
_M = [BASE + '=dst']
# other spellings of options in the help
_C = {'--multifile': ['-m'], '--logger': ['-l'], '--verbose': ['-v']}
SPELL = {
    _S: dict(_C, **{'--baseline': ['-b'], '--incremental': ['--inc', '-i'], '--audit': ['-a'], '--parse': ['-p'],
                    '--capabilitylist': ['--capability-list'], '--changelist-uri': ['--change-list-uri'],
                    '--dryrun': ['-n'], '--eval': ['-e'], '--tries': ['-t'], '--timeout': ['-T']}),
    _B: dict(_C, **{'--write-resourcelist': ['--write-resource-list'],
                    '--write-changelist': ['--write-change-list'],
                    '--write-capabilitylist': ['--write-capability-list'],
                    '--write-sourcedescription': ['--write-source-description'],
                    '--write-resourcedump': ['--write-resource-dump', '-d'],
                    '--sourcedescription-link': ['--source-description-link'],
                    '--capabilitylist-link': ['--capability-list-link'], '--dryrun': ['-n'], '--eval': ['-e']}),
    'resync-explorer': dict(_C, **{'--changelist-uri': ['--change-list-uri']})}
VALUES = {'--capabilitylist': [META + '/cap.xml'], '--changelist-uri': [META + '/chg.xml'], '--tries': ['2'],
          '--timeout': ['7'], '--sourcedescription-link': ['http://l/s'], '--capabilitylist-link': ['http://l/c']}
LOGS = {'verbose': ['--verbose'], 'logger': ['--logger'], 'logfile': ['--logfile', 'my.log'], 'eval': ['--eval']}
FAILURES = [
    (_S, ['--baseline', '--sitemap', META + '/nothere.xml'] + _M),
    (_S, ['--baseline', '--sitemap', META + '/bad.xml'] + _M),
    (_S, ['--baseline', '--sitemap', META + '/html'] + _M),
    (_S, ['--baseline', '--sitemap', META + '/empty.xml'] + _M),
    (_S, ['--baseline', '--sitemap', 'nofile.xml'] + _M),
    (_S, ['--baseline', '--sitemap', META + '/unmapped.xml'] + _M),
    (_S, ['--baseline', '--capabilitylist', META + '/nothere.xml'] + _M),
    (_S, ['--baseline', '--capabilitylist', META + '/cap.xml'] + _M),
    (_S, ['--baseline', '--capabilitylist', META + '/bad.xml'] + _M),
    (_S, ['--baseline'] + _M),
    (_S, ['--baseline']),
    (_S, ['--audit']),
    (_S, ['--audit', '--sitemap', META + '/bad.xml'] + _M),
    (_S, ['--incremental']),
    (_S, ['--incremental'] + _M),
    (_S, ['--incremental', '--from', 'yesterday'] + _M),
    (_S, ['--incremental', '--from', ''] + _M),
    (_S, ['--incremental', '--from', '2001-01-01'] + _M),
    (_S, ['--incremental', '--from', '2001-01-01', '--changelist-uri', META + '/bad.xml'] + _M),
    (_S, ['--incremental', '--from', '2001-01-01', '--changelist-uri', META + '/cl.xml'] + _M),
    (_S, ['--incremental', '--from', '2001-01-01', '--changelist-uri', META + '/nodate.xml'] + _M),
    (_S, ['--incremental', '--from', '2001-01-01', '--changelist-uri', META + '/none.xml'] + _M),
    (_S, ['--parse', '--sitemap', META + '/bad.xml']),
    (_S, ['--parse', '--sitemap', META + '/html']),
    (_S, ['--parse', '--sitemap', META + '/nothere.xml']),
    (_S, ['--parse', '--sitemap', 'nofile']),
    (_S, ['--parse']),
    (_S, ['--baseline', 'a=b=c=d']),
    (_S, ['--baseline', 'http://a=x', 'http://a=y']),
    (_S, ['--baseline', 'http://a=x', 'http://b=x']),
    (_S, ['--baseline', 'one', 'two', 'three']),
    (_S, ['--baseline', BASE, BASE]),
    (_S, ['--baseline', '--delay', '-1'] + _M),
    (_S, ['--baseline', '--delay', 'x'] + _M),
    (_S, ['--baseline', '--tries', 'x'] + _M),
    (_S, ['--baseline', '--spec-version', '2'] + _M),
    (_S, ['--baseline', '--nosuchoption'] + _M),
    (_S, ['--baseline', '--hash', 'md6', '--sitemap', META + '/ok.xml'] + _M),
    (_S, ['--baseline', '--exclude', '(', '--sitemap', META + '/ok.xml'] + _M),
    (_S, ['--baseline', '--sitemap', META + '/ok.xml'] + _M),     # the resource itself is missing
    (_B, ['--write-resourcelist']),
    (_B, ['--write-resourcelist', '--exclude', '('] + ['http://a=t']),
    (_B, ['--write-resourcelist', '--hash', 'md6'] + ['http://a=t']),
    (_B, ['--write-resourcelist', '--link', 'a'] + ['http://a=t']),
    (_B, ['--write-resourcelist', '--link', 'a,b,c'] + ['http://a=t']),
    (_B, ['--write-resourcelist', '--outfile', 'nodir/x.xml', 'http://a=t']),
    (_B, ['--write-resourcelist', '--outfile', 'ro', 'http://a=t']),
    (_B, ['--write-resourcelist', '--outfile', 'nodir/x.xml', '--paths', 't', 'http://a=t']),
    (_B, ['--write-resourcelist', '--paths', 'elsewhere', 'http://a=t']),
    (_B, ['--write-resourcelist', 'a=b=c=d']),
    (_B, ['--write-resourcelist', 'http://a=t', 'http://a=u']),
    (_B, ['--write-resourcedump', '--outfile', 'nodir/x', 'http://a=t']),
    (_B, ['--write-resourcedump', '--warc', 'http://a=t']),
    (_B, ['--write-resourcedump']),
    (_B, ['--write-changelist', 'http://a=t']),
    (_B, ['--write-changelist', '--reference', 'nofile.xml', 'http://a=t']),
    (_B, ['--write-changelist', '--reference', 'bad.xml', 'http://a=t']),
    (_B, ['--write-changelist', '--reference', 'html', 'http://a=t']),
    (_B, ['--write-changelist', '--reference', META + '/nothere.xml', 'http://a=t']),
    (_B, ['--write-changelist', '--reference', 'ref.xml']),
    (_B, ['--write-changelist', '--reference', 'ref.xml', '--newreference', 'bad.xml']),
    (_B, ['--write-changelist', '--reference', 'ref.xml', '--newreference', 'nofile', 'http://a=t']),
    (_B, ['--write-changelist', '--reference', 'ref.xml', '--max-sitemap-entries', '1', BASE + '=t']),
    (_B, ['--write-changelist', '--empty', '--outfile', 'nodir/x']),
    (_B, ['--write-capabilitylist', 'resourcelist']),
    (_B, ['--write-capabilitylist', 'a=b=c']),
    (_B, ['--write-capabilitylist', 'a=b', '--outfile', 'nodir/x']),
    (_B, ['--write-sourcedescription', 'a', '--outfile', 'nodir/x']),
    (_B, ['--write-sourcedescription', 'a', '--link', 'x']),
    (_B, ['--write-capabilitylist', 'a=u,b=u']),
    (_B, ['--write-sourcedescription', 'u,u']),
    ('resync-explorer', []),
    ('resync-explorer', ['--delay', '-1', '--sitemap', META + '/ok.xml']),
    ('resync-explorer', ['--nosuchoption']),
]


# --- parse mode --------------------------------------------------------------------------------------

class P01(Check):
    id = 'P01'
    rule = 'every kind of document x number of entries x limits x place, parsed by the real client'
    CAPS = ['resourcelist', 'changelist', 'resourcedump', 'changedump', 'resourcedump-manifest',
            'changedump-manifest', 'capabilitylist', 'description', 'resourcelist-archive',
            'changelist-archive', 'resourcedump-archive', 'changedump-archive', None, 'somethingelse']
    BAD = ['404', 'malformed', 'html', 'blank', 'noloc', 'twomd', 'badchange', ['reset', 180], ['short', 180],
           'refused', 'url-timeout', ['read-timeout', 180]]

    def cases(self, tier):
        for place in ('explicit', 'default', 'local', 'relative'):
            for bad in self.BAD:
                yield {'place': place, 'bad': bad}
            for cap in self.CAPS:
                for index in (0, 1):
                    yield {'place': place, 'cap': cap, 'index': index, 'bad': None}

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        place = case['place']

        def go():
            w = World(ctx)
            verbose = bool(ctx.choose('verbose', 2))
            if case['bad'] is None:
                n = ctx.pick('n', [0, 1, 2, 3, 5, 99, 100, 101] if not ctx.thorough else
                             list(range(0, 12)) + [99, 100, 101, 102, 250])
                limit = ctx.pick('limit', [None, 1, 2, 3, 100, 101])
                cap, index = case['cap'], case['index']
            else:
                n, limit, cap, index = 2, None, 'changelist', 0
            uris = ['http://src.example/res/%s%d' % ('zxay'[i % 4], i) for i in range(n)]
            if case['bad'] is None and n > 1 and ctx.choose('repeated', 2):
                uris = [uris[i // 2] for i in range(n)]     # several entries for a resource
            ents = [{'loc': u, 'lastmod': T0 + i, 'length': i} for i, u in enumerate(uris)]
            if cap and cap.startswith('change'):
                for e in ents:
                    e.update(change='updated', datetime=T0)
            doc = xml_doc(cap, ents, index=bool(index), md={'at': iso(T0)} if n % 2 else None)
            bad = case['bad']
            fault = None
            if bad == 'malformed':
                doc = doc[:-8]
            elif bad == 'html':
                doc = b'<html><body/></html>'
            elif bad == 'blank':
                doc = b''
            elif bad == 'noloc':
                doc = doc.replace(b'<loc>http://src.example/res/x1</loc>', b'')
            elif bad == 'twomd':
                doc = doc.replace(b'<url>', b'<rs:md capability="changelist"/><url>', 1)
            elif bad == 'badchange':
                doc = doc.replace(b'"updated"', b'"moved"', 1)
            elif bad is not None and bad != '404':
                fault = tuple(bad) if isinstance(bad, list) else bad
            kw = {'max_sitemap_entries': limit}
            if place == 'explicit':
                uri = kw['sitemap_name'] = 'http://src.example/lists/some.xml'
            elif place == 'default':
                uri = BASE + '/resourcelist.xml'
            elif place == 'local':
                uri = kw['sitemap_name'] = os.path.join(w.x, 'some.xml')
            else:
                uri = kw['sitemap_name'] = 'lists/some.xml'
            if place in ('local', 'relative'):
                if fault is not None:
                    return ctx.trivial()
                if bad != '404':
                    put(uri, doc)
            elif bad != '404':
                w.web.docs[uri] = doc
            put('dst/a', b'keep', T0)
            w.web.fault = lambda u, r: fault
            c = w.client(**kw)
            c.verbose = verbose
            before = snapshot('.')
            o = w.run(c.parse_document)
            after = snapshot('.')
            ctx.expect(before == after, "parsing changed %s", diff(before, after))
            ctx.expect([r.uri for r in o.requests] == ([uri] if place in ('explicit', 'default') else []),
                       "requests %s for %s", o.requests, uri)
            ctx.state([case, n, limit, verbose])
            if bad is not None:
                ctx.expect(o.error == 'fatal', "ended %s %s for a document that is %s", o.error, o.message, bad)
                ctx.expect(not o.stdout, "unreadable document but output %r", o.stdout[:200])
                return
            ctx.expect(o.error is None, "ended %s %s", o.error, o.message)
            lines = o.stdout.splitlines()
            ctx.expect(lines and re.search(r'\b%d\b' % n, lines[0]) and (cap or 'unknown') in lines[0],
                       "capability %s with %d entries reported as %r", cap, n, lines[:1])
            shown = [u for line in lines[1:] for u in re.findall(r'http://src\.example/res/\w+', line)]
            want = uris[:limit or 100] if verbose else []
            ctx.expect(shown == want, "%d entries, limit %s, verbose %s: shows %d entries %s, should show %s", n,
                       limit, verbose, len(shown), shown[:4], want[:4])
            ctx.sample({'case': case, 'n': n, 'out': lines[:2]})
        ctx.explore(go, stop_after=3)
