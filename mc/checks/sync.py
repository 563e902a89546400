"""Checks of the sync client (C01-C08, C12)."""

import ast
import hashlib
import itertools
import os
import re

from mc.core import Check, Fail, bfs
from mc.world import BASE, STATE, World, diff, get, iso, put, snapshot, wipe, xml_doc

T0 = 1600000000     # base time of the worlds (2020-09-13T12:26:40Z)


def content(tag, n=5):
    return (tag * n).encode('utf-8')[:n]


def ok(o, *allowed):
    """The run must have ended without error (or with one of the allowed)."""
    if o.error is not None and o.error not in allowed:
        raise Fail("unexpected error %s: %s" % (o.error, o.message[:600]))


# --- reference model of listing / comparison -----------------------------------------

class Listed:
    """One entry of a source list, as published, and what the source serves for it."""

    def __init__(self, rel, data, lastmod=None, length=None, md5=None):
        self.rel, self.data, self.lastmod, self.length, self.md5 = rel, data, lastmod, length, md5

    def entry(self, base=BASE):
        e = {'loc': base + '/' + self.rel, 'lastmod': self.lastmod, 'length': self.length}
        if self.md5:
            e['hash'] = 'md5:' + self.md5
        return e


def in_sync(listed, f):
    """Documented equality between listing and local file (kind, data, mtime_ns)."""
    if listed.lastmod is None:
        return False
    if abs(f[2] / 1e9 - listed.lastmod) >= 1.0:
        return False
    if listed.length is not None and listed.length != len(f[1]):
        return False
    return True


def files_of(snap):
    return {k: v for k, v in snap.items() if v[0] == 'f'}


def partition(listed, files):
    same, updated, deleted, created = set(), set(), set(), set()
    for rel, l in listed.items():
        if rel not in files:
            created.add(rel)
        elif in_sync(l, files[rel]):
            same.add(rel)
        else:
            updated.add(rel)
    for rel in files:
        if rel not in listed:
            deleted.add(rel)
    return same, updated, deleted, created


def after_sync(listed, files, part, delete):
    """Expected files (mtime None: not determined) after a successful sync."""
    same, updated, deleted, created = part
    out = {}
    for rel in same:
        out[rel] = files[rel]
    for rel in deleted:
        if not delete:
            out[rel] = files[rel]
    for rel in updated | created:
        l = listed[rel]
        out[rel] = ('f', l.data, None if l.lastmod is None else int(l.lastmod) * 10**9)
    return out


def compare_files(expected, actual):
    for rel in sorted(set(expected) | set(actual)):
        if rel not in actual:
            return "file %s missing" % rel
        if rel not in expected:
            return "file %s should not be there" % rel
        e, a = expected[rel], actual[rel]
        if e[1] != a[1]:
            return "file %s has content %r, expected %r" % (rel, a[1], e[1])
        if e[2] is not None and e[2] != a[2]:
            return "file %s has time %d ns, expected %d ns" % (rel, a[2], e[2])
    return None


def check_counts(st, part, i=0, what='plan'):
    same, updated, deleted, created = part
    exp = {'same': len(same), 'updated': len(updated), 'deleted': len(deleted),
           'created': len(created)}
    if len(st) <= i:
        raise Fail("no %s status reported" % what)
    got = st[i][1]
    for k in exp:
        if got.get(k) != exp[k]:
            raise Fail("%s reports %s=%s, true number is %d (%s)" %
                       (what, k, got.get(k), exp[k], st[i][2]))


# --- worlds -------------------------------------------------------------------------

# what the source lists about a resource: (lastmod offset, give length, content)
SRC = {
    'S0': None,
    'full': (0, True, 'AAAAA'),
    'len': (None, True, 'AAAAA'),
    'time': (0, False, 'AAAAA'),
    'none': (None, False, 'AAAAA'),
    'frac': (0.5, True, 'AAAAA'),
    'bad': (0, 'bad', 'AAAAA'),
    'empty': (0, True, ''),
    'epoch': ('epoch', True, 'AAAAA'),
}
# what the destination has: (content, time offset to the source's T0)
DST = {
    'D0': None,
    'D=': ('AAAAA', 0),
    'DL': ('AAA', 0),
    'DC': ('BBBBB', 0),
    'Dn': ('', 0),
    'D+1': ('AAAAA', 1),
    'D-1': ('AAAAA', -1),
    'D+.4': ('AAAAA', 0.4),
    'D-.9': ('AAAAA', -0.9),
    'D+1d': ('AAAAA', 86400),
    'D1970': ('AAAAA', -T0),
}


def make_listed(rel, k):
    s = SRC[k]
    if s is None:
        return None
    off, ln, data = s
    lm = None if off is None else (0 if off == 'epoch' else T0 + off)
    data = data.encode()
    length = None if ln is False else (len(data) + 1 if ln == 'bad' else len(data))
    return Listed(rel, data, lm, length)


def src_ts(lm):
    return lm


def fill_dst(root, rel, k):
    d = DST[k]
    if d is not None:
        put(root + '/' + rel, d[0].encode(), T0 + d[1])


PACK = ['explicit', 'default', 'index', 'local', 'twomaps', 'wellknown']


def publish(w, pack, listed):
    """Put documents and resources on the web (or on disk); returns client settings."""
    ents = [l.entry() for l in listed]
    kw = {}
    for l in listed:
        w.web.docs[BASE + '/' + l.rel] = l.data
    if pack == 'explicit':
        w.web.docs['http://src.example/lists/rl.xml'] = xml_doc('resourcelist', ents)
        kw = {'sitemap_name': 'http://src.example/lists/rl.xml'}
    elif pack in ('default', 'twomaps'):
        w.web.docs[BASE + '/resourcelist.xml'] = xml_doc('resourcelist', ents)
        if pack == 'twomaps':
            kw = {'mappings': [BASE + '=dst', 'http://src.example/other=dst2']}
    elif pack == 'wellknown':
        w.web.docs['http://src.example/.well-known/resourcesync'] = xml_doc(
            'description', [{'loc': 'http://src.example/caps.xml',
                             'capability': 'capabilitylist'}])
        w.web.docs['http://src.example/caps.xml'] = xml_doc(
            'capabilitylist', [{'loc': 'http://src.example/lists/rl2.xml',
                                'capability': 'resourcelist'}])
        w.web.docs['http://src.example/lists/rl2.xml'] = xml_doc('resourcelist', ents)
    elif pack == 'index':
        u = 'http://src.example/lists/rl.xml'
        parts = [ents[1:], ents[:1]]
        w.web.docs[u] = xml_doc('resourcelist', [
            {'loc': 'http://src.example/lists/rl0000%d.xml' % i} for i in (0, 1)], index=True)
        for i, p in enumerate(parts):
            w.web.docs['http://src.example/lists/rl0000%d.xml' % i] = xml_doc('resourcelist', p)
        kw = {'sitemap_name': u}
    elif pack == 'local':
        src = os.path.join(w.x, 'src')
        ents = [l.entry(base=src) for l in listed]
        for l in listed:
            put(os.path.join(src, l.rel), l.data)
        put(os.path.join(src, 'resourcelist.xml'), xml_doc('resourcelist', ents))
        kw = {'mappings': [src + '=dst']}
    return kw


def resource_gets(o, pack, w):
    """Resources (relative) requested in this run."""
    if pack == 'local':
        return None
    return [u[len(BASE) + 1:] for u in (r.uri for r in o.requests)
            if u.startswith(BASE + '/') and not u.endswith('resourcelist.xml')
            and '.well-known' not in u and not u.endswith('sitemap.xml')]


def baseline_world_cases(tier):
    srcs, dsts = list(SRC), list(DST)
    pairs = [(s, d) for s in srcs for d in dsts if not (s == 'S0' and d == 'D0')]
    few_s = ['S0', 'full', 'frac', 'len']
    few_d = ['D0', 'D=', 'DL', 'D+1']
    few = [(s, d) for s in few_s for d in few_d if not (s == 'S0' and d == 'D0')]
    tiny = [('S0', 'D='), ('full', 'D0'), ('full', 'D='), ('time', 'D+1')]
    # every joint state of one resource, next to each of a few of a second one
    for pack in PACK:
        for delete in (True, False):
            second = few if tier == 'thorough' else (few if pack == 'explicit' else tiny)
            for a in pairs:
                for b in second:
                    yield {'pack': pack, 'delete': delete, 'r': {'a': a, 'd/b': b}}
            third = few if tier == 'thorough' else tiny
            for a in third:
                for b in third:
                    for c in tiny:
                        yield {'pack': pack, 'delete': delete,
                               'r': {'a': a, 'a.x/b': b, 'd/e/f': c}}


# names of resources as a source may give them (all can be asked for as they are)
NAMES = ['a?v=1', 'a?v=2', 'a?', 'a?b/c', 'd?x/a', 'a;p=1', 'a&b', 'a%20b', 'a%2fb', 'a%2Fb', 'a%41', 'a%', 'a+b',
         "a'b", 'a"b', '.a', '..a', '...', 'a.', 'a..', '~', '~a', 'a~', 'a=b', 'a:b', 'http:a', 'a,b', 'A', 'aA',
         '[a]', '$a', '$HOME', '{a}', '(a)', 'a!', 'a*', '*', '?', '%', '@a', 'a@b', 'a|b', 'a^b', '`a`', '<a>',
         'a\\b', '-a', '--a', '_', '0', '00', '-', 'a.part', 'a.tmp', 'a.bak', 'a.xml', 'a.html', 'a.gz', 'a.zip',
         'index.html', 'resourcelist.xml', 'changelist.xml', 'sitemap.xml', 'd/resourcelist.xml', 'd/.a', '.d/a',
         'd.d/a', 'd/d/d/d/d/d/d/d', 'con', 'nul', 'None', 'True', 'CVS', '.git', '.gitignore', 'd/.git/a',
         '.well-known/resourcesync', 'lost+found', 'core', 'Thumbs.db', '.DS_Store', '.resync-client-status.cfg',
         'dst', 'dst/a', 'res', 'res/a', 'http/src.example/res/a', 'a#b', '#a', 'a' * 200, 'd' * 100 + '/' + 'a' * 100]
# a name, and what might be taken for it or be made from it on the way
PAIRS = [('a', x) for x in
         ('a.part', 'a.tmp', '.a.tmp', 'a.new', 'a~', 'a.bak', 'a.orig', 'a.old', '.a', '.a.swp', 'a.1', 'a.0',
          'a.partial', 'a.download', 'a.temp', '.tmp', 'tmp', 'a_tmp', 'a-tmp', 'a.lock', 'A', 'aa', 'a.', 'a_',
          'a?', 'a?v=1', 'a;p', 'a%', 'a.gz', 'a.html', 'd/a', 'a%61', '%61', 'a.a', 'a1', 'a-b', 'a b'.replace(' ', '+'))] + [
         ('a?v=1', 'a?v=2'), ('a?v=1', 'a'), ('d/a', 'd.a'), ('d/a', 'd-a'), ('d/a', 'd%2fa'), ('a%20b', 'a+b'),
         ('d/a', 'D/a'), ('d/a', 'e/a'), ('d/a', 'd/e/a'), ('d/a', 'd.x/a'), ('d/a', 'd/a.x'), ('a.x', 'a.y'),
         ('a%2fb', 'a%2Fb'), ('a:b', 'a_b'), ('a=b', 'a'), ('a;p=1', 'a;p=2'), ('a#b', 'a#c'), ('a&b', 'a&amp;b')]
MANY = [11, 33, 65, 130, 260, 520, 1030, 2600]      # numbers of resources
SIZES = [1023, 1024, 1025, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32769, 65535, 65536, 65537, 131073, 1000001,
         2**20 - 1, 2**20, 2**20 + 1, 5 * 2**20 + 3, 2**24 + 1]
LISTS = ('resourcelist.xml', 'changelist.xml', 'sitemap.xml', '.well-known/resourcesync')
KINDS = {'create': ('full', 'D0'), 'update': ('full', 'DL'), 'delete': ('S0', 'D='), 'same': ('full', 'D=')}


class C01(Check):
    id = 'C01'
    rule = ('one case = one world (per resource: source listing kind x destination file kind; '
            'packaging; deletion flag): baseline, audit, second baseline by the real client, each '
            'compared with the reference partition; trivial if nothing is to be done')
    assumptions = ['source is consistent while a run lasts', 'local file system is POSIX tmpfs']

    def cases(self, tier):
        yield from baseline_world_cases(tier)
        for n in NAMES:
            yield {'names': [n, 'keep/k'], 'second': ['same'], 'packs': ['explicit', 'index'] + (
                [] if n in LISTS else ['default', 'twomaps', 'local'])}
        for a, b in PAIRS:
            yield {'names': [a, b], 'packs': PACK if tier == 'thorough' else ['explicit'], 'second': list(KINDS)}
        # large: n resources with one that differs from all the others; large and deep files
        for n in MANY if tier == 'thorough' else MANY[:-1]:
            for pack in ('explicit', 'index', 'local'):
                yield {'many': n, 'pack': pack}
        for size in SIZES:
            for pack in ('default', 'local'):
                yield {'size': size, 'pack': pack}
        for depth in (9, 17, 33, 65, 120):
            yield {'names': ['d/' * depth + 'a', 'd/' * (depth - 1) + 'a'], 'packs': ['explicit', 'local'],
                   'second': list(KINDS)}

    def setup(self, ctx):
        World.setup()

    def run_names(self, ctx, case):
        def go():
            a, b = case['names']
            pack = ctx.pick('pack', case['packs'])
            delete = bool(ctx.choose('delete', 2))
            kinds = [ctx.pick('kind', list(KINDS)), ctx.pick('second', case['second'])]
            made = self.names_world(ctx, pack, delete, dict(zip((a, b), kinds)))
            # files that come and go on the way to the result must not be anyone's
            for p in made:
                p = os.path.relpath(p, 'dst')
                self.names_world(ctx, pack, delete, dict(zip((a, b, p), kinds + ['same'])))
                if not delete:
                    self.names_world(ctx, pack, delete, dict(zip((a, b, p), kinds + ['delete'])))
        ctx.explore(go)

    def names_world(self, ctx, pack, delete, rs):
        w = World(ctx)
        listed = {}
        os.mkdir('dst')
        for rel, k in rs.items():
            l = make_listed(rel, KINDS[k][0])
            if l:
                l.data = l.data[:4] + str(len(listed)).encode()
                listed[rel] = l
            fill_dst('dst', rel, KINDS[k][1])
        kw = publish(w, pack, list(listed.values()))
        if pack != 'local':
            for rel, l in listed.items():
                if '#' in rel:      # (a fragment is not part of the request)
                    w.web.docs[BASE + '/' + rel.split('#')[0]] = l.data
        for rel, l in listed.items():
            if pack != 'local':     # (where two have the same source)
                l.data = w.web.docs[(BASE + '/' + rel).split('#')[0]]
        files = files_of(snapshot('dst'))
        part = partition(listed, files)
        ctx.state([pack, delete, sorted(rs.items())])
        o = w.baseline(delete=delete, **kw)
        if not listed:
            ctx.trivial()
            ctx.expect(o.error == 'fatal' and files_of(snapshot('dst')) == files, "empty list: %s", o)
            return []
        ok(o)
        check_counts(o.status, part)
        now = files_of(snapshot('dst'))
        bad = compare_files(after_sync(listed, files, part, delete), now)
        ctx.expect(bad is None, "%s after baseline: %s", rs, bad)
        paths = {os.path.normpath(os.path.join(w.x, p)) for k, ps in o.effects for p in ps}
        made = sorted(os.path.relpath(p, w.x) for p in paths)
        made = [p for p in made if p.startswith('dst/') and p[4:] not in rs and not os.path.isdir(p)]
        o2 = w.baseline(delete=delete, **kw)
        ok(o2)
        part2 = (set(listed), set(), set() if delete else part[2], set())
        check_counts(o2.status, part2)
        ctx.expect(files_of(snapshot('dst')) == now, "%s: repeated sync made changes", rs)
        return made

    def run_many(self, ctx, case):
        def go():
            n = case['many']
            main, odd = ctx.pick('kinds', [(a, b) for a in ('create', 'update', 'delete', 'same')
                                           for b in ('create', 'update', 'delete', 'same') if a != b])
            at = ctx.pick('at', [0, n // 2, n - 1])
            delete = bool(ctx.choose('delete', 2)) if 'delete' in (main, odd) else True
            w = World(ctx)
            listed = {}
            for i in range(n):
                k = odd if i == at else main
                rel = 'd%d/a%d' % (i % 7, i)
                l = make_listed(rel, KINDS[k][0])
                if l:
                    listed[rel] = l
                fill_dst('dst', rel, KINDS[k][1])
            os.makedirs('dst', exist_ok=True)
            kw = publish(w, case['pack'], list(listed.values()))
            files = files_of(snapshot('dst'))
            part = partition(listed, files)
            ctx.state([n, case['pack'], main, odd, at, delete])
            o = w.baseline(delete=delete, **kw)
            ok(o)
            check_counts(o.status, part)
            now = files_of(snapshot('dst'))
            bad = compare_files(after_sync(listed, files, part, delete), now)
            ctx.expect(bad is None, "%d resources, %s but no. %d %s: %s", n, main, at, odd, bad)
            g = resource_gets(o, case['pack'], w)
            if g is not None:
                ctx.expect(sorted(g) == sorted(part[1] | part[3]), "downloaded %d of %d", len(g),
                           len(part[1] | part[3]))
            o2 = w.baseline(delete=delete, audit=True, **kw)
            ok(o2)
            check_counts(o2.status, (set(listed), set(), set() if delete else part[2], set()), what='audit')
        ctx.explore(go)

    def run_size(self, ctx, case):
        def go():
            size = case['size']
            kind = ctx.pick('kind', ['create', 'shorter', 'longer', 'same'])
            w = World(ctx)
            data = (b'0123456789abcde' * (size // 15 + 1))[:size]
            l = Listed('a', data, T0, size)
            if kind != 'create':
                put('dst/a', data[:-1] if kind == 'shorter' else data + b'+' if kind == 'longer' else data, T0)
            os.makedirs('dst', exist_ok=True)
            kw = publish(w, case['pack'], [l])
            files = files_of(snapshot('dst'))
            part = partition({'a': l}, files)
            ctx.state([size, kind, case['pack']])
            o = w.baseline(delete=True, **kw)
            ok(o)
            check_counts(o.status, part)
            now = files_of(snapshot('dst'))['a']
            ctx.expect(now[1] == data, "%s of %d bytes: file has %d bytes, first difference at %s", kind, size,
                       len(now[1]), next((i for i, (x, y) in enumerate(zip(now[1], data)) if x != y), None))
            ctx.expect(now[2] == T0 * 10**9, "time %s", now[2])
        ctx.explore(go)

    def run(self, ctx, case):
        if 'names' in case:
            return self.run_names(ctx, case)
        if 'many' in case:
            return self.run_many(ctx, case)
        if 'size' in case:
            return self.run_size(ctx, case)

        def go():
            w = World(ctx)
            listed = {}
            for rel, (s, d) in case['r'].items():
                l = make_listed(rel, s)
                if l:
                    listed[rel] = l
                fill_dst('dst', rel, d)
            if not os.path.isdir('dst'):
                os.mkdir('dst')
            pack = case['pack']
            if pack == 'twomaps':
                # second tree: one unlisted file
                put('dst2/z', b'zz', T0)
            kw = publish(w, pack, list(listed.values()))
            if pack == 'local':
                # the list document itself lives in the source tree, not listed
                pass
            delete = case['delete']
            outside = {k: v for k, v in snapshot('.').items()
                       if not k.startswith('dst/') and not k.startswith('dst2/')}
            files = files_of(snapshot('dst'))
            if pack == 'twomaps':
                files['../dst2/z'] = ('f', b'zz', T0 * 10**9)
            part = partition(listed, files)
            o = w.baseline(delete=delete, **kw)
            ctx.state([case['pack'], delete, sorted((k, v[1], v[2]) for k, v in files.items()),
                       sorted((l.rel, l.lastmod, l.length) for l in listed.values())])
            ctx.sample({'case': case, 'status': [s[2] for s in o.status]})
            if not listed:
                ctx.trivial()
                ctx.expect(o.error == 'fatal', "empty source list must abort, got %s", o)
                ctx.expect(files_now(pack) == files, "aborted run changed files")
                return
            ok(o)
            check_counts(o.status, part)
            exp = after_sync(listed, files, part, delete)
            now = files_now(pack)
            bad = compare_files(exp, now)
            ctx.expect(bad is None, "after baseline: %s", bad)
            todo = bool(part[1] or part[2] or part[3])
            ctx.expect(('NOT IN SYNC' in o.status[0][0]) == todo,
                       "plan status %r but partition %s", o.status[0][2], part)
            if todo:
                ctx.expect(len(o.status) >= 2, "no final status")
                f = o.status[-1][1]
                ctx.expect(f.get('created') == len(part[3]) and f.get('updated') == len(part[1])
                           and f.get('deleted') == len(part[2]),
                           "final numbers %s, partition %s", o.status[-1][2],
                           [sorted(p) for p in part])
                fin = o.status[-1][0]
                if part[2] and not delete:
                    ctx.expect('PART' in fin, "deletions outstanding but status %r", fin)
                else:
                    ctx.expect(fin == 'SYNCED', "final status %r", fin)
            else:
                ctx.trivial()
            g = resource_gets(o, pack, w)
            if g is not None:
                ctx.expect(sorted(g) == sorted(part[1] | part[3]),
                           "downloaded %s, needed %s", g, sorted(part[1] | part[3]))
            out2 = {k: v for k, v in snapshot('.').items()
                    if not k.startswith('dst/') and not k.startswith('dst2/') and k != STATE}
            outside.pop(STATE, None)
            ctx.expect(out2 == outside, "changed outside destination: %s", diff(outside, out2))
            # audit
            part2 = partition(listed, now)
            before = snapshot('.')
            o2 = w.baseline(delete=delete, audit=True, **kw)
            ok(o2)
            check_counts(o2.status, part2, what='audit')
            insync = not (part2[1] or part2[2] or part2[3])
            ctx.expect((o2.status[0][0] == 'IN SYNC') == insync, "audit says %r, partition %s",
                       o2.status[0][2], part2)
            ctx.expect(snapshot('.') == before, "audit changed files")
            # repeat
            o3 = w.baseline(delete=delete, **kw)
            ok(o3)
            g = resource_gets(o3, pack, w)
            if g is not None:
                ctx.expect(sorted(g) == sorted(part2[1] | part2[3]),
                           "repeated sync downloaded %s, needed %s", g,
                           sorted(part2[1] | part2[3]))
            bad = compare_files(after_sync(listed, now, part2, delete), files_now(pack))
            ctx.expect(bad is None, "after repeated baseline: %s", bad)

        def files_now(pack):
            f = files_of(snapshot('dst'))
            if pack == 'twomaps':
                for k, v in files_of(snapshot('dst2')).items():
                    f['../dst2/' + k] = v
            return f
        ctx.explore(go)


# --- change list worlds -----------------------------------------------------------------

CL = BASE + '/changelist.xml'
SITE = BASE + '/resourcelist.xml'      # what the state is remembered under


def cl_entries(changes, spec='1.1', lastmod='same', base=BASE):
    """changes: list of (time, rel, type, data or None)."""
    out = []
    for (t, rel, kind, data) in changes:
        e = {'loc': base + '/' + rel, 'change': kind}
        if spec == '1.0':
            e['lastmod'] = t
        else:
            e['datetime'] = t
            if kind != 'deleted' and lastmod == 'same':
                e['lastmod'] = t
            elif kind != 'deleted' and lastmod == 'earlier':
                e['lastmod'] = t - 100
        if data is not None:
            e['length'] = len(data)
        out.append(e)
    return out


def net_changes(changes, start):
    """Last change per resource at or after start."""
    last = {}
    for (t, rel, kind, data) in changes:
        if t >= start:
            last.pop(rel, None)
            last[rel] = (t, kind, data)
    return last


def seqs(rels, n, present=()):
    """All well-formed change sequences of length <= n (create only if absent etc.)."""
    def rec(pre, have, left):
        yield list(pre)
        if not left:
            return
        for r in rels:
            for k in ('created', 'updated', 'deleted'):
                if (k == 'created') == (r in have):
                    continue
                h2 = set(have)
                (h2.add if k == 'created' else h2.discard if k == 'deleted' else h2.add)(r)
                pre.append((r, k))
                yield from rec(pre, h2, left - 1)
                pre.pop()
    return rec([], set(present), n)


def set_state(t, site=SITE):
    from resync.client_state import ClientState
    ClientState().set_state(site, t)


class C02(Check):
    id = 'C02'
    rule = ('one case = world x mode (audit, dry baseline, dry incremental) x options: monitored run, '
            'then the real run to compare the plan; trivial if the plan is empty')

    def cases(self, tier):
        pairs = [(s, d) for s in ('S0', 'full', 'frac', 'len', 'bad', 'none')
                 for d in ('D0', 'D=', 'DL', 'D+1d') if not (s == 'S0' and d == 'D0')]
        few = [('S0', 'D='), ('full', 'D0'), ('full', 'D+1d'), ('full', 'D=')]
        second = pairs if tier == 'thorough' else few
        opts = [dict(zip(('delete', 'noauth', 'ignore_failures', 'state', 'hash'), v))
                for v in itertools.product((1, 0), (1, 0), (0, 1), (1, 0), (0, 1))]
        for mode in ('audit', 'dry', 'audit+dry'):
            for op in opts:
                if op['noauth'] + op['ignore_failures'] + op['hash'] > 1 and tier == 'quick':
                    continue
                for a in pairs:
                    for b in second:
                        yield {'k': 'b', 'mode': mode, 'op': op, 'pack': 'default',
                               'r': {'a': a, 'd/e/b': b}}
        for mode in ('audit', 'dry'):
            for pack in PACK:
                for a in pairs:
                    for b in few:
                        yield {'k': 'b', 'mode': mode, 'op': opts[0], 'pack': pack,
                               'r': {'a': a, 'd/e/b': b}}
        n = 3 if tier == 'thorough' else 2
        for have in ((), ('a',), ('a', 'd/e/b')):
            for seq in seqs(('a', 'd/e/b'), n, have):
                for op in opts:
                    if op['noauth'] + op['ignore_failures'] + op['hash'] > 1:
                        continue
                    for start in ('state', 'from'):
                        if start == 'state' and not op['state']:
                            continue
                        yield {'k': 'i', 'have': have, 'seq': seq, 'op': op, 'start': start}

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        def go():
            w = World(ctx)
            op = case['op']
            kw = {'noauth': bool(op['noauth']), 'ignore_failures': bool(op['ignore_failures']),
                  'hashes': ['md5'] if op['hash'] else None}
            delete = bool(op['delete'])
            if op['state']:
                set_state(T0 - 50)
                set_state(T0 - 60, 'http://other.example/x')
            put('keep/me', b'x', T0)
            if ctx.choose('empty directories', 2):
                os.makedirs('dst/d/e', exist_ok=True)
                os.makedirs('dst/emp/ty', exist_ok=True)
            if case['k'] == 'b':
                listed = []
                for rel, (s, d) in case['r'].items():
                    l = make_listed(rel, s)
                    if l:
                        listed.append(l)
                    fill_dst('dst', rel, d)
                kw.update(publish(w, case['pack'], listed))
                if not listed:
                    ctx.trivial()
                docs = set(w.web.docs) - {BASE + '/' + l.rel for l in listed}

                def dry():
                    return w.baseline(delete=delete, audit='audit' in case['mode'],
                                      dryrun='dry' in case['mode'], **kw)

                def real():
                    return w.baseline(delete=delete, **kw)
            else:
                lost = case['have'] and ctx.choose('lost', 2)
                for rel in case['have']:
                    if not lost:
                        put('dst/' + rel, b'old', T0 - 40)
                ch = [(T0 + i, rel, k, None if k == 'deleted' else b'v%d' % i)
                      for i, (rel, k) in enumerate(case['seq'])]
                w.web.docs[CL] = xml_doc('changelist', cl_entries(ch))
                for (t, rel, k, data) in ch:
                    if data:
                        w.web.docs[BASE + '/' + rel] = data
                docs = {CL}
                fr = None if case['start'] == 'state' else iso(T0 - 50)
                if not ch:
                    ctx.trivial()

                def dry():
                    return w.incremental(delete=delete, from_datetime=fr, dryrun=True, **kw)

                def real():
                    return w.incremental(delete=delete, from_datetime=fr, **kw)
            before = snapshot('.')
            o = dry()
            after = snapshot('.')
            ctx.state([case, [s[2] for s in o.status]])
            ctx.expect(before == after, "changed: %s", diff(before, after))
            ctx.expect(not o.effects, "file system effects in a run that must have none: %s",
                       o.effects[:5])
            for r in o.requests:
                ctx.expect(r.uri not in w.web.docs or r.uri in docs,
                           "downloaded resource %s", r.uri)
            ctx.expect(o.error in (None, 'fatal'), "error %s %s", o.error, o.message)
            plan = o.status[0][1] if o.status else None
            o2 = real()
            ctx.sample({'case': case, 'plan': plan})
            ctx.expect((o.error is None) == (o2.error is None) or 'audit' in case.get('mode', ''),
                       "dry run ended %s, real run %s %s", o.error, o2.error, o2.message)
            real_plan = o2.status[0][1] if o2.status else None
            if o.error is None or o2.error is None:
                ctx.expect(plan == real_plan, "dry plan %s, real plan %s", plan, real_plan)
            # and the reported plan is what the real run did
            if o2.error is None and plan is not None and len(o2.status) > 1:
                got = o2.status[-1][1]
                exp = dict(plan)
                exp.pop('same', None)
                got = dict(got)
                got.pop('same', None)
                if case['k'] == 'b' or delete:
                    ctx.expect(got.get('created') == exp.get('created')
                               and got.get('updated') == exp.get('updated'),
                               "plan %s, done %s", exp, got)
        ctx.explore(go)


class C03(Check):
    id = 'C03'
    rule = ('one case = baseline world or change sequence x deletion flag; within a case every choice of '
            'one failing request is explored; trivial if nothing could be deleted')
    UNLISTED = [('S0', 'D='), ('S0', 'Dn'), ('S0', 'D0')]

    def cases(self, tier):
        one = [('S0', 'D='), ('S0', 'D0'), ('full', 'D0'), ('full', 'D='), ('full', 'DL')]
        for delete in (1, 0):
            for ign in (0, 1):
                for pack in ('default', 'twomaps', 'index', 'local'):
                    for r in itertools.product(one, repeat=4 if tier == 'thorough' else 3):
                        yield {'k': 'b', 'delete': delete, 'ign': ign, 'pack': pack,
                               'r': dict(zip(('a', 'd/b', 'd.b', 'z/z'), r))}
        n = 4 if tier == 'thorough' else 3
        for delete in (1, 0):
            for ign in (0, 1):
                for have in ((), ('a',), ('a', 'd/b')):
                    for seq in seqs(('a', 'd/b'), n, have):
                        for start in range(0, len(seq) + 1):
                            yield {'k': 'i', 'delete': delete, 'ign': ign, 'have': have,
                                   'seq': seq, 'from': start}
                # change lists not well formed with respect to the destination
                for seq in itertools.product([(r, k) for r in ('a', 'd/b') for k in
                                              ('created', 'updated', 'deleted')], repeat=2):
                    yield {'k': 'i', 'delete': delete, 'ign': ign, 'have': ('a',),
                           'seq': list(seq), 'from': 0}
        # many resources, one change each: any proportion of the kinds of change
        rels = ('a', 'd/b', 'c', 'd/e', 'z')[:5 if tier == 'thorough' else 4]
        for delete in (1, 0):
            for kinds in itertools.product((None, 'created', 'updated', 'deleted'), repeat=len(rels)):
                seq = [(r, k) for r, k in zip(rels, kinds) if k]
                yield {'k': 'i', 'delete': delete, 'ign': 0, 'from': 0, 'seq': seq,
                       'have': [r for r, k in zip(rels, kinds) if k != 'created']}

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        def go():
            w = World(ctx)
            delete = bool(case['delete'])
            put('keep/outside', b'x', T0)
            put('dstx/a', b'not mapped', T0)
            links = ctx.choose('links', 2)
            if links:
                # what the scan of the disk leaves out is not the sync's to remove
                for d in ('dst/d', 'dst/emp/ty'):
                    os.makedirs(d)
                os.symlink('../../keep/outside', 'dst/d/link')
                os.symlink('../keep', 'dst/dirlink')
                os.symlink('nowhere', 'dst/d/dangling')
            if case['k'] == 'b':
                listed = {}
                for rel, (s, d) in case['r'].items():
                    l = make_listed(rel, s)
                    if l:
                        listed[rel] = l
                    fill_dst('dst', rel, d)
                kw = publish(w, case['pack'], list(listed.values()))
                if case['pack'] == 'twomaps':
                    put('dst2/q', b'q', T0)
                files = files_of(snapshot('.'))
                may = {'dst/' + r for r in (k for k in case['r']) if r not in listed}
                if case['pack'] == 'twomaps':
                    may.add('dst2/q')
                touched = {'dst/' + r for r in listed}
                resources = {BASE + '/' + r for r in listed}
            else:
                kw = {}
                put('dst/unrelated', b'u', T0 - 1000)
                for rel in case['have']:
                    put('dst/' + rel, b'old', T0 - 40)
                ch = [(T0 + i, rel, k, None if k == 'deleted' else b'v%d' % i)
                      for i, (rel, k) in enumerate(case['seq'])]
                w.web.docs[CL] = xml_doc('changelist', cl_entries(ch))
                for (t, rel, k, data) in ch:
                    if data:
                        w.web.docs[BASE + '/' + rel] = data
                net = net_changes(ch, T0 + case['from'])
                files = files_of(snapshot('.'))
                may = {'dst/' + r for r, (t, k, d) in net.items() if k == 'deleted'}
                touched = {'dst/' + r for r, (t, k, d) in net.items() if k != 'deleted'}
                resources = {BASE + '/' + r for r in net}
            may &= set(files)
            faults = [0]
            others = {p: v for p, v in snapshot('.').items() if v[0] == 'l'}

            def fault(uri, r):
                if uri in resources and faults[0] == 0:
                    f = ctx.pick('fault ' + uri, [None, '404', ('reset', 2)])
                    if f:
                        faults[0] += 1
                    return f
            w.web.fault = fault
            kw['ignore_failures'] = bool(case['ign'])
            if case['k'] == 'b':
                o = w.baseline(delete=delete, **kw)
            else:
                o = w.incremental(delete=delete, from_datetime=iso(T0 + case['from']), **kw)
            now = snapshot('.')
            ctx.expect(others == {p: v for p, v in now.items() if v[0] == 'l'}, "symbolic links %s became %s",
                       others, {p: v for p, v in now.items() if v[0] == 'l'})
            now = files_of(now)
            gone = set(files) - set(now)
            if not may:
                ctx.trivial()
            ctx.state([sorted(files), sorted(now), delete, o.error, faults[0]])
            ctx.expect(o.error in (None, 'fatal'), "error %s: %s", o.error, o.message)
            ctx.expect(gone <= may, "deleted %s, only %s may go", sorted(gone), sorted(may))
            if not delete:
                ctx.expect(not gone, "deleted %s although deletion is not enabled", sorted(gone))
            for p in files:
                if p in now and p not in touched and p != STATE:
                    ctx.expect(now[p] == files[p], "file %s changed: %s -> %s", p, files[p],
                               now[p])
            extra = set(now) - set(files) - touched - {STATE}
            ctx.expect(not extra, "new files %s", sorted(extra))
            if faults[0] and not case['ign'] and case['pack' if case['k'] == 'b' else 'k'] != 'local':
                ctx.expect(o.error == 'fatal', "failed download did not stop the run")
            if o.error is None:
                if delete:
                    ctx.expect(gone == may, "left %s", sorted(may - gone))
                if o.status and len(o.status) > 1 and not faults[0]:
                    ctx.sample({'case': case, 'status': [s[2] for s in o.status]})
                    d = o.status[-1][1].get('deleted')
                    if case['k'] == 'b':
                        ctx.expect(d == len(may), "reports deleted=%s, true %s", d, len(may))
                    st = o.status[-1][0]
                    if may and not delete:
                        ctx.expect('PART' in st, "deletions outstanding, status %r", st)
                if may and not delete and o.status:
                    words, d, raw = o.status[-1]
                    ctx.expect(words not in ('SYNCED', 'IN SYNC', 'CHANGES APPLIED', 'NO CHANGES')
                               and d.get('deleted', 0) >= len(may),
                               "%d deletions remain to be done, status %s", len(may), raw)
                if not faults[0] and not (case['k'] == 'b' and not resources):
                    for p in touched:
                        ctx.expect(p in now, "%s not created", p)
                    if case['k'] == 'i':
                        for r, (t, k, d) in net.items():
                            if k != 'deleted':
                                ctx.expect(now['dst/' + r][1] == d, "%s holds %r, not %r", r,
                                           now['dst/' + r][1], d)
        ctx.explore(go)


# --- containment ----------------------------------------------------------------------------

SRC_HOST = 'http://src.example'


def covering(maps, uri):
    """First mapping covering uri: (source prefix, destination) or None."""
    for src, dst in maps:
        if uri == src or uri.startswith(src + '/'):
            return src, dst
    return None


def inside(path, root):
    p = os.path.normpath(os.path.abspath(path))
    return p == root or p.startswith(root + '/')


class C04(Check):
    id = 'C04'
    rule = ('one case = a hostile URI base and first segments with every tail up to the bound, per mapping '
            'set; baseline and incremental runs with each change type; or a pair of local source and '
            'destination paths')
    MAPS = {'one': [(SRC_HOST + '/res', 'dst')],
            'two': [(SRC_HOST + '/res', 'dst'), (SRC_HOST + '/resx', 'dst2')],
            'nested': [(SRC_HOST + '/res/d', 'dst2'), (SRC_HOST + '/res', 'dst')],
            'host': [(SRC_HOST, 'dst')],
            'deep': [(SRC_HOST + '/res', 'p/q/dst')],
            'abs': [(SRC_HOST + '/res', '@/abs/dst')],
            'dotted': [(SRC_HOST + '/res', './dst.d')]}
    BASES = ['', '/res', '/resx', '/re', '/res.', '/RES']
    SEGS = ['a', '..', '.', '', 'd', '%2e%2e', 'dst2', '..a', '...', 'a b', '..\n', '~', 'keep']
    FEW = ['a', '..', '', 'd', 'dst2']
    LOCAL = ['s', 's/', './s', 's/t', 's/t/u', 'st', 's/../s', 's/../st', 'd/../s/t', 'S', 's.t',
             '@/s', '@/s/t', '@/st', '@/d', 'd', '.', 'file:@/s', 'file://@/s', 'file://@/s/t',
             'file://@/d', 'l', 'l/t']

    def cases(self, tier):
        quick = tier == 'quick'
        segs = self.SEGS[:8] if quick else self.SEGS
        for m in self.MAPS:
            for b in self.BASES[:6 if m == 'one' or not quick else 3]:
                for s1 in segs:
                    for s2 in segs:
                        yield {'m': m, 'b': b, 'seg': [s1, s2], 'n': 4 if tier == 'thorough' else 3}
            yield {'m': m, 'odd': 1}
        for d in ('dst', './dst', 'p/q/dst', '@/dst', '@/abs/dst', 'p/../dst', 'p/q/../dst'):
            yield {'lone': d}
        for s in self.LOCAL:
            for d in self.LOCAL:
                if not d.startswith('file'):
                    yield {'src': s, 'dst': d}

    def setup(self, ctx):
        World.setup()

    def tails(self, case):
        base = [SRC_HOST + case['b'] + '/' + case['seg'][0]]
        uris = base + [base[0] + '/' + case['seg'][1]]
        for t in self.FEW if case['n'] == 3 else self.SEGS:
            uris.append(uris[1] + '/' + t)
        if case['n'] > 3:
            for t in self.FEW:
                for t2 in self.FEW:
                    uris.append(uris[1] + '/' + t + '/' + t2)
        return uris

    ODD = ['http://src.example/res', 'http://src.example/res?a=/../../x', 'http://src.example/res/?../..',
           'http://src.example/res/a?b/../../../c', 'http://src.example/res/a#../../x', '../x', '/etc/x',
           'file:///etc/x', 'http://src.example:80/res/a', 'http://src.example@evil.example/res/a',
           'https://src.example/res/a', 'http://other.example/res/a', 'http://src.examplex/res/a',
           'http://src_example/res/a', 'HTTP://src.example/res/a', '//src.example/res/a', 'dst/a',
           'xhttp://src.example/res/a', 'http://srcxexample/res/a', 'res:a', '', 'http://', 'keep/me',
           'http://src.example/res/' + 'a' * 300, 'http://src.example/res/\u00e9/..\u2044x',
           'http://src.example/res/a/../..', 'http://src.example/res/..', 'http://src.example/res/../',
           'http://src.example/res/../dst/a', 'http://src.example/res/../dstx',
           'http://src.example/res\n/../../a', 'http://src.example/res/a\x00b']

    def run(self, ctx, case):
        if 'src' in case:
            return self.local(ctx, case)
        if 'lone' in case:
            return self.lone(ctx, case)
        if 'odd' in case:
            uris = [u for u in self.ODD if '\x00' not in u and u]
        else:
            uris = self.tails(case)

        def go():
            uri = ctx.pick('uri', uris)
            kind = ctx.pick('kind', ['list', 'created', 'updated', 'deleted'])
            w = World(ctx)
            w.tolerate = False
            maps = [(s, d.replace('@', w.x)) for s, d in self.MAPS[case['m']]]
            for p in ('keep/me', 'dst/keep/x', 'dst2/keep', 'dstx', 'p/q/x', 'p/keep', 'abs/keep', 'a', 'd/a'):
                put(p, b'precious', T0 - 99)
            before = snapshot('.')
            kw = {'mappings': ['%s=%s' % m for m in maps]}
            data = b'payload'
            w.web.docs[uri] = data
            ok_uri = maps[0][0] + '/zz'
            w.web.docs[ok_uri] = b'zz'
            if kind == 'list':
                w.web.docs['http://src.example/rl.xml'] = xml_doc('resourcelist', [
                    {'loc': u, 'lastmod': T0, 'length': n} for u, n in ((ok_uri, 2), (uri, 7))])
                o = w.baseline(delete=False, sitemap_name='http://src.example/rl.xml', noauth=True, **kw)
            else:
                es = cl_entries([(T0, '', 'created', b'zz'), (T0 + 1, '', kind,
                                                              None if kind == 'deleted' else data)])
                es[0]['loc'], es[1]['loc'] = ok_uri, uri
                w.web.docs['http://src.example/cl.xml'] = xml_doc('changelist', es)
                o = w.incremental(delete=True, from_datetime=iso(T0 - 5), noauth=True,
                                  change_list_uri='http://src.example/cl.xml', **kw)
            ctx.state([case['m'], uri, kind, o.error])
            m = covering(maps, uri)
            roots = [os.path.normpath(os.path.join(w.x, maps[0][1]))]   # where ok_uri goes
            if m:
                roots.append(os.path.normpath(os.path.join(w.x, m[1])))
            after = snapshot('.')
            touched = [k for k in set(before) | set(after) if before.get(k) != after.get(k)]
            for k in touched:
                if k.startswith(STATE):
                    continue
                p = os.path.join(w.x, k.rstrip('/'))
                if before.get(k) is None and k.endswith('/') and any(r.startswith(p + '/') for r in roots):
                    continue    # a parent of the destination directory itself
                ctx.expect(any(inside(p, r) for r in roots), "%s of %r changed %s (%s -> %s)", kind,
                           uri, k, before.get(k), after.get(k))
                if not m:
                    ctx.expect(k.rstrip('/') == 'zz' or before.get(k) is None and (
                        k.endswith('/') or k.endswith('zz')),
                        "%s of unmapped %r changed %s", kind, uri, k)
            if not m:
                ctx.trivial()
                return
            # an ordinary URI is applied
            rel = uri[len(m[0]):]
            segs = rel.split('/')[1:]
            if segs and all(s not in ('', '.', '..') and len(s) < 200 for s in segs) \
                    and '?' not in rel and '#' not in rel and '\n' not in rel:
                p = os.path.join(os.path.normpath(os.path.join(w.x, m[1])), *segs)
                key = os.path.relpath(p, w.x)
                if o.error is None or kind != 'deleted':
                    if before.get(key + '/') is None:
                        blocked = any(key.startswith(k + '/') for k in before if not k.endswith('/'))
                        if not blocked:
                            if kind == 'deleted':
                                ctx.expect(key not in after, "%s not deleted", key)
                            elif uri.split('?')[0].isascii() and ' ' not in uri:
                                ctx.expect(o.error is None, "%s of %r failed: %s %s", kind, uri,
                                           o.error, o.message)
                                ctx.expect(after.get(key, (0, 0))[1] == data, "%r not stored at %s: %s",
                                           uri, key, after.get(key))
            ctx.sample({'map': case['m'], 'uri': uri, 'kind': kind, 'error': o.error,
                        'touched': sorted(touched)[:5]})
        ctx.explore(go)

    def lone(self, ctx, case):
        """The destination holds nothing but what goes (or comes)."""
        def go():
            rel = ctx.pick('rel', ['a', 'd/a', 'd/e/a'])
            kind = ctx.pick('kind', ['deleted', 'updated', 'created'])
            mode = ctx.pick('mode', ['incremental', 'baseline'])
            there = kind != 'created' and ctx.choose('there', 2)
            empty = ctx.choose('empty directories', 2)
            w = World(ctx)
            dst = case['lone'].replace('@', w.x)
            if 'p/' in dst:
                os.makedirs('p/q')
            root = os.path.normpath(os.path.join(w.x, dst))
            os.makedirs(root)
            put('r/s/k', b'kkkkk', T0)
            if there:
                put(os.path.join(root, rel), b'old', T0 - 50)
            if empty:
                for d in (root, os.path.dirname(root)):
                    os.makedirs(d + '/emp/ty')
            kw = {'mappings': [SRC_HOST + '/res=' + dst, SRC_HOST + '/other=r/s']}
            uri = SRC_HOST + '/res/' + rel
            w.web.docs[uri] = b'new!'
            before = snapshot('.')
            if mode == 'incremental':
                w.web.docs['http://src.example/cl.xml'] = xml_doc('changelist', [
                    {'loc': uri, 'change': kind, 'datetime': T0, 'lastmod': None if kind == 'deleted' else T0}])
                o = w.incremental(delete=True, from_datetime=iso(T0 - 5), noauth=True,
                                  change_list_uri='http://src.example/cl.xml', **kw)
            else:
                w.web.docs['http://src.example/rl.xml'] = xml_doc('resourcelist', [
                    {'loc': SRC_HOST + '/other/k', 'lastmod': T0, 'length': 5}] + (
                        [] if kind == 'deleted' else [{'loc': uri, 'lastmod': T0, 'length': 4}]))
                o = w.baseline(delete=True, sitemap_name='http://src.example/rl.xml', noauth=True, **kw)
            after = snapshot('.')
            ctx.state([case, rel, kind, mode, bool(there), empty, o.error])
            if kind == 'deleted' and not there and mode == 'incremental':
                ctx.expect(o.error in (None, 'fatal'), "%s", o)     # (it is not there to delete)
            else:
                ok(o)
            for k in set(before) | set(after):
                if before.get(k) != after.get(k) and not k.startswith(STATE):
                    ctx.expect(inside(k, root), "%s of %s (-> %s) in %s changed %s: %s -> %s", kind, rel, dst, mode,
                               k, before.get(k), after.get(k))
            key = os.path.relpath(os.path.join(root, rel), w.x)
            if o.error is None:
                got = after.get(key)
                ctx.expect((got and got[1]) == (None if kind == 'deleted' else b'new!'), "%s of %s: %s", kind, key, got)
        ctx.explore(go)

    def local(self, ctx, case):
        def go():
            how = ctx.pick('how', ['baseline', 'incremental', 'audit'])
            w = World(ctx)
            put('s/a', b'AAAAA', T0)
            put('s/t/b', b'BB', T0)
            put('st/a', b'CCC', T0)
            put('s.t/a', b'CCC', T0)
            put('S/a', b'CCC', T0)
            put('d/x', b'x', T0)
            put('keep', b'x', T0)
            os.symlink('s', 'l')

            def real(n):
                if n.startswith('file:'):
                    n = n[7:] if n.startswith('file://') else n[5:]
                n = n.replace('@', w.x)
                return os.path.realpath(n)
            src, dst = case['src'].replace('@', w.x), case['dst'].replace('@', w.x)
            rs, rd = real(case['src']), real(case['dst'])
            overlap = rs == rd or rs.startswith(rd + '/') or rd.startswith(rs + '/')
            srcdir = src.rstrip('/')
            listed = {}
            if os.path.isdir(rs) and rs != w.x:
                for k, f in files_of(snapshot(rs)).items():
                    listed[k] = f[1]
            put(os.path.join(rs, 'resourcelist.xml'), xml_doc('resourcelist', [
                {'loc': srcdir + '/' + k, 'lastmod': T0, 'length': len(v)}
                for k, v in sorted(listed.items())]))
            put(os.path.join(rs, 'changelist.xml'), xml_doc('changelist', [
                {'loc': srcdir + '/' + k, 'datetime': T0, 'lastmod': T0, 'length': len(v), 'change': 'created'}
                for k, v in sorted(listed.items())]))
            before = snapshot('.')
            kw = {'mappings': ['%s=%s' % (src, dst)]}
            if how == 'incremental':
                o = w.incremental(delete=True, from_datetime=iso(T0 - 5), **kw)
            else:
                o = w.baseline(delete=True, audit=how == 'audit', **kw)
            after = snapshot('.')
            ctx.state([case, how, o.error])
            if overlap or how == 'audit':
                if how != 'audit':
                    ctx.expect(o.error == 'fatal', "overlapping %s -> %s not refused: %s", src, dst, o)
                ctx.expect(before == after, "changed although refused: %s", diff(before, after))
                ctx.trivial() if how == 'audit' else None
            elif listed:
                ctx.expect(o.error is None, "sync %s -> %s (not overlapping) failed: %s %s", src, dst,
                           o.error, o.message)
                for k, v in listed.items():
                    ctx.expect(get(os.path.join(rd, k)) == v, "%s not copied", k)
        ctx.explore(go)


# --- authority ----------------------------------------------------------------------------------

DEFAULT_PORT = {'http': ':80', 'https': ':443', 'ftp': ':21'}


def spec_authority(doc, uri, strict):
    """Documented relation. doc, uri: (scheme, host, port, path segments..., last)."""
    (s1, h1, p1, path1), (s2, h2, p2, path2) = doc, uri
    if s1 != s2 or (p1 or DEFAULT_PORT.get(s1)) != (p2 or DEFAULT_PORT.get(s2)):
        return False
    if h1 != h2 and not h2.endswith('.' + h1):
        return False
    if strict:
        d = path1[:-1]
        if path2[:len(d)] != d or len(path2) <= len(d):
            return False
    return True


def make_uri(u):
    s, h, p, path = u
    return '%s://%s%s/%s' % (s, h, p, '/'.join(path))


class C05(Check):
    id = 'C05'
    rule = ('relation: one case = one document URI against every resource URI; client: one case = kind of '
            'sync x document place x flags x list of three URIs with a foreign one at each position; index: one case = index URI '
            'x list type x checking on or off, against every place of one of its files')
    HOSTS = ['a.ex', 'b.ex', 'x.a.ex', 'y.x.a.ex', 'xa.ex', 'a.ex.b', 'ex', 'a', 'a.exx', 'a.a.ex']
    SCHEMES = ['http', 'https', 'ftp']
    SEG = ['r', 'rx', 's']
    FOREIGN = ['http://evil.example/res/f', 'https://src.example/res/f', 'http://src.example.evil.example/res/f',
               'http://xsrc.example/res/f', 'http://sub.src.example/res/f', 'http://a.b.src.example/res/f',
               'http://src.example/resx/f', 'http://src.example/other/f', 'http://src.example/res/deep/er/f',
               'http://src.example/f', 'http://src.example/lists/f', 'http://src.example/res2/f',
               'http://example/res/f', 'ftp://src.example/res/f', 'http://rc.example/res/f',
               'http://src.example:8080/res/f', 'http://sub.src.example:8080/res/f',
               'http://src.example@evil.example/res/f', 'http://src.example:80@evil.example/res/f',
               'http://src.example%2eevil.example/res/f']
    # never of a document whose host is not their last part
    POSING = ['a.ex@b.ey', 'a.ex:80@b.ey', 'x.a.ex@b.ey', 'a.ex@.b.ey', 'a.ex%40b.ey', 'a.ex%2eb.ey', 'a.ex,b.ey',
              'a.ex;b.ey', 'a.ex_b.ey', 'a.ex-b.ey', 'a-ex', 'a_ex', 'axex', 'a.ex.b.ey', 'a.ex:x@b.ey', 'b.ey:a.ex',
              'b.ey?x.a.ex', 'b.ey#x.a.ex', 'b.ey/x.a.ex', 'b.ey//a.ex', 'a.e', '.ex', '', 'b.ey/@a.ex', 'b.ey?@a.ex',
              'b.ey#@x.a.ex', 'xa.ex', 'x-a.ex', 'x_a.ex']
    DOCS = [None, 'http://src.example/lists/doc.xml', 'http://src.example/res/deep/doc.xml',
            'http://src.example/doc.xml', 'http://lists.example/doc.xml',
            'http://src.example/re/doc.xml', 'http://sub.src.example/res/doc.xml',
            'https://src.example/res/doc.xml', 'http://example/doc.xml',
            'http://src.example:8080/res/doc.xml']

    def paths(self, n):
        for k in range(0, n + 1):
            for dirs in itertools.product(self.SEG, repeat=k):
                for last in ('', 'f', 'r'):
                    yield list(dirs) + [last]

    def uris(self, tier):
        for s in self.SCHEMES:
            for h in self.HOSTS:
                for p in ('', ':80', ':81'):
                    for path in self.paths(3 if tier == 'thorough' else 2):
                        yield (s, h, p, path)

    def cases(self, tier):
        for s in self.SCHEMES[:2]:
            for h in self.HOSTS:
                for p in ('', ':80'):
                    for path in self.paths(2):
                        yield {'doc': [s, h, p, path]}
        for k in ('b', 'i'):
            for d in self.DOCS:
                for noauth in (0, 1):
                    for strict in (0, 1):
                        for prior in (0, 1):
                            yield {'k': k, 'at': d, 'noauth': noauth, 'strict': strict, 'prior': prior}
        for d in self.DOCS[1:]:
            for cls in ('resourcelist', 'changelist'):
                for checked in (0, 1):
                    yield {'index': d, 'cls': cls, 'checked': checked}
        for n in (20, 130, 300, 1100):
            for k in ('b', 'i'):
                yield {'crowd': n, 'k': k}
        for n in range(0, 3):
            for dirs in itertools.product(['r', 's', '..', '%2e%2e', '.'], repeat=n):
                yield {'dotted': list(dirs)}
        for k in ('b', 'i'):
            yield {'dots': k}

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        if 'doc' in case:
            return self.relation(ctx, case)
        if 'index' in case:
            return self.index(ctx, case)
        if 'crowd' in case:
            return self.crowd(ctx, case)
        if 'dotted' in case:
            return self.dotted(ctx, case)
        if 'dots' in case:
            return self.dots(ctx, case)

        def go():
            from urllib.parse import urlsplit
            foreign = ctx.pick('foreign', self.FOREIGN)
            others = ctx.pick('others', ['there', 'none'] + (['deleted'] if case['k'] == 'i' else []))
            pos = ctx.choose('pos', 3) if others != 'none' else 0
            change = ctx.pick('change', ['created', 'updated', 'deleted'] if case['k'] == 'i' else ['listed'])
            w = World(ctx)
            doc = case['at']
            default = BASE + ('/resourcelist.xml' if case['k'] == 'b' else '/changelist.xml')
            uri = doc or default
            uris = [BASE + '/a', BASE + '/b'] if others != 'none' else []
            uris.insert(pos, foreign)
            parts = urlsplit(foreign)
            fdir = foreign.rsplit('/', 1)[0]
            maps = [BASE + '=dst'] + ([] if covering([(BASE, '')], foreign) else [fdir + '=dst2'])
            put('dst/a', b'old', T0 - 40)
            put('dst/b', b'x', T0)
            put('dst2/f', b'old', T0 - 40)
            if case['prior']:
                set_state(T0 - 50)
            for u in uris:
                w.web.docs[u] = b'x'
            kw = {'mappings': maps, 'noauth': bool(case['noauth']), 'strictauth': bool(case['strict'])}
            if case['k'] == 'b':
                w.web.docs[uri] = xml_doc('resourcelist', [{'loc': u, 'lastmod': T0, 'length': 1}
                                                           for u in uris])
                if doc:
                    kw['sitemap_name'] = doc
            else:
                w.web.docs[uri] = xml_doc('changelist', [
                    {'loc': u, 'lastmod': T0 + i, 'datetime': T0 + i,
                     'change': change if u == foreign else 'deleted' if others == 'deleted' else
                     'updated'} for i, u in enumerate(uris)])
            before = snapshot('.')
            if case['k'] == 'b':
                o = w.baseline(delete=True, **kw)
            else:
                o = w.incremental(delete=True, change_list_uri=doc,
                                  from_datetime=None if case['prior'] else iso(T0 - 50), **kw)
            after = snapshot('.')

            def split(u):
                p = urlsplit(u)
                return (p.scheme, p.hostname, ':%d' % p.port if p.port else '', p.path.split('/')[1:])
            strict = bool(case['strict'])
            auth = all(spec_authority(split(uri), split(u), strict) for u in uris)
            lenient = auth
            if case['k'] == 'i' and not doc:
                # default change list: the resource list it belongs to vouches as well
                lenient = all(spec_authority(split(uri), split(u), strict)
                              or spec_authority(split(SITE), split(u), strict) for u in uris)
            ctx.state([case, foreign, pos, change, others, o.error])
            ctx.sample({'case': case, 'foreign': foreign, 'error': o.error})
            if case['noauth'] or auth:
                ctx.expect(o.error is None, "authorised sync failed: %s %s", o.error, o.message)
                here = after.get('dst/a', (0, None))[1]
                ctx.expect(here == (b'x' if others == 'there' else b'old' if others == 'none' and case['k'] == 'i'
                                    else None), "not synced")
                if auth and not case['noauth']:
                    ctx.trivial()
            elif not lenient:
                ctx.expect(o.error is not None, "list mentions %s without authority but sync went on: %s",
                           foreign, diff(before, after))
                ctx.expect(before == after, "changed before the authority error: %s", diff(before, after))
                ctx.expect(o.error == 'fatal', "error %s: %s", o.error, o.message)
                ctx.expect(not [r for r in o.requests if r.uri in uris], "downloaded a resource")
        ctx.explore(go)

    def crowd(self, ctx, case):
        """One foreign resource among many."""
        def go():
            n = case['crowd']
            where = ctx.pick('where', ['http://evil.example/res', 'http://src.example/resx', None])
            at = ctx.pick('at', [0, n // 2, n - 2, n - 1])
            strict = bool(ctx.choose('strict', 2))
            w = World(ctx)
            uris = ['%s/d%d/a%d' % (BASE, i % 3, i) for i in range(n)]
            maps = [BASE + '=dst']
            if where:
                uris[at] = where + '/f'
                maps.append(where + '=dst2')
                put('dst2/f', b'old', T0 - 40)
            put('dst/d0/a0', b'old', T0 - 40)
            for u in uris:
                w.web.docs[u] = b'x'
            kw = {'mappings': maps, 'strictauth': strict}
            es = [{'loc': u, 'lastmod': T0, 'length': 1} for u in uris]
            before = snapshot('.')
            if case['k'] == 'b':
                w.web.docs[SITE] = xml_doc('resourcelist', es)
                o = w.baseline(delete=True, **kw)
            else:
                w.web.docs[CL] = xml_doc('changelist', [dict(e, datetime=T0 + i, change='created')
                                                        for i, e in enumerate(es)])
                o = w.incremental(delete=True, from_datetime=iso(T0 - 50), **kw)
            ctx.state([case, where, at, strict, o.error])
            if where is None or 'src.example/' in where and not strict:
                ok(o)
                ctx.expect(len([p for p, v in files_of(snapshot('.')).items() if v[1] == b'x']) == n,
                           "not synced: %s", o.status)
            else:
                ctx.expect(o.error == 'fatal', "list of %d mentions %s without authority but sync ended %s", n,
                           uris[at], o.error)
                ctx.expect(snapshot('.') == before, "changed before the authority error")
                ctx.expect(not [r for r in o.requests if r.uri in uris], "downloaded a resource")
        ctx.explore(go)

    DOTS = ['.', '..', '%2e', '%2E', '%2e%2e', '%2E%2e', '.%2e', '%2e.', '..%2e', '...', 'r', 's']

    @staticmethod
    def resolved(segments):
        """Path segments after resolution of dot segments, as a server does it."""
        out = []
        for i, x in enumerate(segments):
            d = x.replace('%2e', '.').replace('%2E', '.')
            if d == '..':
                del out[-1:]
            if d not in ('.', '..'):
                out.append(x)
            elif i == len(segments) - 1:
                out.append('')
        return out

    def dotted(self, ctx, case):
        """In strict mode paths with dot segments never lead out of the directory."""
        from resync.url_authority import UrlAuthority
        doc = ('http', 'a.ex', '', case['dotted'] + ['l.xml'])
        ua = UrlAuthority(make_uri(doc), strict=True)
        rdoc = doc[:3] + (self.resolved(doc[3]),)
        plain = rdoc == doc
        for n in range(0, 5 if ctx.thorough else 4):
            for dirs in itertools.product(self.DOTS, repeat=n):
                for last in ('', 'f', '..', '%2e%2e', '.'):
                    u = ('http', 'a.ex', '', list(dirs) + [last])
                    ru = u[:3] + (self.resolved(u[3]),)
                    if rdoc[3][:-1] == ru[3]:
                        continue    # the directory named without its slash: either answer
                    ctx.step()
                    got = ua.has_authority_over(make_uri(u))
                    exp = spec_authority(rdoc, ru, True)
                    if got and not exp or plain and ru == u and exp and not got:
                        ctx.fail('authority of %s over %s (strict) is %s' % (make_uri(doc), make_uri(u), got))
        ctx.state(case)

    def dots(self, ctx, case):
        """A strict sync of a list that mentions a resource above its directory by way of dot segments."""
        def go():
            seg = ctx.pick('segments', ['res/..', 'res/%2e%2e', 'res/%2E%2e', 'res/.%2E', 'res/d/../..', 'res/./..', 'res/d/..',
                                        'res/.', 'res/../res', 'res/...', 'res/..d', 'res/%2e%2e/resx', 'res/../resx'])
            at = ctx.choose('at', 2)
            w = World(ctx)
            uris = ['http://src.example/res/a']
            uris.insert(at, 'http://src.example/%s/f' % seg)
            for u in uris:
                w.web.docs[u] = b'x'
            kw = {'mappings': ['http://src.example=dst'], 'strictauth': True}
            es = [{'loc': u, 'lastmod': T0, 'length': 1} for u in uris]
            put('dst/old', b'old', T0)
            before = snapshot('.')
            if case['dots'] == 'b':
                w.web.docs['http://src.example/res/l.xml'] = xml_doc('resourcelist', es)
                o = w.baseline(delete=True, sitemap_name='http://src.example/res/l.xml', **kw)
            else:
                w.web.docs['http://src.example/res/l.xml'] = xml_doc('changelist', [
                    dict(e, datetime=T0 + i, change='created') for i, e in enumerate(es)])
                o = w.incremental(delete=True, change_list_uri='http://src.example/res/l.xml',
                                  from_datetime=iso(T0 - 50), **kw)
            ctx.state([case, seg, at, o.error])
            if self.resolved(seg.split('/') + ['f'])[0] != 'res':
                ctx.expect(o.error is not None, "list in /res/ mentions %s without authority but sync went on", uris[at])
            elif '.' not in [x.replace('..', '.') for x in seg.split('/')] and '%' not in seg:
                ok(o)
            if o.error is not None:
                ctx.expect(snapshot('.') == before, "changed before the authority error")
                ctx.expect(not [r for r in o.requests if r.uri in uris], "downloaded a resource")
        ctx.explore(go)

    def index(self, ctx, case):
        """A list in several files that was told to check authority over the files."""
        from urllib.parse import urlsplit

        def split(u):
            p = urlsplit(u)
            return (p.scheme, p.hostname, ':%d' % p.port if p.port else '', p.path.split('/')[1:])

        def go():
            from resync.resource_list import ResourceList
            from resync.change_list import ChangeList
            other = ctx.pick('other', self.FOREIGN + [d for d in self.DOCS[1:] if d != case['index']])
            pos = ctx.choose('pos', 3)
            w = World(ctx)
            home = case['index'].rsplit('/', 1)[0]
            parts = [home + '/p0.xml', home + '/p1.xml']
            parts.insert(pos, other)
            w.web.docs[case['index']] = xml_doc(case['cls'], [{'loc': u, 'lastmod': T0} for u in parts], index=True)
            for i, u in enumerate(parts):
                e = {'loc': u + '.r', 'lastmod': T0}
                if case['cls'] == 'changelist':
                    e.update(change='updated', datetime=T0 + i)
                w.web.docs[u] = xml_doc(case['cls'], [e])
            lst = ResourceList() if case['cls'] == 'resourcelist' else ChangeList()
            if case['checked']:
                lst.check_url_authority = True
            o = w.run(lambda: lst.read(uri=case['index']))
            ctx.state([case, other, pos, o.error])
            asked = [r.uri for r in o.requests]
            if case['checked'] and not spec_authority(split(case['index']), split(other), False):
                ctx.expect(o.error is not None, "list %s in several files accepted with %s", case['index'], other)
                ctx.expect(other not in asked, "%s requested although %s has no authority over it", other,
                           case['index'])
            else:
                ctx.expect(o.error is None, "list with %s refused: %s %s", parts, o.error, o.message)
                ctx.expect(sorted(r.uri for r in lst) == sorted(u + '.r' for u in parts),
                           "list with files %s gives %s", parts, [r.uri for r in lst])
            ctx.expect(not o.effects, "reading had effects %s", o.effects)
        ctx.explore(go)

    def relation(self, ctx, case):
        from resync.url_authority import UrlAuthority
        s, h, p, path = case['doc']
        doc = (s, h, p, list(path))
        for strict in (False, True):
            ua = UrlAuthority(make_uri(doc), strict=strict)
            for u in self.uris(ctx.tier):
                if u[2] != p and (u[2] or DEFAULT_PORT[s]) == (p or DEFAULT_PORT[s]):
                    continue    # the default port spelt out in one only: either answer
                if strict and len(u[3]) and list(u[3]) == doc[3][:-1]:
                    continue    # the directory named without its slash: either answer
                ctx.step()
                got = ua.has_authority_over(make_uri(u))
                exp = spec_authority(doc, (u[0], u[1], u[2], list(u[3])), strict)
                if bool(got) != exp:
                    ctx.fail("authority of %s over %s (strict=%s) is %s, documented %s" % (
                        make_uri(doc), make_uri(u), strict, got, exp))
            for posing in self.POSING if ('.' + h).endswith('.a.ex') else ():
                for path in ('', '/', '/f', '/r/f', '/r/rx/f'):
                    ctx.step()
                    got = ua.has_authority_over('%s://%s%s' % (s, posing, path))
                    if got:
                        ctx.fail("authority of %s over %s://%s%s (strict=%s)" % (
                            make_uri(doc), s, posing, path, strict))
        ctx.state(case)


# --- histories ------------------------------------------------------------------------------------

def vdata(rel, v):
    """Content of version v of a resource: every version has its own length."""
    return (rel[:1] * (v + 1)).encode()


class Hist:
    """Source + client history; plain data, cheap to copy."""

    def __init__(self):
        self.t = 0                  # ticks after T0
        self.src = {}               # rel -> (version, lastmod tick)
        self.log = []               # (tick, rel, kind, version or None)
        self.nv = 0

    def copy(self):
        h = Hist()
        h.t, h.src, h.log, h.nv = self.t, dict(self.src), list(self.log), self.nv
        return h

    def change(self, rel, kind, tick):
        self.t += tick
        if kind == 'deleted':
            del self.src[rel]
            self.log.append((self.t, rel, kind, None))
        else:
            self.nv += 1
            self.src[rel] = (self.nv, self.t)
            self.log.append((self.t, rel, kind, self.nv))


class C06(Check):
    id = 'C06'
    rule = ('histories: one case = configuration x initial source, explored breadth first (states merged '
            'on source, change log, destination, remembered time); start times: one case = change '
            'sequence with times, every explicit start time')
    RELS = ('a', 'd/b')

    def cases(self, tier):
        for spec in ('1.1', '1.0'):
            for lm in (('same', 'earlier', 'absent') if spec == '1.1' else ('same',)):
                for init in ((), ('a',), ('a', 'd/b')):
                    for stray in (0, 1):
                        if stray and (lm != 'same' or spec == '1.0') and tier == 'quick':
                            continue
                        firsts = range(10)
                        for f in firsts:
                            yield {'k': 'h', 'spec': spec, 'lm': lm, 'init': init, 'stray': stray,
                                   'first': f, 'depth': 6 if tier == 'thorough' else
                                   5 if lm == 'same' and spec == '1.1' and len(init) == 1 else 4}
        n = 3 if tier == 'quick' else 4
        for spec in ('1.1', '1.0'):
            for have in ((), ('a',), ('a', 'd/b')):
                for seq in seqs(self.RELS, n, have):
                    if seq:
                        yield {'k': 'from', 'spec': spec, 'have': have, 'seq': seq}
        for pair in [(n, 'd/b') for n in NAMES if '#' not in n and n not in LISTS] + [p for p in PAIRS if '#' not in p[0]]:
            for have in (pair[:1], pair):
                for seq in seqs(pair, 2, have):
                    if pair[0] in [r for r, k in seq]:
                        yield {'k': 'from', 'spec': '1.1', 'have': have, 'seq': seq}

        for n in MANY if tier == 'thorough' else MANY[:-1]:
            for index in (0, 1):
                yield {'k': 'many', 'n': n, 'index': index}

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        {'h': self.histories, 'from': self.starts, 'many': self.many}[case['k']](ctx, case)

    def many(self, ctx, case):
        """Long change lists: one resource changes twice, far apart, among many."""
        n = case['n']

        def go():
            main = ctx.pick('main', ['created', 'updated', 'deleted'])
            pair = ctx.pick('odd', [('created', 'deleted'), ('created', 'updated'), ('updated', 'deleted'),
                                    ('deleted', 'created'), ('updated', 'updated')])
            at = ctx.pick('at', [(0, n - 1), (0, n // 2), (n // 2, n - 1)])
            start = ctx.pick('from', [-1, at[0] + 1, n - 1])
            w = World(ctx)
            ch = []
            for i in range(n):
                rel, k = 'd%d/a%d' % (i % 7, i), main
                if i in at:
                    rel, k = 'odd', pair[at.index(i)]
                ch.append((T0 + i, rel, k, None if k == 'deleted' else b'v%d' % i))
            for i, (t, rel, k, data) in enumerate(ch):
                if k != 'created' and not (rel == 'odd' and i == at[1]):
                    put('dst/' + rel, b'old one', T0 - 1000)
                if data:
                    w.web.docs[BASE + '/' + rel] = data
            if start > at[0]:
                # the first change of it was applied already
                if pair[0] == 'deleted':
                    os.remove('dst/odd')
                else:
                    put('dst/odd', b'v%d' % at[0], T0 + at[0])
            put('dst/z', b'z', T0 - 1000)
            es = cl_entries(ch)
            if case['index']:
                cut = [0, n // 3, n // 2, n]
                us = ['http://src.example/res/l%d.xml' % i for i in range(3)]
                for i, u in enumerate(us):
                    w.web.docs[u] = xml_doc('changelist', es[cut[i]:cut[i + 1]])
                w.web.docs[CL] = xml_doc('changelist', [{'loc': u} for u in us], index=True)
            else:
                us = []
                w.web.docs[CL] = xml_doc('changelist', es)
            exp = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
            o = w.incremental(delete=True, from_datetime=iso(T0 + start))
            ok(o)
            gets = set()
            for rel, (_, k, d) in net_changes(ch, T0 + start).items():
                if k == 'deleted':
                    exp.pop(rel, None)
                else:
                    exp[rel] = d
                    gets.add(BASE + '/' + rel)
            now = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
            ctx.state([n, case['index'], main, pair, at, start])
            ctx.expect(now == exp, "%d changes (%s; %s at %s) from %s: destination differs in %s", n, main, pair, at,
                       start, [k for k in sorted(set(now) | set(exp)) if now.get(k) != exp.get(k)][:5])
            got = sorted(r.uri for r in o.requests if r.uri != CL and r.uri not in us)
            ctx.expect(got == sorted(gets), "downloaded %d, expected %d", len(got), len(gets))
        ctx.explore(go)

    # publishing
    def publish(self, w, case, h):
        w.web.docs = {}
        for rel, (v, t) in h.src.items():
            w.web.docs[BASE + '/' + rel] = vdata(rel, v)
        w.web.docs[SITE] = xml_doc('resourcelist', [
            {'loc': BASE + '/' + rel, 'lastmod': T0 + t, 'length': len(vdata(rel, v))}
            for rel, (v, t) in sorted(h.src.items())])
        w.web.docs[CL] = xml_doc('changelist', cl_entries(
            [(T0 + t, rel, k, None if v is None else vdata(rel, v)) for (t, rel, k, v) in h.log],
            case['spec'], case['lm']))

    def events(self, h):
        out = ['B', 'I']
        for rel in self.RELS:
            for kind in (('updated', 'deleted') if rel in h.src else ('created',)):
                for tick in (1, 0):
                    out.append([rel, kind, tick])
        return out

    def histories(self, ctx, case):
        w = World(ctx)

        def restore(tree):
            os.chdir(w.x)
            wipe(w.x)
            for p, (k, data, ns) in tree.items():
                if k == 'f':
                    put(p, data, ns / 1e9)

        def save():
            return files_of(snapshot('.'))

        def sync(h, ev):
            self.publish(w, case, h)
            if ev == 'B':
                o = w.baseline(delete=True, spec_version=case['spec'])
            else:
                o = w.incremental(delete=True, spec_version=case['spec'])
            return o

        def judge(h, o, hist, tree0):
            if o.error == 'fatal':
                # the documented refusals
                if not h.src and hist[-1] == 'B':
                    ok_ = 'no resources' in o.message
                elif hist[-1] == 'I' and STATE not in tree0:
                    ok_ = True
                else:
                    ok_ = False
                ctx.expect(ok_, "history %s: sync failed: %s", hist, o.message)
                return
            ctx.expect(o.error is None, "history %s: %s %s", hist, o.error, o.message)
            now = {k[4:]: f[1] for k, f in files_of(snapshot('.')).items() if k.startswith('dst/')}
            exp = {rel: vdata(rel, v) for rel, (v, t) in h.src.items()}
            if case['stray'] and hist[-1] == 'I' and 'dst/stray' in tree0:
                exp['stray'] = tree0['dst/stray'][1]    # the source knows nothing about it
            ctx.expect(now == exp, "history %s: destination %s, source %s", hist, now, exp)

        def canon(h, tree):
            # times as ranks
            times = sorted({h.t} | {t for _, t in h.src.values()} | {c[0] for c in h.log})
            rank = {t: i for i, t in enumerate(times)}

            def rk(sec):
                return rank.get(sec, sec) if float(sec) == int(sec) else sec
            vs = sorted({v for v, _ in h.src.values()} | {c[3] for c in h.log if c[3]}
                        | {len(f[1]) - 1 for p, f in tree.items() if p.startswith('dst/')})
            vr = {v: i for i, v in enumerate(vs)}
            st = None
            if STATE in tree:
                st = tree[STATE][1].decode().split('=')[-1].strip()
                try:
                    st = rk(float(st) - T0)
                except ValueError:
                    pass
            return [rk(h.t), sorted((r, vr[v], rk(t)) for r, (v, t) in h.src.items()),
                    [(rk(t), r, k, vr.get(v)) for (t, r, k, v) in h.log],
                    sorted((p, vr.get(len(f[1]) - 1), rk(f[2] / 1e9 - T0)) for p, f in tree.items()
                           if p.startswith('dst/')), st]

        def go():
            from collections import deque
            ctx.evaluations -= 1
            h0 = Hist()
            for rel in case['init']:
                h0.change(rel, 'created', 1)
            tree = {}
            if case['stray']:
                tree = {'dst/stray': ('f', b's' * 9, (T0 + 10**6) * 10**9)}
            restore(tree)
            start = [['B']] if case['init'] else []
            # begin with a baseline
            o = sync(h0, 'B')
            ctx.step()
            judge(h0, o, ['B'], tree)
            queue = deque([(h0, save(), ['B'])])
            seen = set()
            first = True
            while queue:
                h, tree, hist = queue.popleft()
                evs = self.events(h)
                if first and case['first'] is not None:
                    evs = evs[case['first']:case['first'] + 1]
                first = False
                for ev in evs:
                    h2 = h.copy()
                    hist2 = hist + [ev]
                    ctx.evaluations += 1
                    if isinstance(ev, list):
                        h2.change(*ev)
                        tree2 = tree
                    else:
                        restore(tree)
                        o = sync(h2, ev)
                        judge(h2, o, hist2, tree)
                        tree2 = save()
                        ctx.nontrivial.add(hashlib.md5(repr((case, hist2)).encode()).digest()[:8])
                    c = repr(canon(h2, tree2))
                    if c in seen:
                        continue
                    seen.add(c)
                    ctx.state([case['spec'], case['lm'], case['stray'], c])
                    if len(hist2) <= case['depth']:
                        queue.append((h2, tree2, hist2))
            ctx.count('histories_states', len(seen))
            ctx.trivial()
        try:
            ctx.explore(go)
        finally:
            os.chdir(w.x)

    def starts(self, ctx, case):
        def go():
            w = World(ctx)
            t = 0
            ch = []
            for i, (rel, k) in enumerate(case['seq']):
                t += 1 - ctx.choose('same time', 2) if i else 0
                ch.append((T0 + t, rel, k, None if k == 'deleted' else vdata(rel, i + 1)))
            start = ctx.pick('from', [-0.5] + [x / 2 for x in range(0, 2 * t + 2)])
            for rel in case['have']:
                put('dst/' + rel, vdata(rel, 20), T0 - 1000)
            put('dst/z', b'z', T0 - 1000)
            w.web.docs[CL] = xml_doc('changelist', cl_entries(ch, case['spec']))
            for (_, rel, k, data) in ch:
                if data:
                    w.web.docs[BASE + '/' + rel] = data
            before = files_of(snapshot('dst'))
            o = w.incremental(delete=True, from_datetime=iso(T0 + start), spec_version=case['spec'])
            ok(o)
            exp = {k: f[1] for k, f in before.items()}
            net = net_changes(ch, T0 + start)
            gets = set()
            for rel, (_, k, _d) in net.items():
                if k == 'deleted':
                    exp.pop(rel, None)
                else:
                    exp[rel] = w.web.docs[BASE + '/' + rel]
                    gets.add(BASE + '/' + rel)
            now = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
            ctx.state([case, start, [c[0] - T0 for c in ch]])
            if not net:
                ctx.trivial()
            ctx.sample({'changes': [(c[0] - T0, c[1], c[2]) for c in ch], 'from': start})
            ctx.expect(now == exp, "changes %s from %s: destination %s, expected %s",
                       [(c[0] - T0, c[1], c[2]) for c in ch], start, now, exp)
            got = sorted(r.uri for r in o.requests if r.uri != CL)
            ctx.expect(got == sorted(gets), "downloaded %s, expected %s", got, sorted(gets))
        ctx.explore(go)


class C07(Check):
    id = 'C07'
    rule = ('one case = change history x number of changes already applied x mode x options; within it '
            'every subset of failing downloads; then a healthy incremental')

    def cases(self, tier):
        n = 3 if tier == 'thorough' else 2
        times = {1: [(10,)], 2: [(10, 20), (10, 10)],
                 3: [(10, 20, 30), (10, 10, 20), (10, 20, 20), (10, 10, 10)]}
        for init in ((), ('a',), ('a', 'd/b')):
            for seq in seqs(('a', 'd/b', 'c'), n, init):
                if not seq:
                    continue
                for ts in times[len(seq)]:
                    for applied in range(-1, len(seq)):
                        for mode in ('b', 'i', 'audit', 'dryb', 'dryi'):
                            if mode in ('audit', 'dryb', 'dryi') and (len(seq) > 1 or applied > 0):
                                continue
                            for ign in (0, 1):
                                for stray in (0, 1):
                                    if stray and mode == 'i':
                                        continue
                                    yield {'init': init, 'seq': seq, 'ts': ts, 'applied': applied,
                                           'mode': mode, 'ign': ign, 'stray': stray}

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        def go():
            w = World(ctx)
            h = Hist()
            states = []
            for rel in case['init']:
                h.nv += 1
                h.src[rel] = (h.nv, 0)
                h.log.append((0, rel, 'created', h.nv))
            states.append((0, dict(h.src)))
            for (rel, kind), t in zip(case['seq'], case['ts']):
                h.t = t
                h.change(rel, kind, 0)
                states.append((t, dict(h.src)))
            # what the destination has already
            old = None
            if case['applied'] >= 0:
                t, src = states[case['applied']]
                old = float(T0 + t)
                set_state(old)
                for rel, (v, lm) in src.items():
                    put('dst/' + rel, vdata(rel, v), T0 + lm)
            if case['stray']:
                put('dst/stray', b'stray', T0 + 500)
            set_state(T0 - 7777, 'http://other.example/resourcelist.xml')
            C06.publish(None, w, {'spec': '1.1', 'lm': 'same'}, h)
            resources = {BASE + '/' + rel for rel in ('a', 'd/b', 'c')}
            failed, loaded = [], []

            def fault(uri, r):
                if uri in resources:
                    f = ctx.pick('fault ' + uri, [None, '404', ('reset', 1)] if uri in w.web.docs
                                 else [None])
                    (failed if f or uri not in w.web.docs else loaded).append(uri)
                    return f
            w.web.fault = fault
            kw = {'ignore_failures': bool(case['ign'])}
            mode = case['mode']
            if 'dry' in mode:
                kw['dryrun'] = True
            c = w.client(**kw)
            if not case['stray']:
                # the same client object may have been used for another source before
                earlier = ctx.pick('earlier', [None, 'baseline', 'incremental'])
                if earlier:
                    old_base = 'http://old.example/r'
                    c.set_mappings([old_base + '=old'])
                    es = [{'loc': old_base + '/x', 'lastmod': T0 + 900, 'datetime': T0 + 900,
                           'change': 'created', 'length': 1},
                          {'loc': old_base + '/y', 'lastmod': T0 + 800, 'datetime': T0 + 950,
                           'change': 'created', 'length': 1}]
                    w.web.docs[old_base + '/x'] = b'x'
                    w.web.docs[old_base + '/resourcelist.xml'] = xml_doc('resourcelist', [
                        {k: v for k, v in e.items() if k not in ('datetime', 'change')} for e in es])
                    w.web.docs[old_base + '/changelist.xml'] = xml_doc('changelist', es)
                    if earlier == 'baseline':
                        w.run(lambda: c.baseline_or_audit(allow_deletion=True))
                    else:
                        w.run(lambda: c.incremental(allow_deletion=True, from_datetime=iso(T0)))
                    c.set_mappings([BASE + '=dst'])
                    wipe('old') if os.path.isdir('old') else None
            if mode in ('b', 'audit', 'dryb'):
                o = w.run(lambda: c.baseline_or_audit(allow_deletion=True, audit_only=mode == 'audit'))
            else:
                o = w.run(lambda: c.incremental(allow_deletion=True))
            new = w.remembered(SITE)
            ctx.expect(w.remembered('http://other.example/resourcelist.xml') == T0 - 7777,
                       "remembered time of another source changed")
            ctx.state([case, sorted(failed), o.error, new])
            if not failed:
                ctx.trivial() if mode not in ('b', 'i') else None
            ctx.expect(o.error in (None, 'fatal'), "error %s %s", o.error, o.message)
            lastmods = {BASE + '/' + rel: T0 + t for rel, (v, t) in h.src.items()}
            change_t = {}
            for (t, rel, k, v) in h.log:
                change_t[BASE + '/' + rel] = T0 + t
            if o.error or mode not in ('b', 'i'):
                ctx.expect(new == old, "%s run (%s) changed the remembered time from %s to %s", mode,
                           o.error, old, new)
            else:
                doc_t = lastmods if mode == 'b' else {u: t for u, t in change_t.items()}
                allowed = set(doc_t.values()) | {T0 + c[0] for c in h.log}
                ctx.expect(new == old or new in allowed, "remembered %s is no time of the source's "
                           "documents (%s)", new, sorted(allowed))
                if failed:
                    first = min(doc_t[u] for u in failed)
                    ctx.expect(new is None or new <= first,
                               "remembered time %s is later than failed change at %s",
                               new, first)
                elif mode == 'b':
                    if loaded:
                        ctx.expect(new in (max(lastmods[u] for u in loaded), max(lastmods.values())),
                                   "remembered %s after downloading changes of %s", new,
                                   sorted(lastmods[u] for u in loaded))
                elif o.status and len(o.status) > 1:
                    ctx.expect(new == T0 + h.log[-1][0], "remembered %s, latest change %s", new,
                               T0 + h.log[-1][0])
            # recovery
            w.web.fault = None
            o2 = w.incremental(delete=True)
            if new is None:
                ctx.expect(o2.error == 'fatal', "incremental without remembered time did not stop")
                return
            ok(o2)
            stray_left = case['stray'] and (o.error or mode not in ('b',))
            now = {k: f[1] for k, f in files_of(snapshot('dst')).items()
                   if not (k == 'stray' and stray_left)}
            exp = {rel: vdata(rel, v) for rel, (v, t) in h.src.items()}
            ctx.sample({'case': case, 'failed': failed, 'remembered': new})
            if o.error == 'fatal' and mode == 'b' and 'no resources' in o.message and old is None:
                return
            ctx.expect(now == exp, "after recovery: destination %s, source %s (failed %s, remembered "
                       "%s)", now, exp, sorted(failed), new)
        ctx.explore(go)


class C08(Check):
    id = 'C08'
    rule = ('one case = set of resources x tries x mode x ignoring; every sequence of answers to every '
            'request is explored; trivial if no fault was delivered')
    FULL = [None, 'timeout', 'url-timeout', ['read-timeout', 0], ['read-timeout', 3], 'refused', '404',
            '500', ['reset', 2], ['short', 2], ['incomplete', 2], ['short', 0]]
    SOME = [None, 'timeout', ['read-timeout', 3], '404', ['short', 2]]
    TINY = [None, 'url-timeout', ['reset', 2]]
    BIG = [None, ['read-timeout', 65536], ['read-timeout', 70000], ['read-timeout', 149999],
           ['reset', 70000], ['short', 70000]]

    def cases(self, tier):
        th = tier == 'thorough'
        for mode in ('b', 'i'):
            for ign in (0, 1):
                for info in ('length', 'md5'):
                    for tries in (1, 2, 3):
                        for kinds in (['c'], ['u']):
                            yield {'mode': mode, 'ign': ign, 'tries': tries, 'kinds': kinds,
                                   'alpha': 'FULL', 'info': info}
                        two = 'FULL' if th and tries < 3 else 'SOME'
                        for kinds in (['c', 'u'], ['c', 'c'], ['u', 'c']):
                            if tries < 3 or th:
                                yield {'mode': mode, 'ign': ign, 'tries': tries, 'kinds': kinds,
                                       'alpha': two, 'info': info}
                        if tries < 3 or th:
                            yield {'mode': mode, 'ign': ign, 'tries': tries, 'kinds': ['c', 'u', 'c'],
                                   'alpha': 'TINY', 'info': info}
                    yield {'mode': mode, 'ign': ign, 'tries': 2, 'kinds': ['u'], 'alpha': 'BIG',
                           'info': info, 'big': 1}
                    # many tries, all but the last in vain
                    for tries in (4, 5, 10, 11, 33, 70, 300):
                        yield {'mode': mode, 'ign': ign, 'tries': tries, 'kinds': ['c', 'u'], 'info': info,
                               'vain': 1}
                    # many resources, many of which fail
                    for n in (12, 70, 300):
                        if ign:
                            yield {'mode': mode, 'ign': ign, 'tries': 2, 'kinds': ['c', 'u'] * (n // 2), 'info': info,
                                   'vain': 1, 'alpha': 'MANY'}

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        rels = (['r0', 'd/r1', 'r2'] + ['d%d/r%04d' % (i % 5, i) for i in range(3, len(case['kinds']))])[:len(case['kinds'])]
        alpha = getattr(self, case.get('alpha', 'FULL'), None)
        data = {rel: (b'%d' % i + b'abcde') * (25000 if case.get('big') else 1)
                for i, rel in enumerate(rels)}
        md5 = {rel: hashlib.md5(d).hexdigest() for rel, d in data.items()}

        def go():
            w = World(ctx)
            ents, hashes = [], None
            for i, (rel, k) in enumerate(zip(rels, case['kinds'])):
                if k == 'u':
                    put('dst/' + rel, b'old', T0 - 500)
                w.web.docs[BASE + '/' + rel] = data[rel]
                e = {'loc': BASE + '/' + rel, 'lastmod': T0 + i}
                if case['info'] == 'length':
                    e['length'] = len(data[rel])
                else:
                    e['hash'] = 'md5:' + md5[rel]
                    hashes = ['md5']
                ents.append(e)
            w.web.docs[SITE] = xml_doc('resourcelist', ents)
            w.web.docs[CL] = xml_doc('changelist', [
                dict(e, datetime=T0 + i, change={'c': 'created', 'u': 'updated'}[k])
                for i, (e, k) in enumerate(zip(ents, case['kinds']))])
            uris = {BASE + '/' + rel: rel for rel in rels}
            log = []
            if case.get('vain'):
                vain = ctx.pick('vain', [1, case['tries'] - 1, case['tries'], 10**6])
                bad = ctx.pick('bad', ['timeout', 'url-timeout', ['read-timeout', 3]])
                which = ctx.pick('which', [0, 1, -1] if len(rels) < 5 else ['all', 'even', 'late', 0, -1])

            def fault(uri, r):
                if uri in uris and case.get('vain'):
                    i = rels.index(uris[uri])
                    hit = {'all': True, 'even': i % 2 == 0, 'late': i > len(rels) // 2}.get(which, None)
                    hit = i == which % len(rels) if hit is None else hit
                    f = bad if hit and len([1 for r2, _ in log if r2 == uris[uri]]) < vain else None
                    log.append((uris[uri], f))
                    return tuple(f) if isinstance(f, list) else f
                if uri in uris:
                    f = ctx.pick(uri, alpha)
                    log.append((uris[uri], f))
                    return tuple(f) if isinstance(f, list) else f
            w.web.fault = fault
            kw = {'ignore_failures': bool(case['ign']), 'tries': case['tries'], 'hashes': hashes}
            if case['mode'] == 'b':
                o = w.baseline(delete=True, **kw)
            else:
                o = w.incremental(delete=True, from_datetime=iso(T0 - 5), **kw)
            w.web.fault = None
            if not any(f for _, f in log):
                ctx.trivial()
            ctx.state([case, log, o.error])

            def timed(f):
                return f in ('timeout', 'url-timeout') or isinstance(f, list) and f[0] == 'read-timeout'
            # each resource: attempts, in one go
            order = [rel for i, (rel, _) in enumerate(log) if i == 0 or log[i - 1][0] != rel]
            ctx.expect(len(order) == len(set(order)), "requests interleaved: %s", log)
            result = {}
            stopped = False
            for rel in order:
                fs = [f for r, f in log if r == rel]
                ctx.expect(not stopped, "went on after a fatal failure: %s", log)
                for f in fs[:-1]:
                    ctx.expect(timed(f), "%s requested again after %s", rel, f)
                ctx.expect(len(fs) <= case['tries'], "%s requested %d times, tries is %d", rel,
                           len(fs), case['tries'])
                last = fs[-1]
                if timed(last):
                    ctx.expect(len(fs) == case['tries'], "gave up on %s after %d timeouts, tries is %d "
                               "(%s)", rel, len(fs), case['tries'], last)
                result[rel] = last is None or isinstance(last, list) and last[0] == 'short'
                if not result[rel] and not case['ign']:
                    stopped = True
            if stopped:
                ctx.expect(o.error == 'fatal', "final failure but run ended %s %s", o.error, o.message)
            else:
                ctx.expect(o.error is None, "run ended %s %s; requests %s", o.error, o.message, log)
                ctx.expect(set(result) == set(rels), "not processed: %s", set(rels) - set(result))
                kinds = dict(zip(rels, case['kinds']))
                want = {'created': sum(1 for r in rels if result[r] and kinds[r] == 'c'),
                        'updated': sum(1 for r in rels if result[r] and kinds[r] == 'u')}
                ctx.expect(o.status, "no status")
                got = o.status[-1][1]
                for k in want:
                    ctx.expect(got.get(k) == want[k], "reports %s=%s, true %d (%s)", k, got.get(k),
                               want[k], o.status[-1][2])
            good = 0
            for rel in rels:
                p = 'dst/' + rel
                if os.path.exists(p):
                    good += get(p) == data[rel]
                if result.get(rel) and [f for r, f in log if r == rel][-1] is None:
                    ctx.expect(os.path.exists(p) and get(p) == data[rel],
                               "%s downloaded but content is wrong after %s", rel, log)
            a = w.baseline(audit=True, hashes=hashes)
            ok(a)
            ctx.expect(a.status[0][1]['same'] <= good, "audit accepts %s files as same, only %d are: %s",
                       a.status[0][1]['same'], good, log)
            ctx.sample({'case': case, 'answers': log, 'ended': o.error})
        ctx.explore(go, stop_after=5)


# --- finding the list --------------------------------------------------------------------------------

class C11(Check):
    id = 'C11'
    rule = 'one case = base kind x explicit option x states of the two descriptions; all states of the list places'
    DESC = ['missing', 'ok', 'okrel', 'broken', 'none', 'several', 'nocl', 'brokencl', 'norl', 'rlmissing',
            'wrongkind', 'clkind']
    LISTS = ['missing', 'ok', 'broken', 'wrongkind']
    BASES = ['http://src.example/res', 'http://src.example', 'http://src.example/a/b', 'local',
             'http://src.example/res/', 'https://src.example/res']

    def cases(self, tier):
        desc = self.DESC
        for base in self.BASES:
            for d1 in desc:
                for d2 in (['missing'] if base in ('local', 'http://src.example') else desc):
                    for ex in (None, 'ok', 'missing', 'broken', 'wrongkind', 'clok', 'clrel', 'clmissing',
                               'clbroken', 'clnorl', 'clrlmissing', 'both'):
                        if ex and tier == 'quick' and (d1 not in ('ok', 'missing', 'several') or
                                                       d2 not in ('ok', 'missing')):
                            continue
                        yield {'base': base, 'd1': d1, 'd2': d2, 'ex': ex}

        for place in self.PLACES:
            for base in self.BASES[:4:2]:
                yield {'unusable': place, 'base': base}
        for ref in self.REFS:
            for local in (False, True):
                if not (local and (':' in ref or '?' in ref or ref[:1] == '/' or '%' in ref)):
                    yield {'ref': ref, 'local': local}

    # relative reference -> where it leads (D directory, U its parent, F the document itself, H the host)
    REFS = {'x.xml': 'D/x.xml', './x.xml': 'D/x.xml', '../x.xml': 'U/x.xml', './../x.xml': 'U/x.xml', '../y/x.xml': 'U/y/x.xml',
            '/x.xml': 'H/x.xml', '/y/../x.xml': 'H/x.xml', '//other.example/x.xml': 'http://other.example/x.xml',
            '?q=1': 'F?q=1', 'l/a:b.xml': 'D/l/a:b.xml', './a:b.xml': 'D/a:b.xml', 'x.xml?u=http://z.example/': 'D/x.xml?u=http://z.example/',
            'x.xml?/../y': 'D/x.xml?/../y', '../../../../x.xml': 'H/x.xml', 'l/./x.xml': 'D/l/x.xml', 'l/m/../x.xml': 'D/l/x.xml',
            'x;p=1.xml': 'D/x;p=1.xml', 'x,y=z.xml': 'D/x,y=z.xml', '%2e%2e/x.xml': 'D/%2e%2e/x.xml', 'x%2Fy.xml': 'D/x%2Fy.xml',
            'http.xml': 'D/http.xml', 'https/x.xml': 'D/https/x.xml', 'l/2020-01-01T00:00:00Z.xml': 'D/l/2020-01-01T00:00:00Z.xml',
            'http://src.example/q.xml': 'H/q.xml', 'https://src.example/q.xml': 'https://src.example/q.xml',
            'http://src.example:8080/q.xml': 'http://src.example:8080/q.xml', '...': 'D/...', '.x/x.xml': 'D/.x/x.xml', '..x.xml': 'D/..x.xml',
            'x.xml/': 'D/x.xml/', '-': 'D/-', '~': 'D/~', '@': 'D/@', '.well-known': 'D/.well-known'}

    def refs(self, ctx, case):
        """One relative reference in a description, a capability list or both."""
        def go():
            w = World(ctx)
            where = ctx.pick('where', ['desc', 'root', 'caps', 'both'])
            other = ctx.pick('base', ['/res', '/r.s/t', '/.well-known/x'])
            H = os.path.join(w.x, 'loc') if case['local'] else 'http://src.example'
            b = H + other
            if where == 'root' and case['local']:
                return

            def to(doc):
                doc = doc.split('?')[0]
                d = doc.rsplit('/', 1)[0]
                u = d.rsplit('/', 1)[0] if d.count('/') > 2 else d
                out = self.REFS[case['ref']]
                for k, v in (('D/', d + '/'), ('U/', u + '/'), ('H/', H + '/'), ('F?', doc + '?')):
                    if out.startswith(k):
                        return v + out[2:]
                return out

            def pub(uri, data):
                if case['local']:
                    put(uri, data)
                else:
                    w.web.docs[uri] = data
            kw = {'mappings': [b + '=dst']}
            start = {'caps': b + '/c/caps.xml', 'root': H + '/.well-known/resourcesync'}.get(where, b + '/.well-known/resourcesync')
            if case['local'] and case['ref'].count('../') > 2:
                return
            if where == 'caps':
                kw['capability_list_uri'] = start
            refs = {'desc': [case['ref'], None], 'root': [case['ref'], None], 'caps': [case['ref']],
                    'both': [case['ref'], case['ref']]}[where]
            seen = set()
            for i, ref in enumerate(refs):
                if start in seen or case['local'] and start.endswith('/'):
                    return      # the reference leads back
                seen.add(start)
                nxt = to(start) if ref else H + '/abs/list.xml'
                if nxt in seen:
                    return
                pub(start, xml_doc('capabilitylist' if i == len(refs) - 1 else 'description', [
                    {'loc': ref or nxt, 'capability': 'resourcelist' if i == len(refs) - 1 else 'capabilitylist'}]))
                start = nxt
            if start in seen or case['local'] and start.endswith('/'):
                return
            pub(start, xml_doc('resourcelist', [{'loc': b + '/found', 'lastmod': T0}]))
            c = w.client(**kw)
            o = w.run(lambda: [r.uri for r in c.find_resource_list()])
            ctx.state([case, where, other])
            ctx.expect(o.error is None and o.value == [b + '/found'], "reference %s in %s (%s): should lead to %s, got %s %s %s",
                       case['ref'], where, b, start, o.value, o.error, o.message)
        ctx.explore(go)

    def setup(self, ctx):
        World.setup()

    PLACES = ['D1', 'D1cl', 'D1rl', 'D2', 'D2cl', 'D2rl', 'L1', 'L2', 'L3', 'EX', 'ECL', 'ECLrl']

    def unusable(self, ctx, case):
        """Every way in which one place cannot be used, all places after it usable."""
        def go():
            w = World(ctx)
            b, host, place = case['base'], '/'.join(case['base'].split('/')[:3]), case['unusable']
            X = 'http://src.example/x/'
            uris = {'L1': b + '/resourcelist.xml', 'L2': b + '/sitemap.xml', 'L3': host + '/sitemap.xml',
                    'EX': X + 'explicit.xml', 'ECL': X + 'caps.xml', 'ECLrl': X + 'list.xml'}
            for d, r in (('D1', b), ('D2', host)):
                uris[d] = r + '/.well-known/resourcesync'
                uris[d + 'cl'] = r + '/.well-known/' + d + 'cl.xml'
                uris[d + 'rl'] = r + '/.well-known/' + d + 'rl.xml'
            good = {}
            for n in self.PLACES:
                if n in ('D1', 'D2'):
                    good[n] = xml_doc('description', [{'loc': uris[n + 'cl'], 'capability': 'capabilitylist'}])
                elif n.endswith('cl') or n == 'ECL':
                    good[n] = xml_doc('capabilitylist', [{'loc': uris[n.replace('cl', 'rl') if n != 'ECL' else 'ECLrl'],
                                                          'capability': 'resourcelist'}])
                else:
                    good[n] = xml_doc('resourcelist', [{'loc': b + '/' + n[:2], 'lastmod': T0}])
            data = good[place]
            rl = 'rl' in place or place[0] == 'L' or place == 'EX'
            bad = {'empty': b'', 'blank': b' \n', 'lt': b'<', 'unclosed': b'<urlset><not closed', 'amp': b'<a & b>',
                   'cross': b'<a></b>', 'html': b'<html><body>x</body></html>', 'text': b'not found',
                   'root': data.replace(b'urlset', b'urlsets'), 'entity': data.replace(b'<loc>', b'<loc>&nbsp;'),
                   'noname': data.replace(b'sitemaps.org', b'sitemaps.com'), 'cut': data[:-5],
                   'dtd': data.replace(b'<urlset', b'<!DOCTYPE x [<!ENTITY e "v">]><urlset'),
                   'utf8': data.replace(b'<loc>', b'<loc>\xff'), 'nul': data.replace(b'<loc>', b'<loc>\0'),
                   'noloc': data.replace(b'<loc>', b'<lox>').replace(b'</loc>', b'</lox>'),
                   'twoloc': data.replace(b'<loc>', b'<loc>http://x.ex/</loc><loc>'),
                   'lastmod': data.replace(b'</loc>', b'</loc><lastmod>yesterday</lastmod>').replace(
                       b'<lastmod>2', b'<lastmax>2') if not rl else
                   data.replace(iso(T0).encode(), b'yesterday'),
                   'encoding': b'<?xml version="1.0" encoding="nope"?>' + data.split(b'?>', 1)[-1],
                   'junk': data + b'junk', 'two': data + data.split(b'?>', 1)[-1],
                   'kind': xml_doc('changelist', [{'loc': b + '/q', 'lastmod': T0, 'change': 'updated'}]),
                   'length': data.replace(b'</loc>', b'</loc><rs:md length="many"/>', 1).replace(
                       b'<rs:md capability="resourcelist"/></url>', b'</url>').replace(
                       b'<rs:md capability="capabilitylist"/></url>', b'</url>')}
            faults = ['404', '403', '401', '410', '500', '503', 'refused', 'timeout', 'url-timeout', ('reset', 0),
                      ('reset', 30), ('incomplete', 30), ('short', 30), ('read-timeout', 0), ('read-timeout', 30)]
            how = ctx.pick('how', sorted(bad) + faults)
            for n in self.PLACES:
                w.web.docs[uris[n]] = good[n]
            order = ['D1', 'D2', 'L1', 'L2', 'L3']
            kw = {'mappings': [b + '=dst']}
            if place[0] == 'E':
                kw['sitemap_name' if place == 'EX' else 'capability_list_uri'] = uris[place[:3]]
                exp = None
            else:
                k = order.index(place[:2])
                for n in order[:k]:
                    del w.web.docs[uris[n]]
                exp = order[k + 1] if k < 4 else None
            if isinstance(how, str) and how in bad:
                w.web.docs[uris[place]] = bad[how]
            else:
                w.web.fault = lambda uri, r: how if uri == uris[place] else None
            c = w.client(**kw)
            o = w.run(lambda: [r.uri for r in c.find_resource_list()])
            ctx.state([case, how])
            if exp is None:
                ctx.expect(o.error in ('fatal', 'ClientError'), "%s cannot be used (%s): %s %s %s", place, how, o.error,
                           o.message, o.value)
            else:
                ctx.expect(o.error is None, "%s cannot be used (%s), should use %s: %s %s", place, how, exp, o.error,
                           o.message)
                ctx.expect(o.value == [b + '/' + exp], "%s cannot be used (%s), should use %s, used %s", place, how, exp,
                           o.value)
        ctx.explore(go)

    def run(self, ctx, case):
        if 'unusable' in case:
            return self.unusable(ctx, case)
        if 'ref' in case:
            return self.refs(ctx, case)

        def go():
            w = World(ctx)
            base = case['base']
            local = base == 'local'
            if local:
                base = os.path.join(w.x, 'src')
                host = None
            else:
                p = base.split('/')
                host = '/'.join(p[:3])
            b = base.rstrip('/')

            def pub(uri, data):
                if local:
                    put(uri, data)
                else:
                    w.web.docs[uri] = data

            def marker(name, uri, state):
                if state == 'ok':
                    pub(uri, xml_doc('resourcelist', [{'loc': b + '/' + name, 'lastmod': T0}]))
                elif state == 'broken':
                    pub(uri, b'<urlset><not closed')
                elif state == 'wrongkind':
                    pub(uri, xml_doc('changelist', [{'loc': b + '/' + name, 'lastmod': T0,
                                                     'change': 'updated'}]))

            def capl(name, uri, state, rel=False):
                """A capability list at uri in some state; the outcome when it is used."""
                d = uri.rsplit('/', 1)[0]
                rl = d + '/sub/' + name + '-rl.xml'
                ref = 'sub/' + name + '-rl.xml' if rel else rl
                if state == 'missing':
                    return 'next'
                if state == 'broken':
                    pub(uri, b'<urlset')
                    return 'next'
                if state == 'wrongkind':
                    pub(uri, xml_doc('resourcelist', [{'loc': ref, 'capability': 'resourcelist'}]))
                    return 'next'
                if state == 'norl':
                    pub(uri, xml_doc('capabilitylist', [{'loc': ref, 'capability': 'changelist'}]))
                    marker(name, rl, 'ok')
                    return 'stop'
                pub(uri, xml_doc('capabilitylist', [
                    {'loc': d + '/cl.xml', 'capability': 'changelist'},
                    {'loc': ref, 'capability': 'resourcelist'}]))
                marker(name, rl, 'missing' if state == 'rlmissing' else 'ok')
                return 'next' if state == 'rlmissing' else name

            def desc(name, uri, state):
                d = uri.rsplit('/', 1)[0]
                cl = d + '/caps/' + name + '.xml'
                ref = 'caps/' + name + '.xml' if state == 'okrel' else cl
                if state == 'missing':
                    return 'next'
                if state == 'broken':
                    pub(uri, b'<urlset')
                    return 'next'
                if state == 'wrongkind':
                    pub(uri, xml_doc('capabilitylist', [{'loc': ref, 'capability': 'resourcelist'}]))
                    capl(name, cl, 'ok')
                    return 'next'
                n = {'none': 0, 'several': 2}.get(state, 1)
                pub(uri, xml_doc('description', [
                    {'loc': ref if i == 0 else cl + str(i), 'capability': 'capabilitylist'}
                    for i in range(n)]))
                res = capl(name, cl, {'nocl': 'missing', 'brokencl': 'broken', 'norl': 'norl',
                                      'rlmissing': 'rlmissing', 'clkind': 'wrongkind'}.get(state, 'ok'),
                           rel=state == 'okrel')
                return res if n == 1 else 'stop'

            order = []
            order.append(desc('D1', b + '/.well-known/resourcesync', case['d1']))
            if host and host != b:
                order.append(desc('D2', host + '/.well-known/resourcesync', case['d2']))
            places = [('L1', b + '/resourcelist.xml'), ('L2', b + '/sitemap.xml')]
            if host and host != b:
                places.append(('L3', host + '/sitemap.xml'))
            for name, uri in places:
                st = ctx.pick(name, self.LISTS) if not case['ex'] else 'ok'
                marker(name, uri, st)
                order.append(name if st == 'ok' else 'next')
            kw = {}
            ex = case['ex']
            exuri = b + '/x/explicit.xml' if local else 'http://src.example/x/explicit.xml'
            if ex in ('ok', 'missing', 'broken', 'wrongkind', 'both'):
                kw['sitemap_name'] = exuri
                marker('EX', exuri, 'ok' if ex == 'both' else ex)
                order = ['EX' if ex in ('ok', 'both') else 'stop']
            if ex in ('clok', 'clrel', 'clmissing', 'clbroken', 'clnorl', 'clrlmissing', 'both'):
                cu = b + '/y/caps.xml' if local else 'http://src.example/y/caps.xml'
                kw['capability_list_uri'] = cu
                r = capl('CL', cu, {'clrel': 'ok', 'both': 'ok'}.get(ex, ex[2:]), rel=ex == 'clrel')
                if ex != 'both':
                    order = ['stop' if r == 'next' else r]
            exp = 'stop'
            for x in order:
                if x != 'next':
                    exp = x
                    break
            kw['mappings'] = [base + '=dst']
            c = w.client(**kw)
            o = w.run(lambda: [r.uri for r in c.find_resource_list()])
            ctx.state([case, order])
            ctx.sample({'case': case, 'order': order, 'used': exp})
            if exp == 'stop':
                ctx.trivial() if not [x for x in order if x != 'next'] else None
                ctx.expect(o.error is not None, "should stop, but used %s", o.value)
                ctx.expect(o.error in ('fatal', 'ClientError'), "error %s %s", o.error, o.message)
            else:
                ctx.expect(o.error is None, "should use %s, got %s %s", exp, o.error, o.message)
                ctx.expect(o.value == [b + '/' + exp], "should use %s, used %s", exp, o.value)
                if not local:
                    # explicit choices are the only thing looked at
                    if ex:
                        for r in o.requests:
                            ctx.expect('/x/' in r.uri or '/y/' in r.uri,
                                       "looked at %s although the list is explicit", r.uri)
        ctx.explore(go)


# --- digests ----------------------------------------------------------------------------------------

class C12(Check):
    id = 'C12'
    rule = ('one case = requested digest types x supplied types of two resources x which files differ; '
            'audit, baseline and incremental')
    TYPES = ['md5', 'sha-1', 'sha-256']

    def cases(self, tier):
        subs = [[t for i, t in enumerate(self.TYPES) if m >> i & 1] for m in range(8)]
        for req in subs:
            for s1 in subs:
                for s2 in subs:
                    for d in range(4):
                        for wrong in (0, 1):
                            if wrong and not (s1 and tier == 'thorough'):
                                continue
                            yield {'req': req, 'sup': [s1, s2], 'diff': [d & 1, d >> 1], 'wrong': wrong}
        # sizes around and far above the size of any block, the difference anywhere
        for size in SIZES + ([2 ** 26 + 1] if tier == 'thorough' else []):
            for s in subs[1:] if size < 200000 else [subs[1], subs[2], subs[4], subs[7]]:
                for d in range(3):
                    yield {'req': s, 'sup': [s, s], 'diff': [d & 1, d >> 1], 'wrong': 0, 'size': size}

    def setup(self, ctx):
        World.setup()

    def digest(self, types, data):
        h = {'md5': hashlib.md5, 'sha-1': hashlib.sha1, 'sha-256': hashlib.sha256}
        return ' '.join('%s:%s' % (t, h[t](data).hexdigest()) for t in types) or None

    def run(self, ctx, case):
        rels = ['a', 'd/b']

        def go():
            how = ctx.pick('how', ['audit', 'baseline', 'incremental', 'dry'] if 'size' not in case else
                           ['audit', 'baseline'])
            full = ctx.choose('lengths given', 2) if 'size' not in case else 1
            size = case['size'] if 'size' in case else ctx.pick('size', [5, 70001] if not ctx.thorough else [5, 16384, 16385, 32769, 70001])
            w = World(ctx)
            data = {rel: b'x' * (size - 5) + b'data%d' % i for i, rel in enumerate(rels)}
            ents = []
            detect = set()
            differ = set()
            for rel, sup, d in zip(rels, case['sup'], case['diff']):
                here = data[rel]
                if d:
                    here = b'x' * (size - 5) + b'DATA!'
                    if 'size' in case:
                        at = ctx.pick('at', [0, size // 2, size - 1])
                        here = data[rel][:at] + b'!' + data[rel][at + 1:]
                put('dst/' + rel, here, T0)
                w.web.docs[BASE + '/' + rel] = data[rel]
                e = {'loc': BASE + '/' + rel, 'lastmod': T0, 'hash': self.digest(sup, data[rel])}
                if full:
                    e['length'] = size
                if case['wrong'] and rel == 'a':
                    # only the last supplied digest tells the difference
                    hs = self.digest(sup[:-1], here), self.digest(sup[-1:], b'else')
                    e['hash'] = ' '.join(x for x in hs if x)
                    if sup[-1] in case['req'] or d and False:
                        detect.add(rel)
                elif d and set(sup) & set(case['req']):
                    detect.add(rel)
                if d:
                    differ.add(rel)
                ents.append(e)
            # keep the source non trivial for incremental
            w.web.docs[SITE] = xml_doc('resourcelist', ents)
            w.web.docs[CL] = xml_doc('changelist', [
                dict(e, datetime=T0, change='updated') for e in ents])
            before = files_of(snapshot('dst'))
            kw = {'hashes': case['req'] or None}
            if how in ('audit', 'baseline', 'dry'):
                o = w.baseline(delete=True, audit=how == 'audit', dryrun=how == 'dry', **kw)
            else:
                o = w.incremental(delete=True, from_datetime=iso(T0 - 5), **kw)
            ok(o)
            after = files_of(snapshot('dst'))
            ctx.state([case, how, full, size])
            if not case['req'] or not detect:
                ctx.trivial()
            gets = {r.uri[len(BASE) + 1:] for r in o.requests} & set(rels)
            ctx.sample({'case': case, 'how': how, 'detect': sorted(detect), 'gets': sorted(gets)})
            if how in ('audit', 'baseline', 'dry'):
                ctx.expect(o.status[0][1].get('updated') == len(detect) and
                           o.status[0][1].get('same') == 2 - len(detect),
                           "requested %s supplied %s: %s should be found different, status %s",
                           case['req'], case['sup'], sorted(detect), o.status[0][2])
            if how == 'baseline':
                ctx.expect(gets == detect, "downloaded %s, different are %s", sorted(gets), sorted(detect))
                for rel in rels:
                    if rel in detect:
                        ctx.expect(after[rel][1] == data[rel], "%s not replaced", rel)
                    else:
                        ctx.expect(after[rel] == before[rel], "%s changed", rel)
            elif how == 'incremental':
                for rel in rels:
                    ctx.expect(after[rel][1] == data[rel], "%s not updated", rel)
            else:
                ctx.expect(after == before and not gets, "%s changed files", how)
        ctx.explore(go)


# --- one client object used again --------------------------------------------------------------------

class R01(Check):
    id = 'R01'
    rule = ('one case = settings x first step; inside, every further sequence of steps (operation x what the '
            'source offers) with one client object, each step compared with a new client object from the '
            'same files')
    OPS = ['audit', 'bd', 'b', 'dry', 'i', 'from', 'write', 'dryi']
    FEW_OPS = ['audit', 'bd', 'i']
    VERSIONS = ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'T', 'H', 'I']
    FEW = ['A', 'C', 'D', 'F', 'T']

    def cases(self, tier):
        th = tier == 'thorough'
        for hashes in (None, ['md5'], ['md5', 'sha-1']):
            for ign in (0, 1):
                s = {'hashes': hashes, 'ign': ign}
                for op in self.OPS:
                    for v in self.VERSIONS:
                        yield dict(s, first=[op, v], n=2, ops='OPS', vs='VERSIONS')
                for op in self.OPS if th else self.FEW_OPS:
                    for v in self.VERSIONS if th else self.FEW:
                        if hashes != ['md5'] or th:
                            yield dict(s, first=[op, v], n=3, ops='FEW_OPS', vs='FEW')
                            if th and hashes == ['md5', 'sha-1'] and not ign:
                                yield dict(s, first=[op, v], n=3, ops='OPS', vs='VERSIONS')
                                yield dict(s, first=[op, v], n=4, ops='TWO_OPS', vs='TWO')
    TWO_OPS = ['bd', 'i']
    TWO = ['C', 'D', 'F']

    def setup(self, ctx):
        World.setup()

    @staticmethod
    def offer(w, v):
        """Make the source offer version v; nothing of the versions before."""
        web = w.web
        web.docs.clear()
        web.fault = None

        def res(rel, data, t, digest=None, change='updated', at=None, served=True):
            e = {'loc': BASE + '/' + rel, 'lastmod': t, 'length': len(data)}
            if digest:
                e['hash'] = '%s:%s' % (digest, hashlib.new(digest.replace('-', ''), data).hexdigest())
            if served:
                web.docs[e['loc']] = data
            return e, dict(e, change=change, datetime=t if at is None else at)
        if v == 'A':
            l = [res('a', b'aaaaa', T0, change='created')]
        elif v == 'B':
            l = [res('b', b'BBBBB', T0, 'md5', 'created'), res('a', b'bbbbb', T0 + 10, 'md5')]
        elif v == 'C':
            l = [res('b', b'BBBBB', T0, 'md5', 'created'), res('a', b'ccccc', T0 + 10, 'md5')]
        elif v == 'D':
            l = [res('d/e', b'eeeee', T0 + 50, change='created', served=False),
                 res('d/c', b'ddddd', T0 + 100, change='created')]
        elif v == 'E':
            return
        elif v == 'F':
            l = [res('b', b'BBBBB', T0, 'sha-1', at=T0 + 200)]
        elif v == 'G':
            l = [res('b', b'GGGGG', T0 + 300), ({'loc': 'http://evil.example/res/x', 'lastmod': T0 + 300},
                                                {'loc': 'http://evil.example/res/x', 'lastmod': T0 + 300,
                                                 'datetime': T0 + 300, 'change': 'deleted'})]
        elif v in 'HI':
            # found through a source description
            l = [res('a', (v * 6).encode(), T0 + 30 if v == 'H' else T0 + 31, 'md5')]
        elif v == 'T':
            l = [res('a', b'ttttt', T0 + 20, 'md5')]
            seen = []

            def fault(uri, r):
                if uri == BASE + '/a':
                    seen.append(uri)
                    return ('read-timeout', 2) if len(seen) % 2 else None
            web.fault = fault
        changes = [c for _, c in l]
        if v == 'F':
            changes.append({'loc': BASE + '/a', 'change': 'deleted', 'datetime': T0 + 200})
        where = '/resourcelist.xml'
        if v in 'HI':
            where = '/list%s.xml' % v
            caps = BASE + '/caps%s.xml' % v
            web.docs['http://src.example/.well-known/resourcesync'] = xml_doc(
                'description', [{'loc': caps, 'capability': 'capabilitylist'}])
            web.docs[caps] = xml_doc('capabilitylist', [{'loc': BASE + where, 'capability': 'resourcelist'}])
        web.docs[BASE + where] = xml_doc('resourcelist', [e for e, _ in l])
        web.docs[BASE + '/changelist.xml'] = xml_doc('changelist', changes)

    def do(self, w, c, op, v):
        self.offer(w, v)
        c.dryrun = op in ('dry', 'dryi')
        if op in ('i', 'from', 'dryi'):
            o = w.run(lambda: c.incremental(allow_deletion=True,
                                            from_datetime=iso(T0 + 60) if op == 'from' else None))
        elif op == 'write':
            o = w.run(lambda: c.write_resource_list(outfile='out.xml'))
        else:
            o = w.run(lambda: c.baseline_or_audit(allow_deletion=op != 'b', audit_only=op == 'audit'))
        files = {}
        for k, f in snapshot('.').items():
            if k == 'out.xml':
                f = (f[0], re.sub(rb'(at|completed)="[^"]*"', b'', f[1]), 0)
            files[k] = (f[0], f[1], f[2] if f[2] < (T0 + 10**6) * 10**9 and k != STATE else 0)
        return {'files': files, 'error': o.error, 'message': o.message,
                'messages': [m for lv, m in o.lines if lv not in ('DEBUG', 'INFO')],
                'requests': [(r.method, r.uri, sorted(r.headers.items())) for r in o.requests],
                'status': [s[2] for s in o.status]}

    @staticmethod
    def restore(snap):
        wipe('.')
        for k, (kind, data, ns) in snap.items():
            if kind == 'd':
                os.makedirs(k, exist_ok=True)
            else:
                put(k, data)
                os.utime(k, ns=(ns, ns))

    def run(self, ctx, case):
        def go():
            w = World(ctx)
            kw = {'hashes': case['hashes'], 'ignore_failures': bool(case['ign']), 'tries': 2}
            put('dst/a', b'local', T0 - 500)
            put('dst/keep', b'local', T0 - 500)
            shared = w.client(**kw)
            done = []
            for i in range(case['n']):
                if i == 0:
                    op, v = case['first']
                else:
                    op = ctx.pick('op', getattr(self, case['ops']))
                    v = ctx.pick('version', getattr(self, case['vs']))
                done.append(op + v)
                last = i == case['n'] - 1
                if last:
                    before = snapshot('.')
                    fresh = self.do(w, w.client(**kw), op, v)
                    self.restore(before)
                got = self.do(w, shared, op, v)
                ctx.state(got)
                if last:
                    for k in fresh:
                        ctx.expect(got[k] == fresh[k], "after %s, %s with the same client object has other %s "
                                   "than with a new one: %s, new: %s", done[:-1], done[-1], k,
                                   diff(fresh['files'], got['files']) if k == 'files' else got[k],
                                   '' if k == 'files' else fresh[k])
            ctx.sample({'case': case, 'steps': done})
        ctx.explore(go, stop_after=3)


# --- lists in several files --------------------------------------------------------------------------

class N01(Check):
    id = 'N01'
    rule = ('one case = kind of run x place of the index x options x state of the first file; inside, every '
            'combination of states of the other files of the list')
    STATES = ['ok', '404', 'malformed', 'index', 'wrongkind', 'nocap', 'empty', 'dupe', 'again', 'refused',
              'url-timeout', ['read-timeout', 150], ['reset', 150], ['short', 150], ['incomplete', 150],
              '500', '410', '403', 'html', 'blank']
    FEW = ['ok', '404', '410', 'malformed', 'index', 'wrongkind', 'empty', 'dupe', 'again', 'foreign', ['short', 150],
           ['read-timeout', 150]]
    HOME = [s for s in FEW if s != 'foreign']
    LOCAL = ['ok', '404', 'malformed', 'index', 'wrongkind', 'nocap', 'empty', 'dupe', 'again', 'blank']
    INDEX = ['ok', '404', 'malformed', ['short', 250], ['reset', 250], 'nocap', 'wrongkind']

    def cases(self, tier):
        for op in ('audit', 'bd', 'b', 'dry', 'i', 'ref'):
            for place in ('explicit', 'default', 'local'):
                if place == 'local' and op == 'i':
                    continue
                for multi in (1, 0):
                    for s in (self.LOCAL if place == 'local' else self.STATES) if multi else ['ok', '404']:
                        yield {'op': op, 'place': place, 'multi': multi, 'first': s,
                               'n': 3 if multi else 2, 'alpha': 'LOCAL' if place == 'local' else
                               'STATES' if tier == 'thorough' else 'FEW'}
                if place != 'local':
                    for ix in self.INDEX[1:]:
                        yield {'op': op, 'place': place, 'multi': 1, 'first': 'ok', 'n': 2, 'alpha': 'FEW',
                               'index': ix}
                for n in (0, 1):
                    yield {'op': op, 'place': place, 'multi': 1, 'first': 'ok', 'n': n, 'alpha': 'FEW'}
            # index and files at other schemes
            for si, sp in (('https', 'http'), ('http', 'https'), ('https', 'https')):
                for s in self.HOME:
                    yield {'op': op, 'place': 'explicit', 'multi': 1, 'first': s, 'n': 2, 'alpha': 'HOME',
                           'schemes': (si, sp)}
        # many files, with something about one of them
        for op in ('bd', 'audit', 'i'):
            for n in (12, 40, 70, 130, 300) + ((1100,) if tier == 'thorough' else ()):
                for s in ('ok', '404', 'malformed', 'index', 'wrongkind', 'foreign', ['short', 150]):
                    yield {'op': op, 'many': n, 'state': s}
        # a local copy of an index that names the files by their public URIs
        for sp in ('http', 'https'):
            for s in self.LOCAL:
                yield {'op': 'ref', 'place': 'mapped', 'multi': 1, 'first': s, 'n': 3, 'alpha': 'LOCAL',
                       'schemes': ('', sp)}

    def setup(self, ctx):
        World.setup()

    def many(self, ctx, case):
        n, state, op = case['many'], case['state'], case['op']

        def go():
            at = ctx.pick('at', [0, 1, n // 2, n - 1])
            w = World(ctx)
            cap = 'changelist' if op == 'i' else 'resourcelist'
            where = CL if op == 'i' else SITE
            us = [BASE + '/part%d.xml' % i for i in range(n)]
            w.web.docs[where] = xml_doc(cap, [{'loc': u, 'lastmod': T0} for u in us], index=True)
            exp = {}
            for i, u in enumerate(us):
                d = b'%d' % i
                e = {'loc': BASE + '/a%d' % i, 'lastmod': T0 + i, 'length': len(d)}
                if op == 'i':
                    e.update(change='created', datetime=T0 + i)
                w.web.docs[e['loc']] = d
                exp['a%d' % i] = d
                if i == at and state == 'foreign':
                    e['loc'] = 'http://evil.example/res/x'
                doc = xml_doc(cap if i != at or state != 'wrongkind' else 'capabilitylist', [e],
                              index=i == at and state == 'index')
                if i == at and state == 'malformed':
                    doc = doc[:-5]
                if i != at or state != '404':
                    w.web.docs[u] = doc
            w.web.fault = lambda uri, r: tuple(state) if isinstance(state, list) and uri == us[at] else None
            put('dst/stray', b'x', T0 - 10)
            before = snapshot('.')
            o = w.incremental(delete=True, from_datetime=iso(T0 - 1)) if op == 'i' else \
                w.baseline(delete=True, audit=op == 'audit')
            after = snapshot('.')
            ctx.state([case, at, o.error])
            if state == 'ok' or state == 'foreign' and op == 'audit':
                ok(o)
                if op == 'audit':
                    check_counts(o.status, ((), (), ['stray'], us))
                    ctx.expect(after == before, "audit changed %s", diff(before, after))
                    return
                if op == 'i':
                    exp['stray'] = b'x'
                now = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
                ctx.expect(now == exp, "list of %d files: %d resources, %d expected; differing %s", n, len(now),
                           len(exp), [k for k in set(now) | set(exp) if now.get(k) != exp.get(k)][:3])
            else:
                ctx.expect(o.error is not None, "run completed although file %d of %d was %s: %s", at, n, state,
                           [s[2] for s in o.status])
                ctx.expect(before == after, "refused list but changed: %s", diff(before, after))
        ctx.explore(go)

    def run(self, ctx, case):
        if 'many' in case:
            return self.many(ctx, case)
        op, place = case['op'], case['place']
        cap = 'changelist' if op == 'i' else 'resourcelist'
        local = place == 'local'

        def entry(rel, data, t, change=None, at=None):
            e = {'loc': base + '/' + rel, 'lastmod': t, 'length': len(data)}
            if change:
                e.update(change=change, datetime=at)
                if change == 'deleted':
                    e = {'loc': e['loc'], 'change': change, 'datetime': at}
            return e
        base = BASE

        def go():
            nonlocal base
            w = World(ctx)
            base = os.path.join(w.x, 'src') if local else BASE
            data = {'a': b'AAAAA', 'd/b': b'BBBBB', 'c': b'CCCCC', 'd/e': b'EEEEE'}
            if op == 'i':
                parts = [[entry('a', data['a'], T0 + 10, 'created', T0 + 10)],
                         [entry('d/b', data['d/b'], T0 + 11, 'updated', T0 + 11),
                          entry('a', data['a'], T0 + 12, 'updated', T0 + 12)],
                         [entry('d/e', data['d/e'], T0 + 13, 'deleted', T0 + 13)]]
            else:
                parts = [[entry('a', data['a'], T0)],
                         [entry('d/b', data['d/b'], T0 + 1), entry('c', data['c'], T0 + 2)],
                         [entry('d/e', data['d/e'], T0 + 3)]]
            parts = parts[:case['n']]
            put('dst/a', b'AAAAA', T0)
            put('dst/d/b', b'old', T0 - 100)
            put('dst/d/e', b'EEEEE', T0 + 3)
            put('dst/stray', b'stray', T0 - 100)
            name = 'resourcelist.xml' if op != 'i' else 'changelist.xml'
            where = base + '/' + name if place == 'default' or local else 'http://src.example/lists/x.xml'
            si, sp = case.get('schemes', ('http', 'http'))
            where = where.replace('http:', si + ':')
            mapped = place == 'mapped'
            if mapped:
                where = os.path.join(w.x, 'lists/x.xml')
            comps, faults, states = [], {}, []
            store = {}
            for i, ents in enumerate(parts):
                s = case['first'] if i == 0 else ctx.pick('part%d' % i, getattr(self, case['alpha']))
                states.append(s)
                # (not in the order of their names)
                u = base + '/part%s.xml' % 'nzb'[i] if local else sp + '://src.example/lists/part%s.xml' % 'nzb'[i]
                if s == 'again' and i > 0:
                    comps.append(comps[i - 1])
                    parts[i] = parts[i - 1]
                    continue
                comps.append(u)
                good = xml_doc(cap, ents)
                if s == 'malformed':
                    good = good.replace(b'</urlset>', b'</urlse>')
                elif s == 'html':
                    good = b'<html><body><p>Moved.</p></body></html>'
                elif s == 'blank':
                    good = b''
                elif s == 'index':
                    good = xml_doc(cap, [{'loc': u + '2'}], index=True)
                    store[u + '2'] = xml_doc(cap, ents)
                elif s == 'wrongkind':
                    good = xml_doc('resourcedump' if cap == 'changelist' else 'changelist', ents)
                elif s == 'nocap':
                    good = xml_doc(None, ents)
                elif s == 'empty':
                    ents = parts[i] = []
                    good = xml_doc(cap, ents)
                elif s == 'dupe':
                    j = (i + 1) % len(parts)
                    ents = parts[i] = ents + ([] if i == j else [dict(parts[j][0])] if parts[j] else [])
                    good = xml_doc(cap, ents)
                elif s == 'foreign':
                    ents = parts[i] = ents + [dict(ents[0], loc='http://evil.example/res/x')]
                    good = xml_doc(cap, ents)
                elif s not in ('ok', '404'):
                    faults[u] = tuple(s) if isinstance(s, list) else s
                if s != '404':
                    store[u] = good
            ix = xml_doc(cap, [{'loc': u} for u in comps], index=True)
            index = case.get('index', 'ok')
            if index == 'malformed':
                ix = ix.replace(b'</sitemapindex>', b'')
            elif index == 'nocap':
                ix = xml_doc(None, [{'loc': u} for u in comps], index=True)
            elif index == 'wrongkind':
                ix = xml_doc('resourcedump', [{'loc': u} for u in comps], index=True)
            elif isinstance(index, list):
                faults[where] = tuple(index)
            if index != '404':
                store[where] = ix
            for u, d in store.items():
                if local or u == where and mapped:
                    put(u, d)
                elif mapped:
                    put('lists/' + u.rsplit('/', 1)[1], d)
                else:
                    w.web.docs[u] = d
            for rel, d in data.items():
                if local:
                    put(base + '/' + rel, d)
                else:
                    w.web.docs[base + '/' + rel] = d
            w.web.fault = lambda uri, r: faults.get(uri)
            all_ents = [e for p in parts for e in p]
            locs = [e['loc'] for e in all_ents]
            kw = {'allow_multifile': bool(case['multi']), 'mappings': [base + '=dst']}
            if op != 'i' and (place == 'explicit'):
                kw['sitemap_name'] = where
            if 'schemes' in case:
                kw['noauth'] = True
            if mapped:
                kw['mappings'].append(sp + '://src.example/lists=lists')
            bad = [s for s in states if s not in ('ok', 'again', 'nocap', 'empty', 'dupe', 'foreign')]
            if 'nocap' in states and cap == 'changelist':
                bad.append('nocap')
            if index not in ('ok', 'nocap') or index == 'nocap' and cap == 'changelist':
                bad.append('index')
            if cap == 'resourcelist' and len(set(locs)) < len(locs):
                bad.append('dupe')
            if not case['multi']:
                bad.append('multifile')
            if 'foreign' in states and op not in ('ref', 'audit'):
                bad.append('foreign')
            if not all_ents and cap == 'resourcelist' and op != 'ref':
                bad.append('nothing')
            before = snapshot('.')
            if op == 'i':
                o = w.incremental(delete=True, change_list_uri=where if place == 'explicit' else None,
                                  from_datetime=iso(T0 + 5), **kw)
            elif op == 'ref':
                c = w.client(**kw)
                o = w.run(lambda: c.write_change_list(ref_sitemap=where, outfile='cl.xml',
                                                      paths='dst' if mapped else None))
            else:
                o = w.baseline(delete=op != 'b', audit=op == 'audit', dryrun=op == 'dry', **kw)
            after = snapshot('.')
            ctx.state([case, states, after == before, o.error])
            w.web.fault = None
            if bad:
                ctx.expect(o.error is not None, "run completed although %s (%s): %s", bad, states,
                           [s[2] for s in o.status])
                ctx.expect(before == after, "refused list (%s) but changed: %s", bad, diff(before, after))
                got = [r.uri for r in o.requests if r.uri.startswith(BASE + '/') and
                       r.uri[len(BASE) + 1:] in data]
                ctx.expect(not got, "refused list (%s) but resources requested: %s", bad, got)
                return
            ok(o)
            listed = {e['loc'][len(base) + 1:]: e for e in all_ents if e['loc'].startswith(base + '/')}
            if op == 'ref':
                from resync.change_list import ChangeList
                cl = ChangeList()
                cl.read('cl.xml')
                got = sorted((r.change, r.uri) for r in cl)
                disk = files_of(snapshot('dst'))
                want = []
                locs = set(locs)
                for rel, f in disk.items():
                    u = base + '/' + rel
                    if u not in locs:
                        want.append(('created', u))
                    elif not (listed[rel]['length'] == len(f[1]) and listed[rel]['lastmod'] * 10**9 == f[2]):
                        want.append(('updated', u))
                want += [('deleted', u) for u in locs if u[len(base) + 1:] not in disk
                         or not u.startswith(base + '/')]
                # (without times and digests updates are seen only where the lengths differ)
                ctx.expect(got == sorted(want), "changes %s, true %s", got, sorted(want))
                return
            if op in ('audit', 'dry'):
                ctx.expect(before == after, "%s changed %s", op, diff(before, after))
            files = files_of({k[4:]: v for k, v in before.items() if k.startswith('dst/') and k != 'dst/'})
            if op == 'i':
                exp = dict(files)
                for e in all_ents:
                    rel = e['loc'][len(base) + 1:]
                    if e['change'] == 'deleted':
                        exp.pop(rel, None)
                    else:
                        exp[rel] = ('f', data[rel], e['lastmod'] * 10**9)
            else:
                L = {rel: Listed(rel, data[rel], e['lastmod'], e['length']) for rel, e in listed.items()}
                part = partition(L, files)
                if 'foreign' not in states:
                    check_counts(o.status, part)
                exp = after_sync(L, files, part, op != 'b') if op in ('b', 'bd') else files
            m = compare_files(exp, files_of(snapshot('dst')))
            ctx.expect(m is None, "%s (files of the list: %s)", m, states)
            ctx.sample({'case': case, 'states': states})
        ctx.explore(go, stop_after=3)


# --- the log -----------------------------------------------------------------------------------------

class L01(Check):
    id = 'L01'
    rule = ('one case = kind of run x options x what happens to the first resource; inside, every combination '
            'of what happens to the others; the events logged are compared with what was done')
    KINDS = ['create', 'same', 'update', 'gone', '404', 'once', 'twice', 'cbadlen', 'ubadlen', 'cmore', 'cbadmd5',
             'ubadsha', 'cbadsha2', 'ubadall', 'empty', 'cshort', 'absent', 'twolinks', 'cbare', 'ubare']

    def cases(self, tier):
        for op in ('bd', 'b', 'dry', 'audit', 'id', 'i', 'dryi'):
            for ign in (0, 1):
                for hashes in (None, ['md5', 'sha-1'], ['md5', 'sha-1', 'sha-256']):
                    for k in self.KINDS:
                        yield {'op': op, 'ign': ign, 'hashes': hashes, 'first': k,
                               'n': 3 if tier == 'thorough' or op in ('bd', 'id') and (hashes is None or not ign) else 2}
        for op in ('bd', 'b', 'dry', 'audit', 'id', 'i', 'dryi'):
            for name in NAMES + ['a%sb', '%s', '%d', 'a%(x)sb', '%%', '%n', 'a%20b%', '{}', '{0}', 'a{x}', '%5', '%2f%s',
                                 '\\', "'", '"', "a'b\"c", 'a->b', 'a,b=c', 'x/%s/y']:
                if '#' not in name and name not in LISTS:
                    for k in ('create', 'update', 'gone', 'ubadall', 'same', 'once', 'twice'):
                        yield {'op': op, 'ign': 1, 'hashes': ['md5', 'sha-1'], 'first': k, 'n': 1, 'name': name}

    def setup(self, ctx):
        World.setup()

    def run(self, ctx, case):
        op = case['op']
        inc = op in ('id', 'i', 'dryi')

        def go():
            w = World(ctx)
            rels = [case['name']] if 'name' in case else ['b', 'd/a', 'c'][:case['n']]
            kinds = {}
            ents, changes = [], []
            faults, asked = {}, {}
            for i, rel in enumerate(rels):
                k = kinds[rel] = case['first'] if i == 0 else ctx.pick(rel, self.KINDS)
                uri = BASE + '/' + rel
                body = b'' if k == 'empty' else b'body' + rel.encode()
                t = T0 + i
                if k in ('absent',):
                    if inc:
                        changes.append({'loc': uri, 'change': 'deleted', 'datetime': t})
                    continue
                if k == 'gone':
                    put('dst/' + rel, b'old', T0 - 100)
                    changes.append({'loc': uri, 'change': 'deleted', 'datetime': t})
                    continue
                e = {'loc': uri, 'lastmod': t, 'length': len(body),
                     'hash': 'md5:%s sha-1:%s sha-256:%s' % (
                         hashlib.md5(body).hexdigest(), hashlib.sha1(body).hexdigest(),
                         hashlib.sha256(body).hexdigest())}
                if k == 'same':
                    put('dst/' + rel, body, t)
                if k in ('update', 'ubadlen', 'ubadsha', 'ubadall', 'once', 'twolinks', 'ubare'):
                    put('dst/' + rel, b'old', T0 - 100)
                if k in ('cbadlen', 'ubadlen'):
                    e['length'] += 1
                if k == 'cmore':
                    e['length'] -= 1
                if k in ('cbadsha2', 'ubadall'):
                    e['hash'] = e['hash'].replace('sha-256:', 'sha-256:0')
                if k == 'ubadall':
                    e['length'] = 0
                    e['hash'] = e['hash'].replace('md5:', 'md5:0').replace('sha-1:', 'sha-1:0')
                if k == 'cbadmd5':
                    e['hash'] = e['hash'].replace('md5:', 'md5:0')
                if k == 'ubadsha':
                    e['hash'] = e['hash'].replace('sha-1:', 'sha-1:0')
                if k in ('cbare', 'ubare'):
                    e = {'loc': uri}
                if k == 'twolinks':
                    e['ln'] = [{'rel': 'describes', 'href': 'http://x.ex/1'}, {'rel': 'up', 'href': 'http://x.ex/2'}]
                if k != '404':
                    w.web.docs[uri] = body
                if k == 'once':
                    faults[uri] = [('read-timeout', 2)]
                if k == 'twice':
                    faults[uri] = [('read-timeout', 2), 'timeout']
                if k == 'cshort':
                    faults[uri] = [('short', 2)]
                ents.append(e)
                changes.append(dict(e, datetime=t, change='updated' if os.path.exists('dst/' + rel) else 'created'))
            extra = BASE + '/zz'
            ents.append({'loc': extra, 'lastmod': T0, 'length': 2})
            put('dst/zz', b'zz', T0)
            w.web.docs[SITE] = xml_doc('resourcelist', ents)
            w.web.docs[CL] = xml_doc('changelist', changes)

            def fault(uri, r):
                if uri in faults:
                    n = asked[uri] = asked.get(uri, 0) + 1
                    return faults[uri][n - 1] if n <= len(faults[uri]) else None
            w.web.fault = fault
            kw = dict(ignore_failures=bool(case['ign']), hashes=case['hashes'], tries=2,
                      dryrun=op in ('dry', 'dryi'))
            order = []

            def listen(kind, paths, extra):
                if kind in ('remove', 'os.remove', 'unlink'):
                    order.append(('deleted', paths[0]))
            before = snapshot('dst')
            if inc:
                o = w.incremental(delete=op != 'i', from_datetime=iso(T0 - 5), **kw)
            else:
                o = w.baseline(delete=op != 'b', audit=op == 'audit', **kw)
            after = snapshot('dst')
            ctx.expect(o.error in (None, 'fatal'), "run ended %s %s", o.error, o.message)
            ctx.state([case, kinds, o.error])
            # what was done: downloads that completed, files that went
            done = []
            gets = [r.uri for r in o.requests if r.uri in w.web.docs and r.uri.startswith(BASE + '/')
                    and r.uri not in (SITE, CL)]
            for u in dict.fromkeys(gets):
                rel = u[len(BASE) + 1:]
                if kinds[rel] == 'twice':
                    continue
                done.append((u, 'updated' if rel in before else 'created'))
            gone = [(BASE + '/' + rel, 'deleted') for rel in files_of(before) if rel not in after]
            events = []
            for lv, m in o.lines:
                if m.startswith('Event: '):
                    try:
                        d = ast.literal_eval(m[7:])
                    except (ValueError, SyntaxError):
                        ctx.fail("event cannot be read: %s" % m)
                    events.append(d)
                ctx.expect(not m.startswith('unformattable'), "a message cannot be written: %s", m)
            names = [(d.get('uri'), d.get('change')) for d in events]
            for u, c in done + gone:
                f = 'dst/' + u[len(BASE) + 1:]
                ctx.expect(any(u in m and f in m.replace(u, '') and not m.startswith('Event: ') for lv, m in o.lines),
                           "no message names %s and %s", u, f)
            ctx.expect(sorted(names) == sorted(done + gone), "events %s, done %s", names, done + gone)
            ctx.expect([n for n in names if n[1] != 'deleted'] == done, "events %s not in the order of the "
                       "requests %s", names, done)
            listed = {e['loc']: e for e in ents}
            for d in events:
                e = listed.get(d['uri'])
                if e and d['change'] != 'deleted':
                    hs = dict(x.split(':') for x in e.get('hash', '').split())
                    got = (d.get('timestamp'), d.get('length'), d.get('md5'), d.get('sha1'),
                           len(d.get('ln') or []))
                    want = (e.get('lastmod'), e.get('length'), hs.get('md5'), hs.get('sha-1'), len(e.get('ln', [])))
                    ctx.expect(got == want, "event gives %s, listed is %s", got, want)
            # bodies that do not match their listing
            says = {u: [m for lv, m in o.lines if ('mismatch' in m or 'not match' in m) and u in m]
                    for u, c in done}
            for u, c in done:
                rel = u[len(BASE) + 1:]
                k = kinds[rel]
                f = get('dst/' + rel)
                bad = []
                if listed[u].get('length', len(f)) != len(f):
                    bad.append('size')
                hs = (case['hashes'] or []) if 'hash' in listed[u] else []
                if hs:
                    if 'md5:' + hashlib.md5(f).hexdigest() not in listed[u]['hash']:
                        bad.append('MD5')
                    if 'sha-1:' + hashlib.sha1(f).hexdigest() not in listed[u]['hash']:
                        bad.append('SHA-1')
                if 'sha-256' in hs and 'sha-256:' + hashlib.sha256(f).hexdigest() not in listed[u]['hash']:
                    bad.append('SHA-256')
                ctx.expect(len(says[u]) == len(bad) and all(any(b in m for m in says[u]) for b in bad),
                           "%s differs from its listing in %s, reported: %s", rel, bad, says[u])
            if not events:
                ctx.trivial()
            ctx.sample({'case': case, 'kinds': kinds, 'events': names})
        ctx.explore(go, stop_after=3)
