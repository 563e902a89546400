"""In-memory lists: D01 compare, D02 equality, D07 pruning, D08 containers."""

import itertools

from mc.core import Check, Fail
from mc.world import iso

T = 1600000000
MANY = (11, 33, 65, 130, 260, 520, 1030, 2600, 10010)      # numbers of entries


def data(r):
    """Everything a description says, as plain values."""
    return tuple(getattr(r, a, None) for a in (
        'uri', 'timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change',
        'ts_datetime', 'path', 'ln', 'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until'))


class D01(Check):
    id = 'D01'
    rule = ('one case = alphabet of URIs x storage classes x insertion orders; inside, every assignment '
            'of absent / one side / equal / unequal (in several ways) to the URIs')
    ALPHA = [['http://e.ex/a', 'http://e.ex/a/b', 'http://e.ex/a-b', 'http://e.ex/A'],
             ['http://e.ex/\u00e9', 'http://e.ex/z', 'http://e.ex/\U0001f600', 'http://e.ex/\uffff'],
             ['a', '', 'b', 'a ']]
    # (dst attributes, src attributes, equal?)
    PAIRS = [
        (None, None, None),
        ({'timestamp': T}, None, None),
        (None, {'timestamp': T}, None),
        ({'timestamp': T}, {'timestamp': T, 'md5': 'm', 'length': 3}, True),
        ({'timestamp': T, 'length': 2}, {'timestamp': T, 'length': 3}, False),
        ({'timestamp': T, 'md5': 'x'}, {'timestamp': T + .5, 'md5': 'x'}, True),
        ({'timestamp': T}, {'timestamp': T + 1}, False),
        ({}, {}, True),
        ({}, {'timestamp': T}, False),
        ({'sha256': 'a', 'length': 0}, {'sha256': 'b', 'length': 0}, False),
    ]

    EXTRA = [{'change': 'created'}, {'change': 'updated'}, {'change': 'deleted'}, {'mime_type': 'text/html'},
             {'path': '/p'}, {'path': ''}, {'ts_datetime': T}, {'ts_datetime': 0}, {'capability': 'resourcelist'},
             {'ln': [{'rel': 'up', 'href': 'http://e.ex/'}]}, {'ln': []}, {'ts_at': T}, {'ts_completed': 0},
             {'ts_from': T + 9}, {'ts_until': 1}, {'change': 'deleted', 'ts_datetime': T + 5, 'path': 'x'}]

    def cases(self, tier):
        for ai in range(len(self.ALPHA)):
            for cd, cs in itertools.product((0, 1), repeat=2):
                for n in (0, 1, 2, 3, 4):
                    if n > len(self.ALPHA[ai]):
                        continue
                    perms = list(itertools.permutations(range(n)))
                    for pd in perms:
                        for ps in perms:
                            if n == 4 and not (ps == pd[::-1] or tier == 'thorough' and ps == perms[0]):
                                continue
                            if (not cd and pd != perms[0]) or (not cs and ps != perms[0]):
                                # order of insertion cannot matter to this storage, but check two
                                if n > 2:
                                    continue
                            yield {'alpha': ai, 'cd': cd, 'cs': cs, 'pd': pd, 'ps': ps}
        # what else is said about a resource makes no difference
        for cd, cs in itertools.product((0, 1), repeat=2):
            for n in (1, 2, 3):
                for x in range(len(self.EXTRA)):
                    for side in ('d', 's', 'ds'):
                        for which in [list(range(n))] + ([[i] for i in range(n)] if n > 1 else []):
                            p = tuple(range(n))[::-1]
                            yield {'alpha': 0, 'cd': cd, 'cs': cs, 'pd': p, 'ps': p if side == 's' else p[::-1],
                                   'extra': x, 'side': side, 'which': which}

        # long lists, one resource of which is unlike all others
        for n in MANY + ((60000,) if tier == 'thorough' else ()):
            for cd, cs in itertools.product((0, 1), repeat=2):
                if n < 20000 or cd == cs or tier == 'thorough':
                    yield {'many': n, 'cd': cd, 'cs': cs}

    def many(self, ctx, case):
        n, R = case['many'], self.Resource
        kinds = ['same', 'updated', 'deleted', 'created']
        for main, odd in itertools.permutations(range(4), 2):
            for at in (0, n // 2, n - 1):
                dst = self.ResourceList(resources_class=self.classes[case['cd']])
                src = self.ResourceList(resources_class=self.classes[case['cs']])
                for i in range(n):
                    k = odd if i == at else main
                    u = 'http://e.ex/%06d' % i
                    if k != 3:
                        dst.add(R(u, timestamp=T, length=i))
                    if k != 2:
                        src.add(R(u, timestamp=T, length=i + (k == 1)))
                got = dst.compare(src)
                ctx.evaluations += 1
                ctx.step()
                ctx.state([case, main, odd, at])
                ctx.nontrivial.add(repr((case, main, odd, at)))
                want = [[] for _ in kinds]
                want[main] = ['http://e.ex/%06d' % i for i in range(n) if i != at]
                want[odd] = ['http://e.ex/%06d' % at]
                for name, g, w in zip(kinds, got, want):
                    us = sorted(r.uri for r in g)
                    ctx.expect(us == w and len(g) == len(w), "%d resources %s but no. %d %s: %s has %d, should be %d", n,
                               kinds[main], at, kinds[odd], name, len(us), len(w))

    def setup(self, ctx):
        from resync.resource import Resource
        from resync.resource_list import ResourceList, ResourceListDict, ResourceListOrdered
        self.Resource, self.ResourceList = Resource, ResourceList
        self.classes = [ResourceListDict, ResourceListOrdered]

    def run(self, ctx, case):
        if 'many' in case:
            return self.many(ctx, case)
        n = len(case['pd'])
        pairs = self.PAIRS if n <= 3 or ctx.thorough else self.PAIRS[:5]
        if n == 3 and not ctx.thorough:
            pairs = self.PAIRS[:7]
        for combo in itertools.product(range(len(pairs)), repeat=n):
            self.one(ctx, case, [pairs[i] for i in combo])
        if ctx.evaluations and len(ctx.samples) < 2:
            ctx.sample(case)

    def one(self, ctx, case, combo):
        uris = self.ALPHA[case['alpha']]
        R = self.Resource
        dst = self.ResourceList(resources_class=self.classes[case['cd']])
        src = self.ResourceList(resources_class=self.classes[case['cs']])
        D, S = {}, {}
        if 'extra' in case:
            x = self.EXTRA[case['extra']]
            combo = [(d if d is None or 'd' not in case['side'] or i not in case['which'] else dict(d, **x),
                      r if r is None or 's' not in case['side'] or i not in case['which'] else dict(r, **x), e)
                     for i, (d, r, e) in enumerate(combo)]
        for i in case['pd']:
            if combo[i][0] is not None:
                D[uris[i]] = data(R(uri=uris[i], **combo[i][0]))
                dst.add(R(uri=uris[i], **combo[i][0]))
        for i in case['ps']:
            if combo[i][1] is not None:
                S[uris[i]] = data(R(uri=uris[i], **combo[i][1]))
                src.add(R(uri=uris[i], **combo[i][1]))
        eq = {uris[i]: combo[i][2] for i in range(len(combo))}
        want = [{u: D[u] for u in D if u in S and eq[u]},
                {u: S[u] for u in S if u in D and not eq[u]},
                {u: D[u] for u in D if u not in S},
                {u: S[u] for u in S if u not in D}]
        ctx.evaluations += 1
        ctx.step()
        ctx.nontrivial.add(repr((case.get('extra'), case['alpha'], case['cd'], case['cs'], D, S)))
        for again in (0, 1):
            got = dst.compare(src)
            ctx.expect(len(got) == 4, "not four lists: %s", got)
            for name, g, w in zip(('same', 'updated', 'deleted', 'created'), got, want):
                items = [data(r) for r in g]
                ctx.expect(len(items) == len(w) and {i[0]: i for i in items} == w,
                           "%s is %s, should be %s; destination %s source %s", name, items, w, D, S)
                ctx.expect(len(g) == len(w), "len of %s", name)
        for lst, m, nm in ((dst, D, 'destination'), (src, S, 'source')):
            ctx.expect({r.uri: data(r) for r in lst} == m and len(lst) == len(m),
                       "%s changed by compare: %s", nm, [data(r) for r in lst])
        if case['cd'] == case['cs'] and not any(x[0] is not None and x[0].get('x') for x in combo):
            s, u, d, c = dst.compare(dst)
            ctx.expect(({r.uri for r in s}, len(u), len(d), len(c)) == (set(D), 0, 0, 0),
                       "list compared with itself: same %s, updated %d, deleted %d, created %d; list %s",
                       [r.uri for r in s], len(u), len(d), len(c), list(D))
        ctx.state([sorted(w) for w in want] + [case['alpha']])


class D02(Check):
    id = 'D02'
    rule = ('one case = attributes of one description; inside, every other description over the same '
            'alphabet, in both directions, and with explicit tolerances')
    TIMES = [None, 0, T, T + .5, T + .999, T + .99999, T + 1, T + 1.00001, T + 2, -1, -.5]
    LENS = [None, 0, 1, 2]
    DIG = [None, 'a', 'b']

    def descs(self):
        for u in ('http://e.ex/a', 'http://e.ex/b'):
            for t in self.TIMES:
                for l in self.LENS:
                    for ds in itertools.product(self.DIG, repeat=3):
                        yield (u, t, l) + ds

    # far from today, and sizes beyond what a number may be kept in
    FAR = [0, 1, -1, -86400, -2208988800, -2208988800.5, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + .5,
           4102444800, 253402300799]
    BIG = [None, 0, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 53, 2 ** 53 + 1, 2 ** 64, 2 ** 64 + 1, 10 ** 30, 10 ** 30 + 1]

    def far(self):
        for t in self.FAR:
            for l in self.BIG:
                for m in (None, 'a' * 65, 'a' * 64 + 'b'):
                    yield ('http://e.ex/a', t, l, m, None, None)

    def cases(self, tier):
        for d in self.descs():
            if d[0].endswith('/a'):
                yield list(d)
        for d in self.far():
            yield list(d) + ['far']

    def setup(self, ctx):
        from resync.resource import Resource
        self.all = [(d, Resource(uri=d[0], timestamp=d[1], length=d[2], md5=d[3], sha1=d[4],
                                 sha256=d[5])) for d in self.descs()]
        self.others = [(d, Resource(uri=d[0], timestamp=d[1], length=d[2], md5=d[3])) for d in self.far()]
        self.R = Resource

    @staticmethod
    def spec(a, b, delta):
        if a[0] != b[0]:
            return False
        if (a[1] is None) != (b[1] is None):
            return False
        if a[1] is not None and a[1] != b[1] and not abs(a[1] - b[1]) < delta:
            return False
        for x, y in zip(a[2:], b[2:]):
            if x is not None and y is not None and x != y:
                return False
        return True

    def run(self, ctx, case):
        a = tuple(case[:6])
        ra = self.R(uri=a[0], timestamp=a[1], length=a[2], md5=a[3], sha1=a[4], sha256=a[5])
        spec = self.spec
        n = 0
        few = a[4] is None or ctx.thorough
        ctx.expect((ra == None) is False, "equal to None")   # noqa: E711
        for b, rb in self.others if len(case) > 6 else self.all:
            if b[0] != a[0] and (b[3] or b[4]):
                continue
            n += 1
            want = spec(a, b, 1.0)
            for x, y in ((ra, rb), (rb, ra)):
                if (x == y) is not want:
                    ctx.fail("%s and %s (order %s) compare equal: %s" % (a, b, x is ra, not want))
                if (x != y) is want:
                    ctx.fail("%s and %s: != disagrees with ==" % (a, b))
            if few and b[4] == a[4]:
                for delta in (0.5, 1.5, 2.0, 0.0, 0.00002):
                    if bool(ra.equal(rb, delta=delta)) is not spec(a, b, delta) \
                            or bool(rb.equal(ra, delta=delta)) is not spec(a, b, delta):
                        ctx.fail("%s and %s with tolerance %s: %s" % (a, b, delta, ra.equal(rb, delta=delta)))
        ctx.evaluations += n
        ctx.step(2 * n)
        ctx.nontrivial.add(repr(case))
        ctx.state(case)
        ctx.sample({'description': case, 'compared with': n})


class D07(Check):
    id = 'D07'
    rule = ('one case = sequence of (URI, change) of given length prefix; inside, all completions, all '
            'times and cut points; the result is compared with the definition and by replay')
    TYPES = ('created', 'updated', 'deleted')

    def cases(self, tier):
        nmax = 5 if tier == 'quick' else 6
        for uris in (2, 3):
            sym = list(itertools.product(range(uris), self.TYPES))
            yield {'k': 'dupes', 'u': uris, 'pre': [], 'n': 0}
            for n in range(1, (nmax if uris == 2 else nmax - 1) + 1):
                for p in itertools.product(sym, repeat=min(n, 2)):
                    yield {'k': 'dupes', 'u': uris, 'pre': list(p), 'n': n}
        for n in MANY:
            yield {'k': 'many', 'n': n}
        for n in range(0, nmax):
            for ver in ('1.1', '1.0', None):
                yield {'k': 'before', 'n': n, 'ver': ver}
                yield {'k': 'both', 'n': n, 'ver': ver}

    def setup(self, ctx):
        from resync.resource import Resource
        from resync.change_list import ChangeList
        from resync.change_dump_manifest import ChangeDumpManifest
        self.R, self.CL, self.CDM = Resource, ChangeList, ChangeDumpManifest

    def make(self, seq, cls=None):
        cl = (cls or self.CL)()
        rs = [self.R(uri='http://e.ex/%d' % u, change=c, length=i, timestamp=ts, ts_datetime=td)
              for i, (u, c, ts, td) in enumerate(seq)]
        for r in rs:
            cl.add(r)
        return cl, rs

    @staticmethod
    def net(rs):
        """Definition of removing duplicates."""
        first, last = {}, {}
        for i, r in enumerate(rs):
            first.setdefault(r.uri, r.change)
            last[r.uri] = i
        return [r for i, r in enumerate(rs) if last[r.uri] == i
                and not (r.change == 'deleted' and first[r.uri] == 'created')]

    @staticmethod
    def replay(rs, state):
        state = dict(state)
        for r in rs:
            if r.change == 'deleted':
                state.pop(r.uri, None)
            else:
                state[r.uri] = r.length
        return state

    def check_dupes(self, ctx, cl, rs, what):
        want = self.net(rs)
        n = cl.prune_dupes()
        got = list(cl)
        ctx.expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                   "%s: pruning %s leaves %s, should leave %s", what, [(r.uri[-1], r.change) for r in rs],
                   [(r.uri[-1], r.change, r.length) for r in got],
                   [(r.uri[-1], r.change, r.length) for r in want])
        ctx.expect(n == len(rs) - len(want), "%s: returned %s, removed %d", what, n, len(rs) - len(want))
        ctx.expect(len(cl) == len(want), "%s: length", what)
        uris = sorted({r.uri for r in rs})
        first = {}
        for r in rs:
            first.setdefault(r.uri, r.change)
        for have in itertools.product((0, 1), repeat=len(uris)):
            start = {u: 'old' for u, h in zip(uris, have) if h}
            if any(first[u] == 'created' for u in start):
                continue
            a, b = self.replay(rs, start), self.replay(got, start)
            ctx.expect(a == b, "%s: from %s the full list gives %s, the pruned %s", what, start, a, b)
        again = cl.prune_dupes()
        ctx.expect(again == 0 and list(cl) == got, "%s: pruning again removes %s", what, again)

    def many(self, ctx, n):
        """Long lists: a resource changes twice, far apart, or many change all the time."""
        for a, b in itertools.product(self.TYPES, repeat=2):
            for at in ((0, n - 1), (0, 1), (1, n // 2), (n - 2, n - 1), None):
                for ver, cut in (('1.1', None), ('1.1', T + n // 2), ('1.0', T + n - 1), (None, T + 1)):
                    seq = []
                    for i in range(n):
                        seq.append(((i % 97) if at is None else n + 5 if i in at else i,
                                    (a if i % 2 else b) if at is None else a if i == at[0] else b if i == at[1] else 'updated',
                                    T + i, T + i))
                    cl, rs = self.make(seq)
                    ctx.evaluations += 1
                    ctx.step()
                    ctx.nontrivial.add(repr((n, a, b, at, ver, cut)))
                    ctx.state([n, a, b, at, ver, cut])
                    if cut is not None:
                        k = cl.prune_updates_before(cut, **({'spec_version': ver} if ver else {}))
                        rs = rs[cut - T:]
                        ctx.expect(k == cut - T and len(cl) == len(rs) and all(x is y for x, y in zip(cl, rs)),
                                   "%d changes cut at %d: removed %s, left %d", n, cut - T, k, len(cl))
                    want = self.net(rs)
                    k = cl.prune_dupes()
                    got = list(cl)
                    ctx.expect(len(got) == len(want) and all(x is y for x, y in zip(got, want))
                               and k == len(rs) - len(want), "%d changes (%s, %s at %s, cut %s): removed %s, left %d, "
                               "should leave %d", n, a, b, at, cut, k, len(got), len(want))

    def run(self, ctx, case):
        if case['k'] == 'many':
            return self.many(ctx, case['n'])
        if case['k'] == 'dupes':
            sym = list(itertools.product(range(case['u']), self.TYPES))
            rest = case['n'] - len(case['pre'])
            for tail in itertools.product(sym, repeat=rest):
                seq = [(u, c, T, T) for u, c in case['pre']] + [(u, c, T, T) for u, c in tail]
                cl, rs = self.make(seq, self.CDM if case['u'] == 3 and case['n'] == 3 else None)
                ctx.evaluations += 1
                ctx.step()
                key = [(u, c) for u, c, _, _ in seq]
                ctx.nontrivial.add(repr(key))
                ctx.state(key)
                self.check_dupes(ctx, cl, rs, 'prune_dupes')
            ctx.sample({'changes': [(u, c) for u, c, _, _ in seq] if case['n'] else []})
            return
        n, ver = case['n'], case['ver']
        vals = [T, T + 1, T + 2.5]
        times = list(itertools.product(vals, repeat=n))
        if case['k'] == 'both':
            times = [t for t in times if list(t) == sorted(t)]
        for ts in times:
            typs = [('updated',) * n] if case['k'] == 'before' else \
                itertools.product(('created', 'deleted'), repeat=min(n, 4))
            for ty in typs:
                for cut in (T - 1, T, T + .5, T + 1, T + 2, T + 2.5, T + 3):
                    for swap in ((0, 1) if case['k'] == 'before' else (0,)):
                        self.before(ctx, case, ts, ty, cut, ver, swap)
        if case['k'] == 'before' and n:
            for hole in range(n):
                seq = [(i % 2, 'updated', None if i == hole else T, None if i == hole else T)
                       for i in range(n)]
                cl, rs = self.make(seq)
                ctx.evaluations += 1
                try:
                    cl.prune_updates_before(T, **({'spec_version': ver} if ver else {}))
                except Exception:
                    pass
                else:
                    ctx.fail("change %d without time accepted" % hole)

    def before(self, ctx, case, ts, ty, cut, ver, swap):
        # the other kind of time says the opposite, so that it must not be used
        other = [T + 10 if t < cut else T - 10 for t in ts]
        seq = []
        for i, t in enumerate(ts):
            c = ty[i] if i < len(ty) else 'updated'
            seq.append((i % 2, c, t if ver == '1.0' else other[i], other[i] if ver == '1.0' else t))
            if swap and ver != '1.0':
                seq[-1] = (i % 2, c, None, t)
            elif swap:
                seq[-1] = (i % 2, c, t, None)
        cl, rs = self.make(seq)
        ctx.evaluations += 1
        ctx.step()
        ctx.nontrivial.add(repr((seq, cut, ver)))
        ctx.state([seq, cut, ver])
        n = cl.prune_updates_before(cut, **({'spec_version': ver} if ver else {}))
        want = [r for r, t in zip(rs, ts) if t >= cut]
        got = list(cl)
        ctx.expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                   "changes at %s cut at %s (version %s) leaves %s", ts, cut, ver, [r.length for r in got])
        ctx.expect(n == len(rs) - len(want), "returned %s, removed %d", n, len(rs) - len(want))
        if case['k'] == 'both':
            self.check_dupes(ctx, cl, got, 'after cut at %s of %s' % (cut, ts))


class D08(Check):
    id = 'D08'
    rule = ('one case = container class x part (entries, links, metadata, resource links); inside, every '
            'sequence of operations up to the depth, each step compared with a model')
    CAPS = ['changedump', 'resourcelist', 'unheard-of', 'changelist', 'resourcelist-archive',
            'resourcedump']
    ORDER = ['resourcelist', 'resourcedump', 'changelist', 'changedump', 'resourcelist-archive',
             'resourcedump-archive', 'changelist-archive', 'changedump-archive']
    SETS = ['ResourceList', 'ResourceListOrdered', 'ResourceDump', 'ResourceDumpManifest', 'ChangeDump',
            'CapabilityList', 'SourceDescription']
    LISTS = ['ChangeList', 'ChangeDumpManifest', 'ResourceListArchive']

    def cases(self, tier):
        for cls in self.SETS + self.LISTS:
            deep = cls in ('ResourceList', 'ResourceListOrdered', 'CapabilityList', 'SourceDescription',
                           'ChangeList')
            d = (4 if deep else 3) + (tier == 'thorough')
            # split on the first operation
            for first in range(len(self.ops(cls))):
                yield {'k': 'entries', 'cls': cls, 'depth': d, 'first': first}
            yield {'k': 'md', 'cls': cls, 'depth': 2 + (tier == 'thorough')}
            for first in range(10):
                yield {'k': 'links', 'cls': cls, 'depth': 3 + (tier == 'thorough'), 'first': first}
            yield {'k': 'relnames', 'cls': cls}
        yield {'k': 'relnames', 'cls': 'Resource'}
        for first in range(14):
            yield {'k': 'rlinks', 'cls': 'Resource', 'depth': 3 + (tier == 'thorough'), 'first': first}
        for seq in itertools.product(range(len(self.CAPS)), repeat=4 if tier == 'quick' else 5):
            yield {'k': 'caporder', 'seq': seq}
        n = 3 if tier == 'thorough' else 2
        for cls in ('CapabilityList', 'SourceDescription'):
            for seq in itertools.product(range(len(self.OBJ)), repeat=n):
                yield {'k': 'objects', 'cls': cls, 'seq': seq}

    # what is listed: (class, its URI or None, its description, the URI given in the call or None)
    OBJ = [(c, u, d, v) for c in ('ResourceList', 'ChangeDump', 'ResourceListArchive', 'CapabilityList')
           for u in (None, 'http://e.ex/own') for d in (None, 'http://e.ex/desc')
           for v in (None, 'http://e.ex/given', 'http://e.ex/own')
           if (u or v) and not (d and c == 'ChangeDump')] + [(None, None, None, 'http://e.ex/given')]

    def objects(self, ctx, case):
        """Listing documents that exist as objects (or only as URIs)."""
        cl = case['cls'] == 'CapabilityList'
        lst = self.classes[case['cls']]()
        want = []
        for i in case['seq']:
            cls, own, desc, given = self.OBJ[i]
            if cls is None:
                o, cap = None, 'changelist' if cl else 'capabilitylist'
            else:
                o = self.classes[cls]()
                cap = o.capability_name
                o.uri = own
                if desc:
                    o.describedby = desc
            if cl:
                uri = own or given
            else:
                if o is not None and not own:
                    continue
                uri = own or given
            dup = uri in [w[0] for w in want]
            try:
                if cl:
                    if o is None:
                        lst.add_capability(uri=given, name=cap)
                    else:
                        lst.add_capability(o, uri=given)
                else:
                    lst.add_capability_list(given if o is None else o)
            except Exception as e:
                ctx.expect(dup, "%s: %s refused: %s", case['cls'], self.OBJ[i], e)
            else:
                ctx.expect(not dup, "%s: %s listed twice", case['cls'], uri)
                want.append((uri, cap, None if cl else desc))
            ctx.step()
        got = sorted((r.uri, r.capability, None if cl else r.link_href('describedby')) for r in lst)
        ctx.expect(got == sorted(want), "%s: %s listed as %s, should be %s", case['cls'],
                   [self.OBJ[i] for i in case['seq']], got, sorted(want))
        ctx.state([case['cls'], sorted(map(str, want))])

    URIS = ['http://e.ex/b', 'http://e.ex/a', 'http://e.ex/a/0']

    def ops(self, cls):
        ops = [('add', 0, 1), ('add', 1, 1), ('add', 2, 1), ('add', 0, 2), ('add2', 1, 2), ('start', 0),
               ('next', 0), ('start', 1), ('next', 1), ('addcontainer', 0, 2)]
        if cls in self.LISTS:
            ops += [('bad', 0), ('addchanged', 1)] if cls.startswith('Change') else []
        else:
            ops += [('replace', 0, 3), ('replace', 1, 3)]
        return ops

    def setup(self, ctx):
        from resync.resource import Resource
        from resync.resource_list import ResourceList, ResourceListOrdered
        from resync.change_list import ChangeList
        from resync.capability_list import CapabilityList
        from resync.source_description import SourceDescription
        from resync.resource_dump import ResourceDump
        from resync.change_dump import ChangeDump
        from resync.resource_dump_manifest import ResourceDumpManifest
        from resync.change_dump_manifest import ChangeDumpManifest
        from resync.archives import ResourceListArchive
        self.R = Resource
        self.classes = dict(ResourceList=ResourceList, ChangeList=ChangeList, CapabilityList=CapabilityList,
                            SourceDescription=SourceDescription, ResourceDump=ResourceDump,
                            ChangeDump=ChangeDump, ResourceDumpManifest=ResourceDumpManifest,
                            ChangeDumpManifest=ChangeDumpManifest, ResourceListArchive=ResourceListArchive,
                            ResourceListOrdered=lambda: ResourceList(resources_class=ResourceListOrdered))

    def run(self, ctx, case):
        getattr(self, case['k'])(ctx, case)

    def res(self, cls, i, v):
        kw = {'length': v}
        if cls.startswith('Change') and cls != 'ChangeDump':
            kw['change'] = ('updated', 'created', 'deleted')[v % 3]
        if cls == 'CapabilityList':
            # two of the URIs have the same capability
            kw['capability'] = ('changelist', 'resourcelist', 'changelist')[i]
        return self.R(uri=self.URIS[i], **kw)

    def expected(self, cls, model):
        if cls in self.LISTS or cls == 'ResourceListOrdered':
            return list(model)
        if cls == 'CapabilityList':
            return sorted(model, key=lambda r: (self.ORDER.index(r.capability), r.uri))
        return sorted(model, key=lambda r: r.uri)

    def entries(self, ctx, case):
        cls = case['cls']
        ops = self.ops(cls)
        is_set = cls in self.SETS

        def same(got, want, what, hist):
            got = list(got)
            ctx.expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)),
                       "%s after %s: %s gives %s, should be %s", cls, hist, what,
                       [(r.uri, r.length) for r in got], [(r.uri, r.length) for r in want])

        def go():
            c = self.classes[cls]()
            model = []
            its = {}
            hist = []
            for d in range(case['depth']):
                op = ops[case['first'] if d == 0 else ctx.choose('op', len(ops))]
                hist.append(op)
                ctx.step()
                kind = op[0]
                uris = [r.uri for r in model]
                if kind in ('add', 'replace', 'add2', 'addcontainer', 'bad', 'addchanged'):
                    # modification while an iteration is under way: the iteration is over
                    its.clear()
                if kind == 'add':
                    r = self.res(cls, op[1], op[2])
                    if is_set and r.uri in uris:
                        try:
                            c.add(r)
                        except Exception:
                            pass
                        else:
                            ctx.fail("%s: duplicate accepted after %s" % (cls, hist))
                    else:
                        c.add(r)
                        model.append(r)
                elif kind == 'replace':
                    r = self.res(cls, op[1], op[2])
                    c.add(r, replace=True)
                    if r.uri in uris:
                        model[uris.index(r.uri)] = r
                    else:
                        model.append(r)
                elif kind in ('add2', 'addcontainer'):
                    rs = [self.res(cls, i, 5) for i in op[1:3]]
                    if is_set and any(r.uri in uris for r in rs):
                        hist.pop()
                        continue    # what a refused collection leaves is not specified
                    if kind == 'add2':
                        c.add(rs)
                        model += rs
                    else:
                        o = self.classes[cls]()
                        for r in rs:
                            o.add(r)
                        c.add(o)
                        model += self.expected(cls, rs)
                        ctx.expect(len(o) == 2, "%s: container added is changed", cls)
                elif kind == 'bad':
                    try:
                        c.add(self.R(uri=self.URIS[0], length=9))
                    except Exception:
                        pass
                    else:
                        ctx.fail("%s: entry without change accepted" % cls)
                elif kind == 'addchanged':
                    rs = [self.R(uri=self.URIS[0], length=7), self.R(uri=self.URIS[1], length=8, md5='x')]
                    before = [data(r) for r in rs]
                    c.add_changed_resources(rs, change='deleted')
                    ctx.expect([data(r) for r in rs] == before, "add_changed_resources changed its input")
                    new = list(c)[len(model):]
                    ctx.expect([(r.uri, r.length, r.md5, r.change) for r in new]
                               == [(r.uri, r.length, r.md5, 'deleted') for r in rs],
                               "add_changed_resources added %s", [data(r) for r in new])
                    model += new
                elif kind == 'start':
                    its[op[1]] = (iter(c), iter(self.expected(cls, model)))
                elif kind == 'next' and op[1] in its:
                    a = next(its[op[1]][0], None)
                    b = next(its[op[1]][1], None)
                    ctx.expect(a is b, "%s: after %s iterator %d gives %s, should give %s", cls, hist, op[1],
                               a and a.uri, b and b.uri)
                # compare complete observable state
                want = self.expected(cls, model)
                same(c, want, 'iteration', hist)
                ctx.expect(len(c) == len(want), "%s after %s: len %d", cls, hist, len(c))
                ctx.expect(sorted(c.uris()) == sorted(r.uri for r in want), "%s after %s: uris() %s", cls, hist,
                           list(c.uris()))
                if is_set:
                    for r in want:
                        ctx.expect(c[r.uri] is r, "%s after %s: lookup of %s", cls, hist, r.uri)
                ctx.state([cls, [(r.uri, r.length, r.change) for r in model], sorted(its)])
            # iterators under way must finish undisturbed
            for k, (a, b) in its.items():
                same(list(a), list(b), 'rest of iterator %d' % k, hist)
            ctx.sample({'class': cls, 'operations': hist})
        ctx.explore(go)

    def caporder(self, ctx, case):
        c = self.classes['CapabilityList']()
        seq = [self.CAPS[i] for i in case['seq']]
        for i, cap in enumerate(seq):
            c.add_capability(uri='http://e.ex/%d' % (9 - i), name=cap)
        got = [(r.capability, r.uri) for r in c]
        want = sorted(((cap, 'http://e.ex/%d' % (9 - i)) for i, cap in enumerate(seq)),
                      key=lambda x: (self.ORDER.index(x[0]) if x[0] in self.ORDER else 99, x[1]))
        ctx.expect(got == want, "capabilities %s iterate as %s", seq, got)
        for name in self.CAPS + ['changelist-archive']:
            ctx.expect(c.has_capability(name) == (name in seq), "has_capability(%s) for %s", name, seq)
            info = c.capability_info(name)
            first = [u for cap, u in want if cap == name]
            ctx.expect((info.uri if info is not None else None) == (first[0] if first else None),
                       "capability_info(%s) for %s is %s", name, seq, info)
        ctx.state(case['seq'])
        ctx.step()

    LOPS = [('set', 'up', 'u1'), ('set', 'up', 'u2'), ('set', 'index', 'i1'), ('set', 'describedby', 'd1'),
            ('seta', 'up', 'u3', {'pri': 2}), ('set', 'other', 'o1'), ('prop', 'up', 'p1'),
            ('prop', 'index', 'p2'), ('prop', 'describedby', 'p3'), ('seta', 'other', 'o2', {'type': 'x'})]
    ROPS = LOPS + [('addl', 'up', 'a1'), ('addl', 'other', 'a2'), ('addl', 'other', 'a3'),
                   ('prop', 'contents', 'c1')]

    def links(self, ctx, case, resource=False):
        ops = self.ROPS if resource else self.LOPS

        def go():
            c = self.R(uri='http://e.ex/r') if resource else self.classes[case['cls']]()
            model = []
            hist = []
            for d in range(case['depth']):
                op = ops[case['first'] if d == 0 else ctx.choose('op', len(ops))]
                hist.append(op)
                ctx.step()
                kind, rel, href = op[:3]
                atts = op[3] if len(op) > 3 else {}
                if kind == 'prop':
                    setattr(c, rel, href)
                    if rel == 'contents':
                        atts = {'type': 'application/xml'}
                elif kind == 'addl':
                    c.link_add(rel, href, **atts)
                else:
                    c.link_set(rel, href, **atts)
                ex = [m for m in model if m['rel'] == rel]
                if ex and kind != 'addl':
                    ex[0].update(href=href, **atts)
                else:
                    model.append(dict(rel=rel, href=href, **atts))
                got = [{k: v for k, v in x.items()} for x in (c.ln or [])]
                ctx.expect(got == model, "%s after %s: links %s, should be %s", case['cls'], hist, got, model)
                for r in ('up', 'index', 'describedby', 'other', 'none', 'contents'):
                    ms = [m for m in model if m['rel'] == r]
                    ctx.expect(c.link_href(r) == (ms[0]['href'] if ms else None), "link_href(%s)", r)
                    ctx.expect((c.link(r) or None) == (ms[0] if ms else None), "link(%s)", r)
                    if r in ('up', 'index', 'describedby'):
                        ctx.expect(getattr(c, r) == (ms[0]['href'] if ms else None), "property %s", r)
                ctx.state([case['cls'], model])
            # a fresh object is not affected
            f = self.R(uri='http://e.ex/r') if resource else self.classes[case['cls']]()
            ctx.expect(not f.ln, "%s: links of a new object: %s (after %s)", case['cls'], f.ln, hist)
            ctx.sample({'class': case['cls'], 'operations': hist})
        ctx.explore(go)

    def rlinks(self, ctx, case):
        self.links(ctx, case, True)

    RELS = ['up', 'index', 'describedby', 'upstream', 'sup', 'a:up', 'up up', 'Up', 'UP', ' up', 'up ', 'u', 'inde',
            'http://x.ex/up', 'http://x.ex/rel#index', 'indexes', 'describe', 'describedby2', 'isdescribedby', '', '*',
            '.*', 'up|index', '\u00fcp']

    def relnames(self, ctx, case):
        """Relations are told apart by their whole names."""
        def go():
            c = self.R(uri='http://e.ex/r') if case['cls'] == 'Resource' else self.classes[case['cls']]()
            one = ctx.pick('one', self.RELS)
            two = ctx.pick('two', self.RELS)
            prop = ctx.choose('prop', 2)
            model = {}
            for rel, href in ((one, 'h1'), (two, 'h2'), (one, 'h3')):
                if prop and rel in ('up', 'index', 'describedby'):
                    setattr(c, rel, href)
                else:
                    c.link_set(rel, href)
                model[rel] = href
                ctx.step()
                for r in self.RELS:
                    ctx.expect(c.link_href(r) == model.get(r), "links %s: looking for %r gives %r", model, r,
                               c.link_href(r))
                    ctx.expect((c.link(r) or {}).get('rel') == (r if r in model else None), "links %s: looking for "
                               "%r gives %r", model, r, c.link(r))
                for r in ('up', 'index', 'describedby'):
                    ctx.expect(getattr(c, r) == model.get(r), "links %s: property %s is %r", model, r, getattr(c, r))
                ctx.expect(len(c.ln) == len(model), "links %s: table %s", model, c.ln)
            ctx.state([case['cls'], one, two, prop])
        ctx.explore(go)

    MD = ('md_at', 'md_completed', 'md_from', 'md_until')

    def md(self, ctx, case):
        vals = [('2013-01-01T00:00:00Z', '2013-01-01T00:00:00Z'), (0, '1970-01-01T00:00:00Z'),
                (1600000000, '2020-09-13T12:26:40Z'), ('now', None), ('odd <value>', 'odd <value>')]
        names = self.MD + ('capability',)

        def go():
            c = self.classes[case['cls']]()
            model = {n: None for n in names}
            for d in range(case['depth']):
                n = ctx.pick('name', names)
                if n == 'capability':
                    v, w = 'someother', 'someother'
                else:
                    v, w = ctx.pick('value', vals)
                setattr(c, n, v)
                ctx.step()
                if v == 'now':
                    w = getattr(c, n)
                    ctx.expect(isinstance(w, str) and w.endswith('Z') and w[:2] == '20', "%s now: %s", n, w)
                model[n] = w
                for k in names:
                    ctx.expect(getattr(c, k) == model[k], "%s.%s is %s, should be %s", case['cls'], k,
                               getattr(c, k), model[k])
                ctx.state([case['cls'], {k: v for k, v in model.items() if v != w}, n, str(v)])
            f = self.classes[case['cls']]()
            ctx.expect(all(getattr(f, k) is None for k in names), "metadata of a new object")
        ctx.explore(go)


# --- resource descriptions as values -----------------------------------------------------------------

class O01(Check):
    id = 'O01'
    rule = ('one case = first operations; every sequence of operations on a description and copies of it, each '
            'step compared with plain tables of attributes')
    # (attribute, value given, {attribute: value it must then have})
    T = 1600000000.25
    SETS = [
        ('uri', 'http://e.ex/x/last', {}),
        ('timestamp', T, {}), ('timestamp', 0, {}), ('timestamp', None, {}),
        ('lastmod', '2020-09-13T12:26:41Z', {'timestamp': 1600000001}),
        ('lastmod', '1970-01-01T00:00:00Z', {'timestamp': 0}), ('lastmod', None, {'timestamp': None}),
        ('lastmod', 'yesterday', None),
        ('length', 0, {}), ('length', 7, {}), ('mime_type', '', {}), ('path', '', {}), ('capability', '', {}),
        ('mime_type', 'text/plain', {}), ('md5', 'm1', {}), ('sha1', 's1', {}), ('sha256', 't1', {}),
        ('hash', 'sha-256:t2 md5:m2', {'md5': 'm2', 'sha1': None, 'sha256': 't2'}),
        ('hash', 'sha-1:s3', {'md5': None, 'sha1': 's3', 'sha256': None}),
        ('change', 'created', {}), ('change', 'deleted', {}), ('change', 'moved', None), ('change', None, {}),
        ('ts_datetime', T, {}), ('datetime', '2020-09-13T12:26:42Z', {'ts_datetime': 1600000002}),
        ('datetime', '2020-13-13', None),
        ('path', '/p', {}), ('capability', 'resourcelist', {}),
        ('ts_at', 5, {}), ('md_at', '1970-01-01T00:00:06Z', {'ts_at': 6}), ('md_at', 'x', None),
        ('md_completed', '1970-01-01T00:00:07Z', {'ts_completed': 7}),
        ('md_from', '1970-01-01T00:00:08Z', {'ts_from': 8}), ('md_until', '1970-01-01T00:00:09Z', {'ts_until': 9}),
        ('md_until', None, {'ts_until': None}), ('ts_at', 0, {}), ('ts_completed', 0, {}), ('ts_from', 0, {}),
        ('ts_until', 0, {}), ('ts_datetime', 0, {}), ('ts_completed', 10, {}), ('ts_from', 11, {}),
        ('ts_until', 12, {}),
        ('up', 'http://e.ex/up', 'ln'), ('up', 'http://e.ex/up2', 'ln'), ('contents', 'http://e.ex/c', 'ln'),
    ]
    ATTS = ['uri', 'timestamp', 'length', 'mime_type', 'md5', 'sha1', 'sha256', 'change', 'ts_datetime', 'path',
            'capability', 'ts_at', 'ts_completed', 'ts_from', 'ts_until']
    TIMES = {'lastmod': 'timestamp', 'datetime': 'ts_datetime', 'md_at': 'ts_at', 'md_completed': 'ts_completed',
             'md_from': 'ts_from', 'md_until': 'ts_until'}

    def cases(self, tier):
        n = len(self.SETS) + 2
        for i in range(n):
            for j in range(n):
                yield {'first': [i, j], 'depth': 4 if tier == 'thorough' else 3}
        for i in range(len(self.SETS)):
            yield {'first': [i], 'init': 1}
        for ln in ([], [{'rel': 'x', 'href': 'http://e.ex/x'}], [{'rel': 'up', 'href': 'http://e.ex/1', 'pri': 1},
                                                                 {'rel': 'up', 'href': 'http://e.ex/2'}]):
            yield {'links': ln}

    def setup(self, ctx):
        from resync.resource import Resource
        self.R = Resource

    def model(self, m, op):
        """Set an attribute in a table; False if it must be refused."""
        att, val, then = self.SETS[op]
        if then is None:
            return False
        if then == 'ln':
            rel = att
            for l in m['ln']:
                if l['rel'] == rel:
                    l['href'] = val
                    break
            else:
                m['ln'].append({'rel': rel, 'href': val})
                if rel == 'contents':
                    m['ln'][-1]['type'] = 'application/xml'
        elif then:
            m.update(then)
        else:
            m[att] = val
        return True

    def check(self, ctx, r, m, who, did):
        for a in self.ATTS:
            ctx.expect(getattr(r, a) == m[a], "after %s: %s.%s is %r, should be %r", did, who, a,
                       getattr(r, a), m[a])
        for a, ts in self.TIMES.items():
            want = None if m[ts] is None else iso(m[ts])
            got = getattr(r, a)
            if got and '.' in got:      # (a fraction may be written with or without trailing zeros)
                got = got.rstrip('Z').rstrip('0') + 'Z'
            ctx.expect(got == want, "after %s: %s.%s is %r, should be %r", did, who, a, got, want)
        hs = [p + m[k] for p, k in (('md5:', 'md5'), ('sha-1:', 'sha1'), ('sha-256:', 'sha256')) if m[k] is not None]
        got = r.hash
        ctx.expect((got is None and not hs) or (got and sorted(got.split(' ')) == sorted(hs)),
                   "after %s: %s.hash is %r, should be %s", did, who, got, hs)
        ctx.expect((r.ln or []) == m['ln'], "after %s: %s has links %s, should be %s", did, who, r.ln, m['ln'])
        for rel in ('up', 'contents', 'describedby', 'index'):
            want = next((l['href'] for l in m['ln'] if l['rel'] == rel), None)
            ctx.expect(getattr(r, rel) == want, "after %s: %s.%s is %r, should be %r", did, who, rel,
                       getattr(r, rel), want)
        ctx.expect(r.basename == m['uri'].rsplit('/', 1)[1], "after %s: basename %r of %s", did, r.basename, m['uri'])
        s = str(r)
        ctx.expect(m['uri'] in s and (m['change'] is None or m['change'] in s), "after %s: shown as %s", did, s)
        repr(r)

    def blank(self, uri):
        m = {a: None for a in self.ATTS}
        m.update(uri=uri, ln=[])
        return m

    def run(self, ctx, case):
        nset = len(self.SETS)

        def names(ops):
            return [self.SETS[o][:2] if o < nset else ('copy', 'switch')[o - nset] for o in ops]

        def go():
            if 'links' in case:
                return self.links(ctx, case['links'])
            ops = list(case['first'])
            if case.get('init'):
                return self.init(ctx, ops[0])
            while len(ops) < case['depth']:
                ops.append(ctx.choose('op', nset + 2))
            rs, ms, cur = [self.R('http://e.ex/x/1')], [self.blank('http://e.ex/x/1')], 0
            for i, o in enumerate(ops):
                did = names(ops[:i + 1])
                if o < nset:
                    allowed = self.model(ms[cur], o)
                    try:
                        setattr(rs[cur], self.SETS[o][0], self.SETS[o][1])
                        refused = False
                    except Exception as e:
                        refused = type(e).__name__
                    ctx.expect(bool(refused) != allowed, "%s: %s", did, refused or 'accepted')
                elif o == nset:
                    rs[1:] = [self.R(resource=rs[cur])]
                    ms[1:] = [dict(ms[cur], ln=[dict(l) for l in ms[cur]['ln']])]
                    cur = 1
                    ctx.expect(rs[0] is not rs[1] and (cur == 0 or rs[1].uri == ms[1]['uri']), "%s: no copy", did)
                else:
                    cur = (cur + 1) % len(rs)
                ctx.step()
            # (every shorter sequence is another execution's beginning)
            for k, (r, m) in enumerate(zip(rs, ms)):
                self.check(ctx, r, m, 'description %d' % k, names(ops))
            ctx.state(ms)
        ctx.explore(go, stop_after=3)

    def init(self, ctx, first):
        """Values given on creation, over those of another description."""
        att, val, then = self.SETS[first]
        names = set(self.ATTS) | set(self.TIMES)
        if then == 'ln' or att not in names or val is None:
            return ctx.trivial()
        second = ctx.choose('second', len(self.SETS))
        base = ctx.choose('base', 3)
        att2, val2, then2 = self.SETS[second]
        if then2 == 'ln' or att2 not in names or val2 is None or att2 == att or self.TIMES.get(att2) == att \
                or self.TIMES.get(att) == att2 or then is None or then2 is None:
            return ctx.trivial()
        m = self.blank('http://e.ex/x/1')
        kw = {att: val, att2: val2}
        src = None
        if base:
            src = self.R('http://e.ex/x/1', timestamp=3, length=4, mime_type='a/b', md5='m', sha1='s', sha256='t',
                         change='updated', ts_datetime=5, path='/q', ln=[{'rel': 'up', 'href': 'http://e.ex/u'}],
                         capability='c', ts_at=1, ts_completed=2, ts_from=3, ts_until=4) if base == 1 else \
                self.R('http://e.ex/x/1')
            ms = self.blank('http://e.ex/x/1')
            if base == 1:
                ms.update(timestamp=3, length=4, mime_type='a/b', md5='m', sha1='s', sha256='t', change='updated',
                          ts_datetime=5, path='/q', ln=[{'rel': 'up', 'href': 'http://e.ex/u'}], capability='c',
                          ts_at=1, ts_completed=2, ts_from=3, ts_until=4)
            m = dict(ms, ln=[dict(l) for l in ms['ln']])
            r = self.R(resource=src, **kw)
        else:
            r = self.R(**dict({'uri': 'http://e.ex/x/1'}, **kw))
        for o in (first, second):
            self.model(m, o)
        self.check(ctx, r, m, 'description', ['create with', kw, 'over', base])
        if src is not None:
            self.check(ctx, src, ms, 'original', ['create with', kw])
            r.link_set('up', 'http://e.ex/changed')
            self.check(ctx, src, ms, 'original', ['create with', kw, 'link set on copy'])

    def links(self, ctx, ln):
        """Links given on creation, with another value, over those of another description."""
        second = ctx.choose('second', len(self.SETS) + 1)
        base = ctx.pick('base', [None, 'links', 'plain', 'empty'])
        m = self.blank('http://e.ex/x/1')
        ms = self.blank('http://e.ex/x/1')
        src = None
        if base:
            ms['ln'] = {'links': [{'rel': 'contents', 'href': 'http://e.ex/c'}], 'plain': [], 'empty': []}[base]
            src = self.R('http://e.ex/x/1', **({} if base == 'plain' else {'ln': [dict(l) for l in ms['ln']]}))
        kw = {'ln': [dict(l) for l in ln]}
        m['ln'] = [dict(l) for l in ln]
        if second < len(self.SETS):
            att, val, then = self.SETS[second]
            if then is None or then == 'ln' or att not in set(self.ATTS) | set(self.TIMES) or val is None:
                return ctx.trivial()
            kw[att] = val
            self.model(m, second)
        r = self.R(**dict({'resource': src} if base else {'uri': 'http://e.ex/x/1'}, **kw))
        ctx.state([ln, second, base])
        did = ['create with', kw, 'over', base]
        self.check(ctx, r, m, 'description', did)
        if src is not None:
            self.check(ctx, src, ms, 'original', did)
            r.link_set('up', 'http://e.ex/changed')
            self.check(ctx, src, ms, 'original', did + ['link set on copy'])
