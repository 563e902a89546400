"""Crash points and interleavings: C09, C10, D06."""

import itertools
import os

from mc import kill
from mc.checks.sync import (CL, SITE, T0, cl_entries, files_of, seqs, set_state, vdata)
from mc.core import Check, Fail
from mc.world import BASE, STATE, World, diff, get, iso, put, snapshot, wipe, xml_doc

BIG = 150000


class C09(Check):
    id = 'C09'
    level = 'fault_enumeration'
    shim = True
    rule = ('one case = world x kind of sync; the run is killed before every file system effect and '
            'after torn prefixes of every write, then audited and run again')
    assumptions = ['process kill: completed system calls persist, user-space buffers are lost']

    def cases(self, tier):
        kinds = ['create', 'update', 'delete', 'same', 'big', 'bigup', 'empty', 'none']
        rels = ('a', 'd/e/b', 'c')
        for state in (0, 1):
            for delete in (1, 0):
                for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
                    for ks in itertools.product(kinds[:7], repeat=n):
                        if n == 2 and tier == 'quick' and ks.count('big') + ks.count('bigup') > 1:
                            continue
                        if n == 3 and (ks.count('big') + ks.count('bigup') > 1 or not delete):
                            continue
                        yield {'k': 'b', 'r': dict(zip(rels, ks)), 'state': state, 'delete': delete}
        n = 2 if tier == 'quick' else 3
        for have in ((), ('a',), ('a', 'd/e/b')):
            for seq in seqs(('a', 'd/e/b'), n, have):
                if not seq:
                    continue
                for start in ('state', 'from'):
                    for big in (0, 1):
                        for same in (0, 1):
                            yield {'k': 'i', 'have': have, 'seq': seq, 'start': start, 'big': big,
                                   'same': same}

    def setup(self, ctx):
        World.setup()
        kill.lib()

    def build(self, ctx, case):
        w = World(ctx)
        put('keep/me', b'precious', T0 - 5)
        put('dst-other/x', b'precious', T0 - 5)
        exp = {}
        if case['k'] == 'b':
            if case['state']:
                set_state(T0 - 100)
            set_state(T0 - 200, 'http://other.example/x')
            ents = []
            w.delete = bool(case['delete'])
            for i, (rel, k) in enumerate(case['r'].items()):
                data = b'' if k == 'empty' else (b'N%d' % i + b'x' * (BIG if k in ('big', 'bigup') else 6))
                if k in ('update', 'bigup', 'empty'):
                    put('dst/' + rel, (b'O' * len(data)) or b'OLD', T0 - 50)
                elif k == 'same':
                    put('dst/' + rel, data, T0 + i)
                elif k == 'delete':
                    put('dst/' + rel, b'gone soon', T0 - 50)
                    if not w.delete:
                        exp[rel] = b'gone soon'
                    continue
                ents.append({'loc': BASE + '/' + rel, 'lastmod': T0 + i, 'length': len(data)})
                w.web.docs[BASE + '/' + rel] = data
                exp[rel] = data
            ents.append({'loc': BASE + '/last', 'lastmod': T0 + 9, 'length': 4})
            w.web.docs[BASE + '/last'] = exp['last'] = b'last'
            w.web.docs[SITE] = xml_doc('resourcelist', ents)
            w.listed = {e['loc'][len(BASE) + 1:] for e in ents}
        else:
            w.delete = True
            set_state(T0 - 200, 'http://other.example/x')
            cur = {}
            ch = []
            for rel in case['have']:
                cur[rel] = (vdata(rel, 1), T0 - 50)
                put('dst/' + rel, *cur[rel])
                ch.append((T0 - 50, rel, 'created', cur[rel][0]))
            for i, (rel, k) in enumerate(case['seq']):
                t = T0 if case['same'] else T0 + i
                if k == 'deleted':
                    cur.pop(rel)
                    ch.append((t, rel, k, None))
                else:
                    cur[rel] = (vdata(rel, i + 2) * (30000 if case['big'] else 1), t)
                    ch.append((t, rel, k, cur[rel][0]))
            if case['start'] == 'state':
                set_state(T0 - 50)
            w.frm = iso(T0 - 60) if case['start'] == 'from' else None
            for rel, (d, t) in cur.items():
                w.web.docs[BASE + '/' + rel] = d
                exp[rel] = d
            w.web.docs[CL] = xml_doc('changelist', cl_entries(ch))
            w.web.docs[SITE] = xml_doc('resourcelist', [
                {'loc': BASE + '/' + rel, 'lastmod': t, 'length': len(d)} for rel, (d, t) in cur.items()])
            w.listed = set(cur)
        w.exp = exp
        return w

    def action(self, w, case):
        if case['k'] == 'b':
            return lambda: w.client().baseline_or_audit(allow_deletion=w.delete)
        return lambda: w.client().incremental(allow_deletion=True, from_datetime=w.frm)

    def run(self, ctx, case):
        w = self.build(ctx, case)
        old = w.remembered(SITE)
        outside = {k: f for k, f in snapshot('.').items() if not k.startswith('dst/')
                   and not k.startswith(STATE)}
        _, effects, res = kill.killed(ctx, w.x, self.action(w, case))
        ctx.expect(res[0] == 'ok', "sync failed: %s", res)
        new = w.remembered(SITE)

        def go():
            pts = kill.points(effects)
            if not pts:
                ctx.trivial()
                return
            i, torn = ctx.pick('kill', pts)
            w = self.build(ctx, case)
            dead, _, res = kill.killed(ctx, w.x, self.action(w, case), i, torn)
            at = 'killed at effect %d of %d (%s %s%s)' % (
                i, len(effects), effects[i][0], os.path.relpath(effects[i][2], w.x),
                ', %d bytes written' % torn if torn else '')
            ctx.expect(dead, "not killed? %s", at)
            ctx.state([case, i, torn])
            # state file readable
            try:
                st = w.remembered(SITE)
                other = w.remembered('http://other.example/x')
            except Exception as e:
                ctx.fail("%s: state file unreadable: %s" % (at, e))
            ctx.expect(st in (old, new), "%s: remembered time %s, was %s, would be %s", at, st, old, new)
            ctx.expect(other == T0 - 200, "%s: remembered time of another source lost (%s)", at, other)
            now = {k: f for k, f in snapshot('.').items() if not k.startswith('dst/')
                   and not k.startswith(STATE)}
            now = {k: f for k, f in now.items() if k in outside}
            ctx.expect(now == outside, "%s: outside files damaged: %s", at, diff(outside, now))
            # audit must not claim in sync
            have = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
            if w.listed:
                a = w.baseline(audit=True)
                ctx.expect(a.error is None, "%s: audit failed %s %s", at, a.error, a.message)
                wrong = [rel for rel in w.listed if have.get(rel) != w.exp[rel]]
                if a.status[0][0] == 'IN SYNC':
                    ctx.expect(not wrong, "%s: audit says in sync but %s differ", at, wrong)
                ctx.expect(a.status[0][1]['same'] <= len(w.listed) - len(wrong),
                           "%s: audit counts %d same, %d are right", at, a.status[0][1]['same'],
                           len(w.listed) - len(wrong))
            # recovery
            if case['k'] == 'b':
                o = w.baseline(delete=w.delete)
            else:
                o = w.incremental(delete=True, from_datetime=w.frm)
            ctx.expect(o.error is None, "%s: next run failed: %s %s", at, o.error, o.message)
            have = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
            ctx.expect(have == w.exp, "%s: after the next run %s, should be %s", at,
                       {k: v[:20] for k, v in have.items()}, {k: v[:20] for k, v in w.exp.items()})
            if case['k'] == 'b':
                a = w.baseline(audit=True)
                if w.delete:
                    ctx.expect(a.status[0][0] == 'IN SYNC', "%s: still %s", at, a.status[0][2])
            ctx.sample({'case': case, 'killed': at, 'effects': [e[0] for e in effects]})
        ctx.explore(go, stop_after=5)


class F01(C09):
    id = 'F01'
    level = 'fault_enumeration'
    shim = True
    rule = ('one case = world x kind of sync x failures ignored or not; every file system call of the run '
            '(open, read, write, rename, unlink, mkdir, utime) is made to fail, alone or with all later ones '
            'of its kind, writes also after a part; then state, destination, audit and the next run are checked')
    assumptions = ['scanning (listing directories, stat) is not made to fail']

    def cases(self, tier):
        kinds = ['create', 'update', 'delete', 'same', 'big', 'empty']
        rels = ('a', 'd/e/b', 'c')
        for ign in (0, 1):
            for state in (0, 1):
                for n in ((1, 2) if tier == 'quick' else (1, 2, 3)):
                    for ks in itertools.product(kinds, repeat=n):
                        if ks.count('big') > 1 or n == 3 and ('big' in ks or ks.count('same') > 1):
                            continue
                        if tier == 'quick' and n == 2 and state == ign:
                            continue
                        yield {'k': 'b', 'r': dict(zip(rels, ks)), 'state': state, 'delete': 1, 'ign': ign,
                               'hash': int('same' in ks)}
            for have in ((), ('a',), ('a', 'd/e/b')):
                for seq in seqs(('a', 'd/e/b'), 2 if tier == 'quick' else 3, have):
                    if not seq:
                        continue
                    for same in (0, 1):
                        yield {'k': 'i', 'have': have, 'seq': seq, 'start': 'state', 'big': 0, 'same': same,
                               'ign': ign, 'hash': 0}

    def action(self, w, case):
        kw = {'ignore_failures': bool(case['ign'])}
        if case['hash']:
            kw['hashes'] = ['md5']
        if case['k'] == 'b':
            return lambda: self.tell(w.baseline(delete=w.delete, **kw))
        return lambda: self.tell(w.incremental(delete=True, from_datetime=w.frm, **kw))

    @staticmethod
    def tell(o):
        return o.error, o.message, o.status

    def build(self, ctx, case):
        w = C09.build(self, ctx, case)
        if case['hash']:
            # digests make the run read local files
            import hashlib
            ents = []
            for rel in sorted(w.listed):
                data = w.exp[rel]
                i = {r: j for j, r in enumerate(case['r'])}.get(rel, 9)
                ents.append({'loc': BASE + '/' + rel, 'lastmod': T0 + i, 'length': len(data),
                             'hash': 'md5:' + hashlib.md5(data).hexdigest()})
            w.web.docs[SITE] = xml_doc('resourcelist', ents)
        return w

    def run(self, ctx, case):
        w = self.build(ctx, case)
        old = w.remembered(SITE)
        before = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
        outside = {k: f for k, f in snapshot('.').items() if not k.startswith('dst/')
                   and not k.startswith(STATE)}
        _, calls, res = kill.faulty(ctx, w.x, self.action(w, case))
        ctx.expect(res[0] == 'ok' and res[1][0] is None, "sync failed: %s", res)
        new = w.remembered(SITE)
        # the times that files have after a complete run
        whens = {k: f[2] / 10**9 for k, f in files_of(snapshot('dst')).items() if k in w.exp}

        def go():
            pts = kill.fault_points(calls)
            if not pts:
                ctx.trivial()
                return
            i, torn, what = ctx.pick('fault', pts)
            w = self.build(ctx, case)
            _, seen, res = kill.faulty(ctx, w.x, self.action(w, case), i, torn, what)
            at = '%s: call %d of %d (%s %s) fails%s' % (
                what, i, len(calls), calls[i][0], os.path.relpath(calls[i][2], w.x),
                ' after %d bytes' % torn if torn else '')
            ctx.expect(len(seen) > i, "%s: not reached?", at)
            ctx.expect(res[0] == 'ok', "%s: run ended with %s", at, res)
            error, message, status = res[1]
            ctx.state([case, i, torn, what])
            # the state file is readable, other sources keep their time
            try:
                st = w.remembered(SITE)
                other = w.remembered('http://other.example/x')
            except Exception as e:
                ctx.fail("%s: state file unreadable: %s" % (at, e))
            ctx.expect(other == T0 - 200, "%s: remembered time of another source lost (%s)", at, other)
            now = {k: f for k, f in snapshot('.').items() if not k.startswith('dst/')
                   and not k.startswith(STATE)}
            ctx.expect(now == outside, "%s: outside files damaged: %s", at, diff(outside, now))
            have = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
            right = have == w.exp
            if what == 'short':
                ctx.expect(error is None, "%s: %s %s", at, error, message)
            if error is not None:
                # an error never leaves a remembered time that hides something not done
                ctx.expect(st == old or right and st == new, "%s: error %s, remembered time %s, was %s", at,
                           message, st, old)
            else:
                # what it says it did it did
                s = status[-1]
                done = {k: 0 for k in ('created', 'updated', 'deleted')}
                for rel in set(before) | set(w.exp):
                    if rel not in w.exp:
                        done['deleted'] += rel not in have
                    elif have.get(rel) == w.exp[rel] != before.get(rel):
                        done['updated' if rel in before else 'created'] += 1
                if case['k'] == 'b' and s[0] != 'IN SYNC':
                    if s[0].startswith('PART'):
                        # then the number of those to delete is given
                        done['deleted'] = len(set(before) - set(w.exp))
                    got = {k: s[1].get(k, 0) for k in done}
                    ctx.expect(got == done, "%s: says %s, did %s", at, got, done)
                if right:
                    ctx.expect(st == new or st == old, "%s: remembered time %s, was %s", at, st, old)
                elif case['k'] == 'b' and st != old:
                    # then a time of the source at or before everything missed
                    t = dict((rel, T0 + j) for j, rel in enumerate(case['r']))
                    ctx.expect(not set(have) - set(w.exp) and st in list(t.values()) + [T0 + 9]
                               and all(st <= t.get(rel, T0 + 9) for rel in w.exp if have.get(rel) != w.exp[rel]),
                               "%s: remembered time %s, was %s, although the run missed something", at, st, old)
                late = [k for k, t in whens.items() if have.get(k) == w.exp[k] and before.get(k) != w.exp[k]
                        and os.stat('dst/' + k).st_mtime != t]
                ctx.expect(not late, "%s: completed, but times of %s not set", at, late)
                if not right and not case['ign']:
                    # deletions that fail are only warned about
                    missed = {k for k in w.exp if have.get(k) != w.exp[k]}
                    ctx.expect(not missed, "%s: completed, but %s are wrong", at, missed)
            if w.listed:
                a = w.baseline(audit=True)
                ctx.expect(a.error is None, "%s: audit failed %s %s", at, a.error, a.message)
                wrong = [rel for rel in w.listed if have.get(rel) != w.exp[rel]]
                if a.status[0][0] == 'IN SYNC':
                    ctx.expect(not wrong, "%s: audit says in sync but %s differ", at, wrong)
            # the same again without the fault
            if case['k'] == 'b':
                o = w.baseline(delete=w.delete)
            else:
                o = w.incremental(delete=True, from_datetime=w.frm)
            ctx.expect(o.error is None, "%s: next run failed: %s %s", at, o.error, o.message)
            have = {k: f[1] for k, f in files_of(snapshot('dst')).items()}
            ctx.expect(have == w.exp, "%s: after the next run %s, should be %s", at,
                       {k: v[:20] for k, v in have.items()}, {k: v[:20] for k, v in w.exp.items()})
            ctx.sample({'case': case, 'fault': at, 'outcome': [error, message[:200]]})
        ctx.explore(go, stop_after=5)


class C10(Check):
    id = 'C10'
    shim = True
    rule = ('sequences: one case = three source names, all states reachable by set/clear, breadth first; '
            'crash: one case = state x operation, every kill point with every torn prefix; schedules: one '
            'case = pair of operations x state, every interleaving of their system calls; fault: every call of a '
            'read and store made to fail')
    A, B, C = ('http://a.ex/resourcelist.xml', 'http://b.ex/resourcelist.xml', 'local/rl.xml')
    NAMES = [A, B, C, 'https://a.ex/resourcelist.xml', 'http://a.ex/resourcelist.xml/2', '/path/rl.xml',
             'http://\u00e9.ex/x', 'DEFAULT', 'incremental', '__name__', 'http://a.ex/?q=1;x#y%41',
             '[sect]', 'n' * 300, ' spaced', '#c', '%(x)s', 'rem', 'a=b', 'a:b:c', 'http://a.ex',
             'http://a.ex/resourcelist.xm', 'http://a.ex/resourcelist.xml?set=a', 'http://a.ex/resourcelist.xml?set=b',
             'http://a.ex/resourcelist.xml#a', 'http://a.ex/resourcelist.xml;v1', 'http://a.ex/x/../resourcelist.xml',
             'http://a.ex//resourcelist.xml', 'http://a.ex/resourcelist.xml/', 'http://a.ex:8080/resourcelist.xml',
             'http://u@a.ex/resourcelist.xml', 'http://www.a.ex/resourcelist.xml', 'ftp://a.ex/resourcelist.xml',
             '/other/rl.xml', 'rl.xml', './rl.xml', 'file:///path/rl.xml', 'http://a.ex/%61', 'http://a.ex/a',
             'http://a.ex/\u00e4', 'http://a.ex/\u00f6', 'http://a.ex/\u00f6\u00e4', 'http://a.ex/\u65e5', 'http://a.ex/\u672c',
             'http://a.ex/\u0663', 'http://a.ex/\u0664', 'http://a.ex/3', 'http://a.ex/33', 'http://a.ex/e', 'http://a.ex/\u00e9']
    VALUES = [0, 1600000000, 1600000000.123456, -5.5, 1e-7, 12345678901, 0.1]
    COLLIDE = [('http://s.ex/a-b', 'http://s.ex/a_b'), ('http://s.ex/List', 'http://s.ex/list')]

    def cases(self, tier):
        quick = tier == 'quick'
        vals = [0, 1600000000.123456] if quick else self.VALUES
        for i, j in itertools.combinations(range(len(self.NAMES)), 2):
            if i == 0 or j == i + 1 or not quick:
                yield {'k': 'seq', 'names': [self.NAMES[i], self.NAMES[j], 'third'], 'values': vals}
        for v in itertools.combinations(self.VALUES, 2):
            yield {'k': 'seq', 'names': [self.A, self.B, self.C], 'values': list(v)}
        for n in (31, 63, 64, 65, 100, 127, 128, 129, 200, 249, 255, 256, 257, 511, 513, 1023, 1025, 4097, 9000):
            long = 'http://a.ex/' + 'n' * n
            yield {'k': 'seq', 'names': [long + 'a', long + 'b', long], 'values': [1, 2.5]}
            yield {'k': 'seq', 'names': ['http://%s.ex/' % ('n' * n), 'http://%s.ex/' % ('n' * n + 'm'), long + '/x'], 'values': [3]}
        for v in (-1, -2208988800.25, 2 ** 31, 2 ** 32 - 1, 2 ** 32 + .5, 4102444800, 253402300799.5, 1e-6, 1e15, 123456789.123456789):
            yield {'k': 'seq', 'names': [self.A, self.B, self.C], 'values': [v, 5]}
        for n in (12, 33, 52, 65, 102, 130, 260, 520) + (() if quick else (1030, 2600)):
            yield {'k': 'many', 'n': n}
        for p in self.COLLIDE:
            yield {'k': 'seq', 'names': list(p), 'values': [1, 2], 'collide': 1}
        states = [{}, {self.A: 5}, {self.A: 5, self.B: 1600000000.5, self.C: 7},
                  {n: i + 0.5 for i, n in enumerate(self.NAMES[:12])}]
        for st in states:
            for site in (self.A, self.B):
                for v in ((1600000123.75, None) if quick else (12345, 1600000123.75, None)):
                    yield {'k': 'crash', 'state': st, 'site': site, 'v': v}
                    yield {'k': 'fault', 'state': st, 'site': site, 'v': v}
        ops = [['set', self.A, 11], ['set', self.A, 22], ['set', self.B, 33], ['set', self.A, None],
               ['get', self.A], ['get', self.B], ['set', 'http://' + 'long' * 60, 44]]
        for st in (states[:3:2] if quick else states):
            for o1, o2 in itertools.combinations_with_replacement(ops, 2):
                if o1[0] == 'get' and o2[0] == 'get':
                    continue
                yield {'k': 'race', 'state': st, 'ops': [o1, o2]}

    def setup(self, ctx):
        World.setup()
        kill.lib()

    def known(self, case, msg):
        if case and case.get('collide') and tuple(case['names']) in self.COLLIDE:
            return 'state-name-collision'

    def run(self, ctx, case):
        getattr(self, case['k'])(ctx, case)

    @staticmethod
    def cs():
        from resync.client_state import ClientState
        return ClientState()

    def fill(self, ctx, state):
        w = World(ctx)
        put('other', b'x', T0)
        for site, v in state.items():
            self.cs().set_state(site, v)
        return w

    def seq(self, ctx, case):
        from mc.core import Fail
        names, values = case['names'], case['values']
        if len(set(names)) < len(names):
            return
        w = self.fill(ctx, {})
        ctx.evaluations += 1
        ctx.nontrivial.add(repr(case))
        seen = {b'': {}}
        queue = [(b'', {})]
        while queue:
            raw, model = queue.pop(0)
            for site in names:
                for v in values + [None]:
                    if raw:
                        put(STATE, raw)
                    elif os.path.exists(STATE):
                        os.unlink(STATE)
                    m2 = dict(model)
                    if v is None:
                        m2.pop(site, None)
                        o = w.run(lambda: self.cs().set_state(site))
                    else:
                        m2[site] = v
                        o = w.run(lambda: self.cs().set_state(site, v))
                    ctx.expect(o.error is None, "storing %s for %r failed: %s %s", v, site, o.error,
                               o.message)
                    for s in names:
                        o = w.run(lambda: self.cs().get_state(s))
                        ctx.expect(o.error is None, "reading %r failed: %s %s (state %s)", s, o.error,
                                   o.message, m2)
                        ctx.expect(o.value == m2.get(s) and (o.value is None) == (s not in m2),
                                   "%r reads %r, last stored %r (after storing %r for %r)", s, o.value,
                                   m2.get(s), v, site)
                        ctx.expect(not o.effects, "reading changed files: %s", o.effects)
                    key = get(STATE) if os.path.exists(STATE) else b''
                    if key in seen:
                        ctx.expect(seen[key] == m2, "same file for %s and %s", seen[key], m2)
                    else:
                        seen[key] = m2
                        ctx.state([names, repr(key)])
                        queue.append((key, m2))
        ctx.sample({'names': names, 'states': len(seen)})

    def many(self, ctx, case):
        """Many sources: none is forgotten."""
        n = case['n']
        w = self.fill(ctx, {})
        ctx.evaluations += 1
        ctx.nontrivial.add(repr(case))
        model = {}

        def look(sites, when):
            for s in sites:
                v = self.cs().get_state(s)
                ctx.step()
                ctx.expect(v == model.get(s), "%s: %s reads %r, last stored %r", when, s, v, model.get(s))
        names = ['http://h%d.ex/%d/rl.xml' % (i * 7 % 13, i) for i in range(n)]
        for i, s in enumerate(names):
            model[s] = T0 + i + .25
            self.cs().set_state(s, model[s])
            look({names[0], names[i // 2], s}, '%d of %d stored' % (i + 1, n))
            ctx.state([n, i])
        look(names, 'all %d stored' % n)
        for s in (names[0], names[n // 2], names[-1]):
            for v in (T0 - 7, None, T0 + 9):
                model[s] = v
                if v is None:
                    self.cs().set_state(s)
                else:
                    self.cs().set_state(s, v)
                look(names if n < 150 else names[::17] + [s, names[-1]], '%s stored for %s' % (v, s))

    def crash(self, ctx, case):
        def op():
            self.cs().set_state(case['site'], case['v'])

        w = self.fill(ctx, case['state'])
        _, effects, res = kill.killed(ctx, w.x, op)
        ctx.expect(res[0] == 'ok', "store failed %s", res)

        def go():
            i, torn = ctx.pick('kill', kill.points(effects, fine=2000 if ctx.thorough else 40, step=20))
            w = self.fill(ctx, case['state'])
            dead, _, _ = kill.killed(ctx, w.x, op, i, torn)
            at = 'killed at effect %d of %d (%s%s)' % (i, len(effects), effects[i][0],
                                                       ', %d bytes written' % torn if torn else '')
            ctx.expect(dead, "not killed")
            ctx.state([case, i, torn])
            for s in set(case['state']) | {case['site'], self.C}:
                try:
                    v = self.cs().get_state(s)
                except Exception as e:
                    ctx.fail("%s: reading %r fails: %s" % (at, s, e))
                allowed = [case['state'].get(s)]
                if s == case['site']:
                    allowed.append(case['v'])
                ctx.expect(v in allowed, "%s: %r reads %r, allowed %r", at, s, v, allowed)
            # and the next store works
            self.cs().set_state(self.C, 99)
            ctx.expect(self.cs().get_state(self.C) == 99, "%s: next store does not work", at)
            ctx.sample({'case': case, 'killed': at})
        ctx.explore(go, stop_after=5)

    def fault(self, ctx, case):
        """One file system call fails: the time is stored or an error raised, and nothing else changes."""
        def op():
            self.cs().get_state(case['site'])
            self.cs().set_state(case['site'], case['v'])

        w = self.fill(ctx, case['state'])
        _, calls, res = kill.faulty(ctx, w.x, op)
        ctx.expect(res[0] == 'ok', "store failed %s", res)

        def go():
            i, torn, what = ctx.pick('fault', kill.fault_points(calls))
            w = self.fill(ctx, case['state'])
            _, seen, res = kill.faulty(ctx, w.x, op, i, torn, what)
            at = '%s: call %d of %d (%s%s) fails' % (what, i, len(calls), calls[i][0],
                                                    ', %d bytes written' % torn if torn else '')
            ctx.expect(len(seen) > i, "%s: not reached?", at)
            ctx.state([case, i, torn, what])
            for s in set(case['state']) | {case['site'], self.C}:
                try:
                    v = self.cs().get_state(s)
                except Exception as e:
                    ctx.fail("%s: reading %r fails: %s" % (at, s, e))
                old = case['state'].get(s)
                allowed = [old]
                if s == case['site']:
                    allowed = [case['v']] if res[0] == 'ok' else [old, case['v']]
                ctx.expect(v in allowed, "%s: result %s, %r reads %r, allowed %r", at, res, s, v, allowed)
            self.cs().set_state(self.C, 99)
            ctx.expect(self.cs().get_state(self.C) == 99, "%s: next store does not work", at)
            ctx.sample({'case': case, 'fault': at})
        ctx.explore(go, stop_after=5)

    def race(self, ctx, case):
        st, ops = case['state'], case['ops']

        def fn(op):
            if op[0] == 'get':
                return lambda: self.cs().get_state(op[1])
            return lambda: self.cs().set_state(op[1], op[2])

        def go():
            w = self.fill(ctx, st)
            results, trace = kill.Schedule(ctx, w.x, [fn(o) for o in ops]).run()
            ctx.state([case, trace])
            sites = set(st) | {o[1] for o in ops}
            stored = {s: {st.get(s)} | {o[2] for o in ops if o[0] == 'set' and o[1] == s}
                      for s in sites}
            for o, (kind, val) in zip(ops, results):
                ctx.expect(kind == 'ok', "%s failed with %s %s, schedule %s", o, kind, val, trace)
                if o[0] == 'get':
                    ctx.expect(val in stored[o[1]], "%s read %r, only %s were ever stored; schedule %s",
                               o, val, stored[o[1]], trace)
            for s in sites:
                try:
                    v = self.cs().get_state(s)
                except Exception as e:
                    ctx.fail("state unreadable afterwards: %s; schedule %s" % (e, trace))
                ctx.expect(v in stored[s], "%s reads %r, only %s were ever stored; schedule %s", s, v,
                           stored[s], trace)
            ctx.sample({'case': case, 'schedule': trace})
        ctx.explore(go, stop_after=5)


class D06(Check):
    id = 'D06'
    level = 'fault_enumeration'
    shim = True
    rule = ('one case = kind of document x number of entries x split limit (or dump shape); the writer '
            'is killed at every effect, with torn prefixes of every write, and what is found is read')
    assumptions = C09.assumptions

    def cases(self, tier):
        nmax = 4 if tier == 'quick' else 6
        for kind in ('resourcelist', 'changelist', 'capabilitylist', 'description', 'resourcedump',
                     'changedump', 'resourcedump-manifest', 'changedump-manifest', 'archive'):
            for n in range(0, nmax + 1):
                for pretty in (0, 1):
                    if kind in ('capabilitylist',) and n > 3 or kind == 'description' and n > 3:
                        continue
                    yield {'k': 'single', 'kind': kind, 'n': n, 'pretty': pretty}
        for kind in ('resourcelist', 'changelist'):
            for n in range(2, nmax + 3):
                for m in (2, 3, 4):
                    if m < n:
                        yield {'k': 'split', 'kind': kind, 'n': n, 'm': m}
        for n in (1, 2, 3):
            for files in (1, 2):
                for sep in (0, 1):
                    for size in (4, 20000):
                        yield {'k': 'dump', 'n': n, 'files': files, 'sep': sep, 'size': size}
        for n in (2, 3):
            for m in (None, 2):
                yield {'k': 'client', 'n': n, 'm': m}
        # a split list with long entries: more than one buffer per file
        yield {'k': 'split', 'kind': 'resourcelist', 'n': 90, 'm': 45}

    def setup(self, ctx):
        World.setup()
        kill.lib()

    def make(self, case):
        """(writer, {name: reader})"""
        from resync.resource import Resource
        from resync.resource_list import ResourceList
        from resync.change_list import ChangeList
        from resync.capability_list import CapabilityList
        from resync.source_description import SourceDescription
        from resync.resource_dump import ResourceDump
        from resync.change_dump import ChangeDump
        from resync.resource_dump_manifest import ResourceDumpManifest
        from resync.change_dump_manifest import ChangeDumpManifest
        from resync.archives import ResourceListArchive
        from resync.mapper import Mapper
        from resync.dump import Dump
        n = case['n']
        classes = {'resourcelist': ResourceList, 'changelist': ChangeList,
                   'resourcedump': ResourceDump, 'changedump': ChangeDump,
                   'resourcedump-manifest': ResourceDumpManifest,
                   'changedump-manifest': ChangeDumpManifest, 'archive': ResourceListArchive,
                   'capabilitylist': CapabilityList, 'description': SourceDescription}

        def fill(cls, kind):
            lst = cls()
            for i in range(n):
                uri = 'http://e.ex/out/r%03d' % i
                if kind == 'capabilitylist':
                    lst.add_capability(uri=uri, name=['resourcelist', 'changelist', 'resourcedump'][i])
                elif kind == 'description':
                    lst.add_capability_list(uri)
                else:
                    lst.add(Resource(uri=uri, timestamp=T0 + i, length=i,
                                     change='updated' if 'change' in kind else None))
            return lst

        def reader(cls):
            def read(path):
                lst = cls()
                lst.mapper = Mapper(['http://e.ex/out=out'])
                lst.read(uri=path)
                return [r.uri for r in lst]
            return read
        if case['k'] in ('single', 'split'):
            cls = classes[case['kind']]
            lst = fill(cls, case['kind'])
            lst.pretty_xml = bool(case.get('pretty'))
            if case['k'] == 'split':
                lst.max_sitemap_entries = case['m']
                lst.mapper = Mapper(['http://e.ex/out=out'])
            return (lambda: lst.write(basename='out/list.xml')), reader(cls), None
        if case['k'] == 'dump':
            for i in range(n):
                put('files/f%d' % i, (b'%d' % i) * case['size'], T0)
            lst = ResourceList()
            for i in range(n):
                lst.add(Resource(uri='http://e.ex/f%d' % i, timestamp=T0, path='files/f%d' % i))

            def write():
                d = Dump(resources=lst)
                d.max_files = case['files']
                d.write(basename='out/d', write_separate_manifests=bool(case['sep']))

            def readzip(path):
                import zipfile
                zf = zipfile.ZipFile(path)
                rdm = ResourceDumpManifest()
                rdm.parse(str_data=zf.read('manifest.xml').decode())
                return [(r.uri, zf.read(r.path)) for r in rdm]
            return write, reader(ResourceDumpManifest), readzip
        # the client's own tool path
        for i in range(n):
            put('out/t%d' % i, b'%d' % i, T0)
        from resync.client import Client
        c = Client()
        c.set_mappings(['http://e.ex/out=out'])
        c.max_sitemap_entries = case['m']
        return (lambda: c.write_resource_list(outfile='out/list.xml')), reader(ResourceList), None

    def run(self, ctx, case):
        def look(read, readzip):
            out = {}
            for name in sorted(os.listdir('out')):
                p = 'out/' + name
                if name[0] == 't':
                    continue
                try:
                    if name.endswith('.zip'):
                        out[name] = readzip(p)
                    elif name.endswith('.xml'):
                        out[name] = read(p)
                except Exception as e:
                    out[name] = None
            return out

        w = World(ctx)
        os.mkdir('out')
        write, read, readzip = self.make(case)
        _, effects, res = kill.killed(ctx, w.x, write)
        ctx.expect(res[0] == 'ok', "writing failed %s", res)
        full = look(read, readzip)
        ctx.expect(all(v is not None for v in full.values()), "complete result not readable: %s",
                   [k for k, v in full.items() if v is None])
        if case['k'] in ('single', 'split'):
            ctx.expect(len(full['list.xml']) == case['n'], "complete list reads %d of %d",
                       len(full['list.xml']), case['n'])

        def go():
            i, torn = ctx.pick('kill', kill.points(effects, fine=0 if not ctx.thorough else 3000, step=25))
            w = World(ctx)
            os.mkdir('out')
            write, read, readzip = self.make(case)
            dead, _, _ = kill.killed(ctx, w.x, write, i, torn)
            ctx.expect(dead, "not killed")
            ctx.state([case, i, torn])
            at = 'killed at effect %d of %d (%s %s%s)' % (
                i, len(effects), effects[i][0], os.path.basename(effects[i][2]),
                ', %d bytes written' % torn if torn else '')
            found = look(read, readzip)
            for name, v in found.items():
                if v is None:
                    continue
                ctx.expect(name in full, "%s: left %s", at, name)
                ctx.expect(v == full[name], "%s: %s reads %s, complete is %s", at, name, str(v)[:300],
                           str(full[name])[:300])
            ctx.sample({'case': case, 'killed': at, 'readable': [k for k, v in found.items() if v is not None]})
        ctx.explore(go, stop_after=5)

        # the same with one call failing instead
        w = World(ctx)
        os.mkdir('out')
        write, read, readzip = self.make(case)
        _, calls, res = kill.faulty(ctx, w.x, write)
        ctx.expect(res[0] == 'ok', "writing failed %s", res)

        def fail():
            i, torn, what = ctx.pick('fault', kill.fault_points(calls))
            w = World(ctx)
            os.mkdir('out')
            write, read, readzip = self.make(case)
            _, seen, res = kill.faulty(ctx, w.x, write, i, torn, what)
            at = '%s: call %d of %d (%s %s) fails%s' % (
                what, i, len(calls), calls[i][0], os.path.relpath(calls[i][2], w.x),
                ' after %d bytes' % torn if torn else '')
            ctx.expect(len(seen) > i, "%s: not reached?", at)
            ctx.state([case, i, torn, what])
            found = look(read, readzip)
            if res[0] == 'ok':
                ctx.expect(found == full, "%s: no error, and %s", at, diff(full, found))
            for name, v in found.items():
                if v is None:
                    continue
                ctx.expect(name in full, "%s: left %s", at, name)
                ctx.expect(v == full[name], "%s: %s, and %s reads %s, complete is %s", at, res, name, str(v)[:300],
                           str(full[name])[:300])
            ctx.sample({'case': case, 'fault': at, 'outcome': res[:2]})
        ctx.explore(fail, stop_after=5)
