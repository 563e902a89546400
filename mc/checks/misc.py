"""M01 mapping, T01 datetimes, B01 disk scan, B02 digests, W01 web requests."""

import base64
import hashlib
import itertools
import os
import time

from mc.core import Check, Fail
from mc import vtime
from mc.world import World, WEB, get, put, snapshot, diff, wipe


def outcome(fn):
    """(value, None) or (None, exception name)."""
    try:
        return fn(), None
    except Exception as e:
        return None, type(e).__name__ + ': ' + str(e)[:200]


# --- M01 ---------------------------------------------------------------------------------------

SEGS = ['a', 'ab', 'a.b', 'axb', 'a+', '(a', '[', '\\1', '\\g<0>', '\n', '%2e', '\u00e9', '$', '^a',
        'a b', '*', '', '.', '..', '|', '?', '{2}', '%s']
FEW = ['a', 'ab', 'a.b', 'axb', '(a', '', '\\1', '\n', '..', '$']
BASES = ['http://h.org', 'file:///d', '/s', 's', 'http://h.org:80']


def strip(x):
    while x.endswith('/'):
        x = x[:-1]
    return x


def applies(prefix, name):
    """Literal component-wise prefix rule; the rest of the name (with its slash) or None."""
    p = strip(prefix)
    if name == p:
        return '/'
    if len(name) > len(p) and all(name[i] == p[i] for i in range(len(p))) and name[len(p)] == '/':
        return name[len(p):]
    return None


def leaves(rel):
    """True if following rel component by component ever ends up above the start."""
    depth = 0
    for c in rel.split('/'):
        if c in ('', '.'):
            continue
        depth += -1 if c == '..' else 1
        if depth < 0:
            return True
    return False


class M01(Check):
    id = 'M01'
    rule = ('every mapping argument list / URI / path over the segment alphabet; an execution is '
            'non-trivial if at least one name of the case is mapped')
    assumptions = ['dot segments that lead out of the mapped tree are refused (C04), '
                   'and are only required to give an error or a path inside']

    def cases(self, tier):
        deep = tier == 'thorough'
        # one mapping: prefix of up to 2 segments
        segs = SEGS if deep else SEGS[:19]
        for b in BASES:
            for n in range(3):
                for p in itertools.product(segs if n < 2 or deep else FEW, repeat=n):
                    yield ['one', b, list(p)]
        # two mappings over the same few prefixes
        pre = [[]] + [[s] for s in FEW] + [['a', 'b'], ['a', 'a.b'], ['ab', '']]
        for p, q in itertools.product(pre, repeat=2):
            for r, s in itertools.product(pre if deep else pre[:6], repeat=2):
                yield ['two', p, q, r, s]
        for form in range(9):
            yield ['args', form]
        # every character, and every percent escape, in names and in the mapping itself
        for k in range(8):
            yield ['chars', k]
        hosts = ['h', 'h.org', 'h.org:80', 'u:p@h', '1', '-', 'h-', '_h', '.h', '..', '[::1]', '\u00e9',
                 'h_', 'h..', '...h', 'u@h:8', '_', '%41', '~', '~h']
        for h in hosts:
            yield ['default', h]
        # every host of up to 4 (5) characters
        for n in range(1, 6 if deep else 5):
            for t in itertools.product('h_.-@', repeat=n):
                if 'h' in t:
                    yield ['host', ''.join(t)]

    def setup(self, ctx):
        import logging
        log = logging.getLogger('resync')
        log.addHandler(logging.NullHandler())
        log.propagate = False

    def run(self, ctx, case):
        if case[0] == 'one':
            self.one(ctx, case[1], case[2])
        elif case[0] == 'two':
            self.two(ctx, *case[1:])
        elif case[0] == 'args':
            self.args(ctx, case[1])
        elif case[0] == 'chars':
            self.chars(ctx, case[1])
        elif case[0] == 'host':
            self.default(ctx, case[1], few=True)
        else:
            self.default(ctx, case[1])

    def one(self, ctx, base, segs):
        from resync.mapper import Mapper
        prefix = '/'.join([base] + segs)
        if '=' in prefix:
            return
        dsts = ['d', '/x/y', '/'.join(['d'] + segs)]
        names = [prefix + t for t in ('', '/', '//', 'x', '.', ' ')]
        tails = [[]] + [[a] for a in SEGS] + [list(t) for t in itertools.product(FEW, repeat=2)]
        if ctx.thorough:
            tails += [list(t) for t in itertools.product(FEW, repeat=3)]
        names += ['/'.join([prefix] + t) for t in tails if t]
        # names that differ from the prefix in one segment, or in one character
        for k in range(len(segs)):
            for s in SEGS:
                names.append('/'.join([base] + segs[:k] + [s] + segs[k + 1:] + ['x']))
        for k in range(len(prefix)):
            names.append(prefix[:k] + 'z' + prefix[k + 1:] + '/x')
            names.append(prefix[:k] + prefix[k + 1:] + '/x')
        names += ['x' + prefix, '/' + prefix, '\n' + prefix, prefix.upper() + '/x', '', '/', 'h.org/x']
        hit = 0
        for dst in dsts:
            for form in range(3):
                tr = ['', '/', '///'][form]
                m = Mapper([prefix + tr, dst + tr])
                for u in dict.fromkeys(names):
                    hit += self.check(ctx, m, [(prefix, dst)], u, (prefix + tr, dst + tr))
        if not hit:
            ctx.trivial()
        if len(segs) == 1:
            ctx.sample({'prefix': prefix, 'names': len(names)})

    def chars(self, ctx, part):
        from resync.mapper import Mapper
        odd = [chr(i) for i in range(1, 256) if i != 47] + list('\u0131\u0130\u00df\u03c2\u0301\u200b\u2028\u202e'
                                                               '\ufeff\uff0f\u2215\U0001f600\ud800')
        odd += ['%%%02x' % i for i in range(256)] + ['%%%02X' % i for i in range(160, 256)]
        odd += ['%', '%%', '%4', '%u002f', '&amp;', '&#47;', '~user', '$HOME', '${HOME}', '%(home)s', '{0}', '\\x2f',
                'C:', 'con', 'a' * 300, '...', 'e\u0301', '\u00e9']
        for c in odd[part::8]:
            for prefix, dst in (('http://h.org', 'd'), ('http://h.org/p', '/x/y'), ('s', 'd'),
                                ('http://h.org/' + c, 'd'), ('http://h.org/p' + c + 'q', 'd/' + c + 'd')):
                if '=' in prefix + dst:
                    continue
                m = Mapper([prefix, dst])
                for tail in (c, 'a' + c, c + 'a', 'a' + c + 'b', c + c, 'a/' + c + '/b', c + '/' + c, 'a' + c + '/b' + c,
                             'p' + c + 'q/x', c + '/x'):
                    for u in (prefix + '/' + tail, 'http://h.org/' + tail):
                        self.check(ctx, m, [(prefix, dst)], u, (prefix, dst))
        ctx.sample({'characters': [ascii(c) for c in odd[part::8]][:20]})

    def check(self, ctx, m, maps, u, what):
        """URI u through mapper m; and the same name as a path. Returns number mapped."""
        ctx.step(2)
        if len(ctx.states) < 300000:
            ctx.state([what, u])
        hit = 0
        # URI -> path
        want = None
        for p, d in maps:
            rel = applies(p, u)
            if rel is not None:
                want = (strip(p), strip(d), rel)
                break
        got, err = outcome(lambda: m.src_to_dst(u))
        if want is None:
            if err is None:
                raise Fail('mapping %r applied to URI %r, giving %r' % (what, u, got))
            if not err.startswith('MapperError'):
                raise Fail('mapping %r of URI %r raises %s' % (what, u, err))
        elif leaves(want[2]):
            if err is None:
                raise Fail('mapping %r takes URI %r out of the destination: %r' % (what, u, got))
        else:
            hit += 1
            if err is not None or got != want[1] + want[2]:
                raise Fail('mapping %r of URI %r gives %r, expected %r'
                           % (what, u, err or got, want[1] + want[2]))
            if len(maps) == 1:
                back, err = outcome(lambda: m.dst_to_src(got))
                orig = u if u != want[0] else u + '/'
                if err is not None or back != orig:
                    raise Fail('mapping %r takes URI %r to %r and back to %r'
                               % (what, u, got, err or back))
        # path -> URI : the same names made into paths
        for p, d in maps:
            if u.startswith(strip(p)):
                path = strip(d) + u[len(strip(p)):]
                break
        else:
            path = u
        want = None
        for p, d in maps:
            rel = applies(d, path)
            if rel is not None:
                want = (strip(p), strip(d), rel)
                break
        got, err = outcome(lambda: m.dst_to_src(path))
        if want is None:
            if err is None:
                raise Fail('mapping %r applied to path %r, giving %r' % (what, path, got))
            if not err.startswith('MapperError'):
                raise Fail('mapping %r of path %r raises %s' % (what, path, err))
        elif leaves(want[2]):
            pass
        else:
            hit += 1
            if err is not None or got != want[0] + want[2]:
                raise Fail('mapping %r of path %r gives %r, expected %r'
                           % (what, path, err or got, want[0] + want[2]))
            if len(maps) == 1:
                back, err = outcome(lambda: m.src_to_dst(got))
                orig = path if path != want[1] else path + '/'
                if err is not None or back != orig:
                    raise Fail('mapping %r takes path %r to %r and back to %r'
                               % (what, path, got, err or back))
        return hit

    def two(self, ctx, p, q, r, s):
        from resync.mapper import Mapper
        B = 'http://h.org'
        a, b = '/'.join([B] + p), '/'.join([B] + q)
        c, d = '/'.join(['d'] + r), '/'.join(['d'] + s)
        same = strip(a) == strip(b) or strip(c) == strip(d)
        args = [a + '=' + c, b + '=' + d]
        m, err = outcome(lambda: Mapper(args))
        ctx.step()
        if same:
            if err is None or not err.startswith('MapperError'):
                raise Fail('mappings %r with equal sides are accepted (%s)' % (args, err or m))
            return
        if err is not None:
            raise Fail('mappings %r are refused: %s' % (args, err))
        names = []
        for x in (a, b, B):
            names += [x, x + '/', x + '/x', x + 'x', x + '/a', x + '/a/b', x + '/a.b/x', x + '/axb/x',
                      x + '/ab/x', x + '//x', x + '/$/x']
        hit = 0
        for u in dict.fromkeys(names):
            hit += self.check(ctx, m, [(a, c), (b, d)], u, args)
        if len(m) != 2 or m.default_src_uri() != strip(a):
            raise Fail('mappings %r: default source %r of %d' % (args, m.default_src_uri(), len(m)))

    def args(self, ctx, form):
        """Mapping argument strings in the documented forms."""
        from resync.mapper import Mapper
        uris = ['http://h.org/a', 'http://h.org/a/', 'http://h.org', '/s/a', 's']
        paths = ['d', 'd/', '/x/d', '/x/d//', './d']

        def works(args, default, pairs):
            ctx.step()
            m, err = outcome(lambda: Mapper(args, use_default_path=default))
            if err is not None:
                raise Fail('mapping arguments %r refused: %s' % (args, err))
            if len(m) != len(pairs):
                raise Fail('mapping arguments %r give %d mappings' % (args, len(m)))
            for u, d in pairs:
                for v in (strip(u) + '/x', strip(u) + '/x/y'):
                    self.check(ctx, m, pairs, v, args)

        def refused(args, default):
            ctx.step()
            m, err = outcome(lambda: Mapper(args, use_default_path=default))
            if err is None or not err.startswith('MapperError'):
                raise Fail('mapping arguments %r (default path %s) accepted: %r'
                           % (args, default, err or m))
        for default in (False, True):
            if form == 0:
                for u, d in itertools.product(uris, paths):
                    works([u, d], default, [(u, d)])
            elif form == 1:
                for u, d in itertools.product(uris, paths):
                    works([u + '=' + d], default, [(u, d)])
            elif form == 2:
                for (u, v), (d, e) in itertools.product(itertools.permutations(uris, 2),
                                                        itertools.permutations(paths, 2)):
                    if strip(u) != strip(v) and strip(d) != strip(e):
                        works([u + '=' + d, v + '=' + e], default, [(u, d), (v, e)])
            elif form == 3:
                for u, d, e in itertools.product(uris, paths, paths):
                    refused([u + '=' + d, u.rstrip('/') + '=' + e], default)
                    refused([u + '=' + d, u.rstrip('/') + '/=' + e], default)
                for u, v, d in itertools.product(uris, uris, paths):
                    refused([u + '=' + d, v + '=' + strip(d)], default)
                    refused([u + '=' + d, v + '=' + strip(d) + '//'], default)
            elif form == 4:
                for u, d in itertools.product(uris, paths):
                    for bad in ([u + '=' + d + '=x'], [u + '=' + d, d], [d, u + '=' + d],
                                [u, d, 'x'], [u + '=' + d, u + '=' + d]):
                        refused(bad, default)
                if not default:
                    for u in uris:
                        refused([u], default)
            elif form == 5 and default:
                # a local source is mapped to itself
                for u in ('/s/a', 's', 's/t/'):
                    works([u], True, [(u, u)])
            elif form == 6:
                u = ['http://h.org/a', 'http://h.org/b', 'http://h.org/c', 'http://h.org/a/b']
                d = ['d', 'e', 'd/f', 'g']
                for k in (3, 4):
                    for us in itertools.permutations(u, k):
                        works([x + '=' + y for x, y in zip(us, d)], default, list(zip(us, d)))
            elif form == 7:
                m, err = outcome(lambda: Mapper())
                if err or len(m) != 0:
                    raise Fail('empty mapper: %s' % (err or len(m)))
                for f in (m.default_src_uri, lambda: m.src_to_dst('http://h.org/a'),
                          lambda: m.dst_to_src('d')):
                    v, err = outcome(f)
                    if err is None or not err.startswith('MapperError'):
                        raise Fail('empty mapper answers %r' % (err or v))

    def default(self, ctx, host, few=False):
        from resync.mapper import Mapper
        usable = any(c.isalnum() for c in host)
        n = 0
        for scheme in ('http',) if few else ('http', 'https', 'ftp', 'HTTP'):
            for k in range(2 if few else 4 if ctx.thorough else 3):
                for t in itertools.product(FEW + ['.', '%2f', '~', '...', '_'], repeat=k):
                    for q in ('', '?q', '#f', ';p')[:1 if few else 4]:
                        uri = '%s://%s' % (scheme, host) + ''.join('/' + x for x in t) + q
                        if '=' in uri:
                            continue
                        m, err = outcome(lambda: Mapper([uri], use_default_path=True))
                        ctx.step()
                        n += 1
                        if err is not None:
                            if usable and '[' not in uri:
                                raise Fail('no default path for %r: %s' % (uri, err))
                            continue
                        if not usable:
                            continue
                        p, err = outcome(lambda: m.src_to_dst(strip(uri) + '/x'))
                        if err is not None or not p.endswith('/x'):
                            raise Fail('default mapping of %r: %r' % (uri, err or p))
                        p = p[:-2]
                        if p == '' or '/' in p or '\\' in p or p.startswith('.') or '\n' in p \
                                or '\0' in p:
                            raise Fail('default path of %r is %r' % (uri, p))
        ctx.sample({'host': host, 'uris': n})


# --- T01 ---------------------------------------------------------------------------------------

def days_from_civil(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def month_days(y, m):
    if m == 2:
        return 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28
    return 30 if m in (4, 6, 9, 11) else 31


DIG = '0123456789'


def w3c(s):
    """Micros since epoch of a W3C datetime string; None if not one. Hand written scanner.

    Returns (micros, has_offset).  Year 0000 gives 'either'."""
    pos = 0

    def digits(n):
        nonlocal pos
        t = s[pos:pos + n]
        if len(t) != n or any(c not in DIG for c in t):
            return None
        pos += n
        return int(t)

    def lit(c):
        nonlocal pos
        if s[pos:pos + 1] == c:
            pos += 1
            return True
        return False
    y = digits(4)
    if y is None:
        return None
    mo = d = 1
    h = mi = sec = 0
    frac = 0
    off = 0
    n = len(s)
    if pos < n:
        if not lit('-'):
            return None
        mo = digits(2)
        if mo is None:
            return None
        if pos < n:
            if not lit('-'):
                return None
            d = digits(2)
            if d is None:
                return None
            if pos < n:
                if not lit('T'):
                    return None
                h = digits(2)
                if h is None or not lit(':'):
                    return None
                mi = digits(2)
                if mi is None:
                    return None
                if lit(':'):
                    sec = digits(2)
                    if sec is None:
                        return None
                    if lit('.'):
                        k = pos
                        while pos < n and s[pos] in DIG:
                            pos += 1
                        if pos == k:
                            return None
                        f = s[k:pos]
                        # microseconds, as a rational rounded half even is close enough:
                        # callers compare within half a microsecond
                        frac = int((f + '0' * 7)[:7])
                if lit('Z'):
                    pass
                else:
                    sg = s[pos:pos + 1]
                    if sg not in ('+', '-') or sg == '':
                        return None
                    pos += 1
                    oh = digits(2)
                    if oh is None or not lit(':'):
                        return None
                    om = digits(2)
                    if om is None:
                        return None
                    if oh > 23 or om > 59:
                        return None
                    off = (oh * 3600 + om * 60) * (1 if sg == '+' else -1)
                if pos != n:
                    return None
    if not (1 <= mo <= 12) or not (1 <= d <= month_days(y, mo)):
        return None
    if h > 23 or mi > 59 or sec > 59:
        return None
    secs = days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + sec
    return (secs, frac, off, y)


class T01(Check):
    id = 'T01'
    rule = ('every string of the field grid and of the one-edit neighbourhood of valid datetimes is '
            'parsed and compared with integer calendar arithmetic; every time of the grid is '
            'written and read back')
    assumptions = ['year 0000 may be refused']

    YEARS = ['0001', '1600', '1900', '1969', '1970', '1999', '2000', '2004', '2100', '9999', '0000',
             '202', '20200']
    MONTHS = ['00', '01', '02', '04', '11', '12', '13', '1', '001']
    DAYS = ['00', '01', '28', '29', '30', '31', '32', '1', '001']
    HOURS = ['00', '01', '12', '23', '24', '1', '-1']
    MINS = ['00', '01', '59', '60', '1']
    SECS = [None, '00', '01', '59', '60', '61', '1']
    FRACS = ['', '.0', '.5', '.000001', '.999999', '.1234567', '.', '.-1', ',5', '.5.5']
    ZONES = ['Z', '+00:00', '-00:00', '+01:00', '-05:30', '+23:59', '-23:59', '+24:00', '+14:60', '',
             'z', '+0100', '+01', 'Z ', ' Z', 'ZZ', 'UTC', '+1:00', '+01:0', 'Z+01:00', '\n', 'Z\n',
             '+01:00\n']
    SEEDS = ['2013', '2013-02', '2013-02-28', '2013-02-28T23:59Z', '2013-02-28T23:59+01:00',
             '2013-02-28T23:59:59Z', '2013-02-28T23:59:59-01:30', '2013-02-28T23:59:59.123456Z',
             '2013-02-28T23:59:59.5+11:00']
    EDIT = [chr(c) for c in range(32, 127)] + ['\n', '\t', '\r', '\0', '\u0663', '\u00b2', '\uff11',
                                              '\u00a0', '\u2212', '\u212a']

    def cases(self, tier):
        for y in self.YEARS:
            for m in self.MONTHS:
                yield ['date', y, m]
        for h in self.HOURS:
            for z in self.ZONES:
                yield ['time', h, z]
        for i in range(len(self.SEEDS)):
            for k in range(len(self.SEEDS[i]) + 1):
                yield ['edit', i, k]
        for a in range(-3, 48):
            yield ['write', a]
        for a in self.SEEDS:
            yield ['junk', a]
        if tier == 'thorough':
            for i in range(len(self.SEEDS)):
                for k in range(len(self.SEEDS[i]) + 1):
                    for k2 in range(k, len(self.SEEDS[i]) + 1):
                        yield ['edit2', i, k, k2]
            for a in (0, 1, 1600000000, 2 ** 31 - 1, 4102444799):
                for part in range(100):
                    yield ['micros', a, part]

    def known(self, case, msg):
        return 'offset-sign' if msg.startswith('[offset-sign]') else None

    def run(self, ctx, case):
        self.bad_sign = []
        getattr(self, 'do_' + case[0])(ctx, *case[1:])
        if self.bad_sign:
            raise Fail('[offset-sign] zone offset applied with the wrong sign: %r' % self.bad_sign[:3])

    def check(self, ctx, s):
        from resync.w3c_datetime import str_to_datetime
        ctx.step()
        ctx.state(s)
        want = w3c(s)
        got, err = outcome(lambda: str_to_datetime(s))
        if want is None:
            if err is None:
                raise Fail('%r is not a W3C datetime but is read as %r' % (s, got))
            if not err.startswith(('ValueError', 'ParserError', 'OverflowError')):
                raise Fail('%r is refused with %s' % (s, err))
            return
        secs, frac, off, y = want
        if y == 0 and err is not None:
            return
        if err is not None or not isinstance(got, (int, float)):
            raise Fail('%r is a W3C datetime but gives %r' % (s, err or got))
        tol = 0.5e-6 if abs(secs) < 2 ** 32 else 3e-5
        # compare whole and fractional part separately to keep precision
        if abs((got - (secs - off)) - frac / 1e7) <= tol:
            return
        if off and abs((got - (secs + off)) - frac / 1e7) <= tol:
            self.bad_sign.append(s)
            return
        raise Fail('%r is read as %r, expected %d + 0.%07d' % (s, got, secs - off, frac))

    def do_date(self, ctx, y, m):
        for s in (y, y + '-' + m, y + '-' + m + '-', y + m, y + '-'):
            self.check(ctx, s)
        for d in self.DAYS:
            for t in ('', 'T00:00Z', 'T23:59:59Z', 'T23:59:59.999999Z', 'T00:00+01:00', 'T', 'T00Z',
                      'T00:00', ' 00:00Z', 't00:00Z', 'T0000Z', 'Z'):
                self.check(ctx, y + '-' + m + '-' + d + t)
            self.check(ctx, y + m + d)

    def do_time(self, ctx, h, z):
        for date in ('2013-02-28', '1970-01-01', '2000-02-29', '1999-12-31'):
            for mi in self.MINS:
                for s in self.SECS:
                    for f in self.FRACS:
                        self.check(ctx, date + 'T' + h + ':' + mi + ('' if s is None else ':' + s)
                                   + f + z)

    def edits(self, s, k):
        yield s[:k] + s[k + 1:]
        for c in self.EDIT:
            yield s[:k] + c + s[k:]
            yield s[:k] + c + s[k + 1:]
        if k + 1 < len(s):
            yield s[:k] + s[k + 1] + s[k] + s[k + 2:]

    def do_edit(self, ctx, i, k):
        for t in self.edits(self.SEEDS[i], k):
            if t != '':
                self.check(ctx, t)

    def do_edit2(self, ctx, i, k, k2):
        few = '0129T:.-+Z z\n\u0663'
        s = self.SEEDS[i]
        for a in few:
            for b in few:
                self.check(ctx, s[:k] + a + s[k:k2] + b + s[k2:])
                self.check(ctx, s[:k] + a + s[k + 1:k2] + b + s[k2 + 1:])
        self.check(ctx, (s[:k] + s[k + 1:k2] + s[k2 + 1:]) or 'x')

    def do_junk(self, ctx, s):
        from resync.w3c_datetime import str_to_datetime
        for t in (s + ' ', ' ' + s, s + s, s + '\n' + s, s.lower() + 'x', 'now', 'None', '-', s + '/' + s,
                  'T' + s, s + 'T', 'today', '1 January 2013', '2013/02/28', '28-02-2013', '20130228',
                  '2013-W09', '2013-059', '-2013', '+2013', '1e3', '0x7d', 'nan', s + '\0'):
            self.check(ctx, t)
        v, err = outcome(lambda: str_to_datetime(None))
        if err or v is not None:
            raise Fail('no datetime is read as %r' % (err or v))
        v, err = outcome(lambda: str_to_datetime(''))
        if err is None:
            raise Fail('empty datetime is read as %r' % (v,))

    def round_trip(self, ctx, secs, micro):
        from resync.w3c_datetime import str_to_datetime, datetime_to_str
        ctx.step()
        t = secs + micro / 1e6
        s, err = outcome(lambda: datetime_to_str(t))
        if err:
            raise Fail('time %r cannot be written: %s' % (t, err))
        w = w3c(s)
        if w is None or not s.endswith('Z'):
            raise Fail('time %r is written as %r' % (t, s))
        whole = round(t * 1000000)
        if w[0] * 10000000 + w[1] != whole * 10:
            raise Fail('time %r is written as %r' % (t, s))
        b, err = outcome(lambda: str_to_datetime(s))
        if err or round(b * 1000000) != whole:
            raise Fail('time %r is written as %r and read as %r' % (t, s, err or b))
        if micro in (0, 1, 999999):
            n, err = outcome(lambda: datetime_to_str(t, no_fractions=True))
            if secs >= 0 and (err or w3c(n) is None or w3c(n)[0] != secs or w3c(n)[1]):
                raise Fail('time %r is written without fraction as %r' % (t, err or n))

    def do_write(self, ctx, a):
        base = [a * 86400 * 365, a * 86400 * 365 + 86399, a * 86400 * 366 + 59, a * 31556952 + 3600]
        micros = [0, 1, 999999, 500000, 499999, 123456]
        for p in range(6):
            for d in range(1, 10):
                micros.append(d * 10 ** p)
                for q in range(p):
                    for e in (1, 5, 9):
                        micros.append(d * 10 ** p + e * 10 ** q)
        for secs in base:
            for m in micros:
                self.round_trip(ctx, secs, m)
        from resync.w3c_datetime import str_to_datetime, datetime_to_str
        # the current time
        t0 = time.time()
        s = datetime_to_str()
        b, err = outcome(lambda: str_to_datetime(s))
        if err or not (t0 - 1e-3 <= b <= time.time() + 1e-3):
            raise Fail('now is written as %r' % s)
        if datetime_to_str(None) is not None:
            raise Fail('no time is written as %r' % datetime_to_str(None))

    def do_micros(self, ctx, a, part):
        for m in range(part * 10000, (part + 1) * 10000):
            self.round_trip(ctx, a, m)


# --- B01 ---------------------------------------------------------------------------------------

NAMES = ['a', '.h', 'b c', '\u00e9', 'x+(1)', 'a.txt', 'ab', 'd']
PATTERNS = [[], ['a'], ['.*\\.txt'], ['\\.'], ['b', 'd'], ['d$'], ['.*'], ['a$', '\u00e9'], ['x\\+'],
            ['sub'], ['T']]
TMT = [1500000000.123457, 1600000000, -100000.25]


class B01(Check):
    id = 'B01'
    rule = ('every tree of the stated product x scan configuration; the list is compared with a '
            'reference walk')
    assumptions = ['no special files (devices, pipes) and no file changing during the scan']

    KINDS = ['file', 'empty', 'link', 'dangling', 'dirlink', 'dir']

    def cases(self, tier):
        deep = tier == 'thorough'
        # contents of the top directory: two slots; contents of sub: two slots
        for n1, n2 in itertools.combinations(NAMES, 2):
            for k1, k2 in itertools.product(self.KINDS + [None], repeat=2):
                if (k1 is None and k2 is not None):
                    continue
                for sub in ((None, 'file', 'all') if not deep else (None, 'file', 'all', 'deep', 'empty')):
                    yield [n1, k1, n2, k2, sub]
        for n in (9, 13, 17, 33, 65, 120, 250, 500) + ((900,) if deep else ()):
            yield ['deep', n]
        for n in (11, 33, 65, 130, 260, 520, 1030, 2600) + ((20000, 70000) if deep else ()):
            for kind in ('files', 'dirs', 'both'):
                yield ['wide', n, kind]
        for n in (99, 100, 101, 127, 128, 129, 200, 250, 251, 254, 255):
            yield ['long', n]
        for t in (-1, -0.5, -86400, -2208988800, 0, 0.25, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + .5, 4102444800, 8 * 10 ** 9):
            yield ['dated', t]
        for n in (2 ** 14 - 1, 2 ** 14, 2 ** 14 + 1, 2 ** 16 + 1, 2 ** 20 - 1, 2 ** 20 + 1, 10 ** 7, 2 ** 24 + 1):
            yield ['big', n]
        # names that continue one another, in every order of creation
        for ns in itertools.permutations(('x', 'xy', 'yx', 'x.', 'X', 'xx'), 3):
            for kind in ('dirs', 'files', 'mixed'):
                yield ['alike', list(ns), kind]

    def extreme(self, ctx, case):
        """Trees with one property far beyond the usual."""
        w = World(ctx)
        kind, n = case[:2]
        os.mkdir('t')
        if kind == 'deep':
            # (names shorter than what the system allows in one path)
            put('t/' + 'd/' * n + 'a', b'deep', TMT[0])
            put('t/' + 'd/' * (n // 2) + 'b', b'half', TMT[1])
        elif kind == 'wide':
            for i in range(n):
                put(('t/f%05d' if case[2] == 'files' else 't/d%05d/a' if case[2] == 'dirs' or i % 2 else 't/f%05d') % i,
                    b'%d' % i, TMT[i % 3])
        elif kind == 'long':
            put('t/' + 'n' * n, b'1', TMT[0])
            put('t/' + 'd' * n + '/' + 'e' * n + '/' + 'f' * n, b'2', TMT[1])
            put('t/' + '\u00e9' * (n // 2), b'3', TMT[2])
        elif kind == 'alike':
            for i, name in enumerate(n):
                for pre in ('t/', 't/k/'):
                    if case[2] == 'files' or case[2] == 'mixed' and i == 1:
                        put(pre + name, b'%d' % i, TMT[i % 3])
                    else:
                        put(pre + name + '/' + n[i - 1], b'%d' % i, TMT[i % 3])
                        put(pre + name + '/b', b'b%d' % i, TMT[i % 3])
                put('t/z%d' % i, b'z', TMT[0])
        elif kind == 'dated':
            put('t/a', b'a', n)
            put('t/d/a', b'b', TMT[1])
        elif kind == 'big':
            put('t/a', (b'0123456789abcde' * (n // 15 + 1))[:n], TMT[0])
            put('t/d/a', b'b', TMT[1])
        before = snapshot('.') if kind != 'big' else {'t/a': ('f',), 't/d/a': ('f',)}
        files = sorted(k for k, v in before.items() if k.startswith('t/') and v[0] == 'f')
        alike = kind == 'alike'
        for pat in ([], ['zz']) if not alike else (['x'], ['xy'], ['x', 'yx'], ['.*x$'], ['x$', 'xx'], ['(?i)x']):
            for opt in ((1, 1, ('md5', 'sha-256')), (0, 0, ())) if not alike else ((0, 0, ()),):
                for how in ('map', 'abs', 'paths', 'extend') if not alike else ('map', 'paths'):
                    self.scan(ctx, w, 'http://src.example/x.y', pat, opt, how, files, None)

    def setup(self, ctx):
        World.setup()

    def put(self, path, kind, i):
        if kind in ('file', 'empty'):
            put(path, b'' if kind == 'empty' else b'content %d of ' % i + os.fsencode(path), TMT[i % 3])
        elif kind == 'link':
            os.symlink('../target', path)
        elif kind == 'dangling':
            os.symlink('nowhere', path)
        elif kind == 'dirlink':
            os.symlink('../tdir', path)
        elif kind == 'dir':
            os.mkdir(path)
            put(path + '/in', b'in', TMT[0])
            put(path + '/a', b'', TMT[1])

    def run(self, ctx, case):
        if len(case) < 4:
            return self.extreme(ctx, case)
        n1, k1, n2, k2, sub = case
        w = World(ctx)
        put('target', b'target', TMT[0])
        os.mkdir('tdir')
        put('tdir/f', b'tf', TMT[1])
        os.mkdir('t')
        if k1:
            self.put('t/' + n1, k1, 0)
        if k2:
            self.put('t/' + n2, k2, 1)
        if sub:
            os.mkdir('t/sub')
            if sub != 'empty':
                put('t/sub/a', b'sub a', TMT[2])
            if sub in ('all', 'deep'):
                put('t/sub/\u00e9.txt', b'z' * 20000, TMT[1])
                os.symlink('a', 't/sub/l')
            if sub == 'deep':
                put('t/sub/sub/.h', b'h', TMT[0])
                put('t/sub/d/d/d', b'd', TMT[0])
        before = snapshot('.')
        files = sorted(k for k, v in before.items() if k.startswith('t/') and v[0] == 'f')
        if not files:
            ctx.trivial()
        ctx.state(case)
        B = 'http://src.example/x.y'
        for pat in PATTERNS:
            for opt in ((0, 0, ()), (1, 0, ()), (1, 1, ()), (1, 0, ('md5',)), (0, 1, ('sha-1', 'sha-256')),
                        (1, 0, ('md5', 'sha-1', 'sha-256'))):
                if opt[2] and pat not in PATTERNS[:3]:
                    continue
                for how in ('map', 'map/', 'abs', 'paths', 'two', 'file', 'extend'):
                    if how not in ('map', 'paths') and (opt[2] or opt[1]):
                        continue
                    if how == 'two' and sub is None:
                        continue
                    self.scan(ctx, w, B, pat, opt, how, files, sub)
        d = diff(before, snapshot('.'))
        if d:
            raise Fail('scan modified the tree: ' + d)
        ctx.sample({'files': files})

    def scan(self, ctx, w, B, pat, opt, how, files, sub):
        import re
        from resync.mapper import Mapper
        from resync.resource_list import ResourceList
        from resync.resource_list_builder import ResourceListBuilder
        length, path, hashes = opt
        ctx.state([ctx.case, pat, opt, how])
        root = 't'
        args = {}
        mp = [B, 't']
        prior = None
        if how == 'map/':
            mp = [B + '/', 't/']
        elif how == 'abs':
            root = os.path.join(w.x, 't')
            mp = [B, root]
        elif how == 'paths':
            args['paths'] = ['t']
        elif how == 'two':
            mp = ['http://src.example/s=t/sub', B + '=t']
            args['paths'] = ['t']
        elif how == 'file':
            if not files:
                return
            args['paths'] = [f for f in files]
        elif how == 'extend':
            prior = ResourceList()
            from resync.resource import Resource
            prior.add(Resource(uri='http://other/x', length=5))
            prior.md_at = '2020-01-01T00:00:00Z'
            args['resource_list'] = prior

        def skip(name):
            return any(re.match(p, name) for p in pat)
        want = {}
        maybe = set()
        for f in files:
            comps = f.split('/')[1:]
            uri = B + f[1:]
            if how == 'two' and f.startswith('t/sub/'):
                uri = 'http://src.example/s' + f[len('t/sub'):]
            if how == 'file':
                # an explicitly named file: patterns apply to its name; a pattern that
                # tells path and name apart is outside the property
                if skip(comps[-1]) != skip(f):
                    maybe.add(uri)
            elif any(skip(c) for c in comps):
                continue
            elif False:
                continue
            if how == 'file' and uri not in maybe and skip(f):
                continue
            want[uri] = root + f[1:]
        b = ResourceListBuilder(mapper=Mapper(mp), set_hashes=set(hashes) or None,
                                set_length=bool(length), set_path=bool(path))
        # patterns given at once or in several steps
        for k in range(0, len(pat), 1 if length else max(len(pat), 1)):
            b.add_exclude_patterns(pat[k:k + 1] if length else pat)
        o = w.run(lambda: b.from_disk(**args))
        what = 'scan (%s) of %s excluding %r options %s' % (how, files, pat, opt)
        if o.error:
            raise Fail('%s fails: %s %s' % (what, o.error, o.message))
        if o.effects:
            raise Fail('%s has effects: %r' % (what, o.effects[:3]))
        got = {}
        n = 0
        for r in o.value:
            n += 1
            got[r.uri] = r
        if prior is not None:
            if o.value is not prior or 'http://other/x' not in got \
                    or got.pop('http://other/x').length != 5:
                raise Fail('%s: the given list was not extended' % what)
            if prior.md_at != '2020-01-01T00:00:00Z':
                raise Fail('%s: at of the given list changed to %s' % (what, prior.md_at))
            n -= 1
        if n != len(got):
            raise Fail('%s lists a resource twice' % what)
        for u in maybe:
            got.pop(u, None)
            want.pop(u, None)
        if set(got) != set(want):
            raise Fail('%s: missing %s, extra %s' % (what, sorted(set(want) - set(got)),
                                                    sorted(set(got) - set(want))))
        for u, p in want.items():
            r = got[u]
            st = os.stat(p)
            data = get(p)
            exp = {'timestamp': st.st_mtime, 'length': st.st_size if length else None,
                   'md5': hashlib.md5(data).hexdigest() if 'md5' in hashes else None,
                   'sha1': hashlib.sha1(data).hexdigest() if 'sha-1' in hashes else None,
                   'sha256': hashlib.sha256(data).hexdigest() if 'sha-256' in hashes else None}
            for k, v in exp.items():
                if getattr(r, k) != v:
                    raise Fail('%s: %s of %s is %r, expected %r' % (what, k, u, getattr(r, k), v))
            if path:
                if r.path is None or not os.path.samefile(r.path, p):
                    raise Fail('%s: path of %s is %r' % (what, u, r.path))
            elif r.path is not None:
                raise Fail('%s: path of %s given unasked' % (what, u))
        if o.value.md_at is None or o.value.md_completed is None:
            raise Fail('%s: no at/completed time' % what)


# --- B02 ---------------------------------------------------------------------------------------

TYPES = ['md5', 'sha-1', 'sha-256']
ATT = {'md5': 'md5', 'sha-1': 'sha1', 'sha-256': 'sha256'}


class B02(Check):
    id = 'B02'
    rule = 'every (block size, length, types, previous file) and every digest string of the alphabet'

    def cases(self, tier):
        blocks = [None, 1, 2, 63, 64, 65, 128, 256, 1000, 2 ** 12]
        if tier == 'thorough':
            blocks += [3, 55, 56, 57, 127, 129, 2 ** 14, 2 ** 16, 2 ** 20]
        for b in blocks:
            for k in range(5 if b is None or b > 128 else 9):
                yield ['file', b, k]
        for n in (2 ** 20, 2 ** 22, 2 ** 24) + ((2 ** 26, 2 ** 28) if tier == 'thorough' else ()):
            for d in (-1, 0, 1):
                yield ['big', n + d]
        for n in (12, 33, 130, 1030):
            yield ['turns', n]
        n = 4 if tier == 'thorough' else 3
        for k in range(n + 1):
            for first in range(len(self.PARTS) if k else 1):
                yield ['string', k, first]
        yield ['types']

    PARTS = ['md5:aa', 'md5:bb', 'sha-1:cc', 'sha-256:dd', 'sha-1:e:f', 'sha-512:gg', 'MD5:hh', 'sha-256:ii', 'junk', ':jj',
             'md5']

    def run(self, ctx, case):
        if case[0] == 'file':
            self.file(ctx, case[1], case[2])
        elif case[0] == 'string':
            self.string(ctx, case[1], case[2])
        elif case[0] == 'big':
            from resync.hashes import Hashes
            w = World(ctx)
            data = (b'0123456789abcde' * (case[1] // 15 + 1))[:case[1]]
            put('f', data)
            for types in (['md5'], ['sha-1'], ['sha-256'], TYPES):
                o = w.run(lambda: Hashes(types, 'f'))
                if o.error:
                    raise Fail('digests %r of %d bytes: %s %s' % (types, case[1], o.error, o.message))
                self.compare(o.value, types, data, None)
                ctx.step()
        elif case[0] == 'turns':
            from resync.hashes import Hashes
            w = World(ctx)
            for i in range(7):
                put('f%d' % i, b'%d' % i * i)
            h = Hashes(set(TYPES))
            for i in range(case[1]):
                h.compute_for_file('f%d' % (i % 7))
                self.compare(h, TYPES, b'%d' % (i % 7) * (i % 7), None)
                ctx.step()
        else:
            from resync.hashes import Hashes
            for bad in ('md4', 'sha1', 'MD5', 'sha-512', '', 'md5 ', 'sha256'):
                for good in ([], ['md5'], ['sha-1', 'sha-256']):
                    for order in (good + [bad], [bad] + good):
                        v, err = outcome(lambda: Hashes(order))
                        if err is None:
                            raise Fail('digest types %r accepted' % order)
                        ctx.step()

    def file(self, ctx, block, mult):
        from resync.hashes import Hashes
        from resync.resource import Resource
        w = World(ctx)
        b = block or 2 ** 14
        lengths = sorted({max(0, mult * b + d) for d in (-1, 0, 1)})
        subsets = [s for k in range(4) for s in itertools.combinations(TYPES, k)]
        contents = []
        for n in lengths:
            contents.append((b'\0' * n))
            contents.append(bytes((i * 7 + i // 251) % 256 for i in range(n)))
            contents.append(b'\r\n\x1a\xff'[:n].ljust(n, b'\n'))
        for i, c in enumerate(contents):
            put('f%d' % i, c)
        for types in subsets:
            for kind in (set, list, tuple):
                h = Hashes(kind(types))
                # one object for several files, in turn, each preceded by a different one
                order = list(range(len(contents))) + list(range(len(contents)))[::-1] if kind is set \
                    else [0, len(contents) - 1]
                for i in order:
                    if block is None:
                        o = w.run(lambda: h.compute_for_file('f%d' % i))
                    else:
                        o = w.run(lambda: h.compute_for_file('f%d' % i, block_size=block))
                    if o.error:
                        raise Fail('digests %r of %d bytes: %s %s' % (types, len(contents[i]), o.error,
                                                                      o.message))
                    self.compare(h, types, contents[i], block)
                    ctx.state([block, len(contents[i]), i % 3, types])
                    r = Resource(uri='http://x/y', md5='old', sha1='old', sha256='old')
                    h.set(r)
                    for t in TYPES:
                        want = self.true(t, contents[i]) if t in types else 'old'
                        if getattr(r, ATT[t]) != want:
                            raise Fail('digest %s set for resource is %r' % (t, getattr(r, ATT[t])))
            if block is None:
                for i, c in enumerate(contents):
                    h = Hashes(types, 'f%d' % i)
                    self.compare(h, types, c, block)
                    ctx.step()
        ctx.sample({'block': b, 'lengths': lengths})

    @staticmethod
    def true(t, data):
        return hashlib.new(t.replace('-', ''), data).hexdigest()

    def compare(self, h, types, data, block):
        for t in TYPES:
            want = self.true(t, data) if t in types else None
            got = getattr(h, ATT[t])
            if got != want:
                raise Fail('%s of %d bytes read in blocks of %s is %r, expected %r (asked for %r)'
                           % (t, len(data), block, got, want, types))

    def string(self, ctx, k, first):
        from resync.resource import Resource
        for rest in itertools.product(self.PARTS, repeat=max(0, k - 1)):
            parts = ([self.PARTS[first]] if k else []) + list(rest)
            for sep in (' ', '  ', '\n', '\t'):
                s = sep.join(parts)
                for pad in ('', ' '):
                    ctx.step()
                    want = {}
                    bad = False
                    seen = set()
                    for p in parts:
                        t, sep, v = p.partition(':')
                        if not sep:
                            bad = True
                            continue
                        if t in seen or t not in ATT:
                            bad = True
                        elif t in ATT:
                            want[ATT[t]] = v
                        seen.add(t)
                    r = Resource(uri='http://x/y', md5='old', sha1='old', sha256='old')
                    err = None
                    try:
                        r.hash = pad + s + pad
                    except ValueError as e:
                        err = str(e)
                    except Exception as e:
                        raise Fail('digest string %r: %r' % (s, e))
                    if (err is not None) != bad:
                        raise Fail('digest string %r: %s' % (s, err or 'problem not reported'))
                    got = {a: getattr(r, a) for a in ATT.values() if getattr(r, a) is not None}
                    if got != want:
                        raise Fail('digest string %r gives %r, expected %r' % (s, got, want))
                    out = r.hash
                    exp = ' '.join(t + ':' + want[ATT[t]] for t in TYPES if ATT[t] in want) or None
                    if out is None or exp is None:
                        if out != exp:
                            raise Fail('digests %r written as %r' % (want, out))
                    elif sorted(out.split(' ')) != sorted(exp.split(' ')):
                        raise Fail('digests %r written as %r' % (want, out))
                    if out is not None:
                        r2 = Resource(uri='http://x/y')
                        r2.hash = out
                        if (r2.md5, r2.sha1, r2.sha256) != (r.md5, r.sha1, r.sha256):
                            raise Fail('digests %r written as %r read back differently' % (want, out))


# --- W01 ---------------------------------------------------------------------------------------

class W01(Check):
    id = 'W01'
    rule = ('every sequence of requests and configuration changes up to the depth; every kind of run '
            'with token and delay')
    assumptions = ['time is virtual; requests end at an in-process handler of urllib']

    URIS = ['http://src.example/a', 'https://src.example/b?x=1', 'f.txt', 'FILE', 'HTTP://src.example/a',
            './sub/g']
    EVENTS = [['get', 0], ['get', 1], ['head', 0], ['timeout', 1], ['get', 2], ['get', 3], ['get', 5],
              ['fail', 0], ['token', 'T1'], ['token', None], ['delay', 1.5], ['delay', None],
              ['delay', 0.25]]

    TAILS = ['', '/', '/a', '/a/', '/a//', '//a', '/a/b/c/d', '/a/b/c/d/', '/a?', '/a?x', '/a?x=1&y=2', '/a/?x', '/?x', '?x', '/a;p',
             '/a;p/', '/./a', '/a/./b', '/a/../b', '/..', '/.a', '/a.', '/%61', '/%2F', '/%2f', '/a%20b', '/a+b', '/a:b',
             '/a@b', '/a=b', '/A', '/~a', "/'", '/(a)', '/*', '/$a', '/,', '/a|b', '/a"b', '/<a>', '/{a}', '/a\\b', '/^',
             '/`', '/[a]', '/http://e.ex/a', '/a?u=http://e.ex/', '/file:/a', '/' + 'a' * 300, '/%', '/a%', '/%zz', '/a?b?c', '/!',
             '/index.html', '/a.xml']
    FILES = ['a', '.a', 'a.', ' a', 'a ', 'a\n', '%61', 'a%20b', 'a%2fb', 'a%', '%', '%%', 'a#b', '#', '#a', 'a?b', '?', 'a;b', 'a&b', 'a=b',
             'a+b', '<a>', 'a"b', "a'b", 'a\\b', '-a', '~', '~a', '$a', '{a}', '[a]', 'a|b', 'a^b', '`a`', '*', 'a*', 'a,b', 'a@b',
             '\u00e9', 'e\u0301', '\u4e2d', '\U0001f600', 'a b', 'a\tb', 'n' * 200, 'URL', 'A', 'file', 'http', 'localhost', 'a\u00a0b', '...', '..a']
    HOSTS = ['http://src.example', 'https://src.example', 'http://src.example:80', 'http://src.example:8080', 'HTTP://SRC.example',
             'http://u@src.example', 'http://u:p@src.example', 'http://127.0.0.1', 'http://[::1]', 'http://src.example.', 'ftp://src.example']

    def cases(self, tier):
        depth = 5 if tier == 'thorough' else 4
        for n in self.FILES:
            yield ['file', n]
        for h in self.HOSTS:
            for t in self.TAILS:
                yield ['uri', h, t]
        for n in (11, 33, 65, 101, 130, 260, 520, 1030, 2600):
            for delay in (None, 1):
                yield ['many', n, delay, 'tok']
        for delay in (0.001, 0.01, 1, 9, 10, 11, 30, 59, 60, 61, 99, 100, 300, 3599, 3600, 3601, 86400, 10 ** 6):
            yield ['many', 5, delay, None]
        for token in ('', 'x', 'a b', 'a=', '=', '\u00e9', 'Bearer t', ' a', 'a ', 'a:b', '"a"', '%41', 'a%', 'a,b', 'a;b', '0', 'None', 'a/b+c',
                      *('t' * n for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4097, 9000))):
            yield ['many', 3, None, token]
        for pre in itertools.product(range(len(self.EVENTS)), repeat=2):
            yield ['seq', list(pre), depth - 2]
        for token in (None, 'tok/en+='):
            for delay in (None, 0.5, 2):
                for kind in ('baseline', 'audit', 'incremental', 'discovery', 'index', 'explorer',
                             'faults', 'local'):
                    yield ['run', kind, token, delay]

    def setup(self, ctx):
        World.setup()
        import resync.url_or_file_open as m
        # can the count of requests be reset from here? (else "first" is not testable twice)
        w = World(ctx)
        w.web.docs = {'http://src.example/a': b'doc a'}
        for _ in range(2):
            self.fresh()
            m.set_url_or_file_open_config('delay', 1)
            del vtime.slept[:]
            m.url_or_file_open('http://src.example/a').close()
        self.resets = not vtime.slept

    def run(self, ctx, case):
        if case[0] == 'seq':
            for n in range(case[2] + 1):
                for rest in itertools.product(range(len(self.EVENTS)), repeat=n):
                    self.seq(ctx, [self.EVENTS[i] for i in case[1] + list(rest)])
        elif case[0] == 'file':
            self.file(ctx, case[1])
        elif case[0] == 'uri':
            self.uri(ctx, *case[1:])
        elif case[0] == 'many':
            self.many(ctx, *case[1:])
        else:
            self.full(ctx, *case[1:])

    def file(self, ctx, name):
        """Whatever the name of a local file, it is that file which is read."""
        import resync.url_or_file_open as m
        from urllib.parse import quote
        w = World(ctx)
        for d in ('', 'd/', name + '.d/'):
            put(d + name, ('%s in %s' % (name, d)).encode(), 1600000000)
            put(d + 'other', b'other', 1600000000)
        for d in ('', 'd/', name + '.d/'):
            for root in ('', './', '../x/', w.x + '/', 'd/../', 'file:'):
                p = root + d + name if root != 'file:' else 'file:' + quote(w.x + '/' + d + name)
                self.fresh()
                m.set_url_or_file_open_config('bearer_token', 'T1')
                m.set_url_or_file_open_config('delay', 1)
                del vtime.slept[:]
                ctx.step()
                ctx.state(['file', p])
                try:
                    with m.url_or_file_open(p) as f:
                        data = f.read()
                except Exception as e:
                    raise Fail('opening %r: %r' % (p, e))
                if data != ('%s in %s' % (name, d)).encode() or w.web.log or vtime.slept:
                    raise Fail('opening %r: reads %r, requests %s, waits %s' % (p, data, w.web.log, vtime.slept))

    def many(self, ctx, n, delay, token):
        """The pace and the identity do not change however many requests there are."""
        import resync.url_or_file_open as m
        w = World(ctx)
        self.fresh()
        w.web.docs = {'http://src.example/a': b'doc a', 'https://src.example/b': b'doc b'}
        put('f', b'file')
        m.set_url_or_file_open_config('bearer_token', token)
        m.set_url_or_file_open_config('delay', delay)
        for i in range(n):
            del vtime.slept[:]
            del w.web.log[:]
            uri = sorted(w.web.docs)[i % 2]
            m.url_or_file_open(uri).close()
            if i and list(vtime.slept) != ([] if delay is None else [delay]) or len(w.web.log) != 1:
                raise Fail('request %d: waited %r, configured delay %r' % (i + 1, vtime.slept, delay))
            self.identity(w.web.log[0], token, 'request %d' % (i + 1))
            ctx.step()
        ctx.state([n, delay, token])

    def uri(self, ctx, host, tail):
        """Whatever the URI, the request is for it, as it is."""
        import resync.url_or_file_open as m
        for frag in ('', '#f', '#', '#f/', '#f?x'):
            for how in ('get', 'head', 'token', 'delay', 'again'):
                w = World(ctx)
                self.fresh()
                uri = host + tail
                w.web.docs = {uri: b'the doc'}
                m.set_url_or_file_open_config('bearer_token', 'T1' if how == 'token' else None)
                m.set_url_or_file_open_config('delay', 0.5 if how == 'delay' else None)
                what = 'request (%s) for %r' % (how, uri + frag)
                ctx.step()
                ctx.state(['uri', uri, frag, how])
                for n in range(2 if how == 'again' else 1):
                    del w.web.log[:]
                    try:
                        with m.url_or_file_open(uri + frag, **({'method': 'HEAD'} if how == 'head' else {})) as f:
                            data = f.read()
                    except Exception as e:
                        raise Fail('%s: %r' % (what, e))
                    if data != (b'' if how == 'head' else b'the doc'):
                        raise Fail('%s: reads %r' % (what, data))
                    if [(r.method, r.uri) for r in w.web.log] != [('HEAD' if how == 'head' else 'GET', uri)]:
                        raise Fail('%s is made as %s' % (what, w.web.log))
                    self.identity(w.web.log[0], 'T1' if how == 'token' else None, what)

    def fresh(self):
        """As in a new process: no request yet, nothing configured."""
        import importlib
        import resync.url_or_file_open as m
        importlib.reload(m)     # same module dict: functions imported elsewhere see it too
        m.set_url_or_file_open_config('bearer_token', None)
        m.set_url_or_file_open_config('delay', None)

    def seq(self, ctx, events):
        import resync.url_or_file_open as m
        w = World(ctx)
        self.fresh()
        put('f.txt', b'file f')
        put('sub/g', b'file g')
        w.web.docs = {'http://src.example/a': b'doc a', 'https://src.example/b?x=1': b'doc b'}
        token = delay = None
        n = 0
        nweb = 0
        for ev in events:
            ctx.step()
            ctx.state([n > 0, nweb > 0, token, delay, ev])
            if ev[0] == 'token':
                token = ev[1]
                m.set_url_or_file_open_config('bearer_token', token)
                continue
            if ev[0] == 'delay':
                delay = ev[1]
                m.set_url_or_file_open_config('delay', delay)
                continue
            uri = self.URIS[ev[1]]
            web = uri.lower().startswith('http')
            if uri == 'FILE':
                uri = 'file://' + os.path.join(w.x, 'f.txt')
            kw = {}
            if ev[0] == 'head':
                kw['method'] = 'HEAD'
            if ev[0] == 'timeout':
                kw['timeout'] = 7.5
            w.web.fault = (lambda u, r: '404') if ev[0] == 'fail' else None
            del vtime.slept[:]
            del w.web.log[:]
            try:
                with m.url_or_file_open(uri, **kw) as f:
                    data = f.read()
                err = None
            except Exception as e:
                data, err = None, e
            what = 'request %s %r after %s' % (ev[0], uri, events[:events.index(ev)])
            if ev[0] == 'fail':
                if err is None:
                    raise Fail('%s: failure not reported' % what)
            elif err is not None:
                raise Fail('%s: %r' % (what, err))
            elif ev[0] == 'head':
                pass
            elif data != (w.web.docs.get(uri) if web else
                          (b'file g' if uri.endswith('g') else b'file f')):
                raise Fail('%s: wrong content %r' % (what, data))
            # pace: before every web request but the first of all requests
            if web:
                want = [[]] if delay is None else [[delay]]
                if n == 0:
                    want = [[]] if self.resets else [[], want[0]]
                elif nweb == 0:
                    want.append([])     # only files were read before: either
                if list(vtime.slept) not in want:
                    raise Fail('%s: waited %r, configured delay %r, request number %d'
                               % (what, vtime.slept, delay, n))
                if len(w.web.log) != 1:
                    raise Fail('%s: %d requests' % (what, len(w.web.log)))
                self.identity(w.web.log[0], token, what)
                r = w.web.log[0]
                if r.uri != uri:
                    raise Fail('%s goes to %s' % (what, r.uri))
                if r.method != kw.get('method', 'GET'):
                    raise Fail('%s uses %s' % (what, r.method))
                if kw.get('timeout') is not None and r.timeout != kw['timeout']:
                    raise Fail('%s uses timeout %r' % (what, r.timeout))
                if r.sleeps != list(vtime.slept):
                    raise Fail('%s: waited after the request' % what)
                nweb += 1
            else:
                if vtime.slept:
                    raise Fail('%s: local access waited %r' % (what, vtime.slept))
                if w.web.log:
                    raise Fail('%s: web request %r for a local file' % (what, w.web.log))
            n += 1

    @staticmethod
    def identity(r, token, what):
        from resync import __version__
        ua = r.headers.get('user-agent')
        if ua != 'resync/' + __version__:
            raise Fail('%s: user agent %r' % (what, ua))
        want = None if token is None else 'Bearer ' + token
        if r.headers.get('authorization') != want:
            raise Fail('%s: authorization %r, expected %r' % (what, r.headers.get('authorization'), want))

    def full(self, ctx, kind, token, delay):
        """A whole run: every request of it carries identity and pace."""
        import resync.url_or_file_open as m
        from mc.world import xml_doc, BASE
        w = World(ctx)
        self.fresh()
        T = 1600000000
        m.set_url_or_file_open_config('bearer_token', token)
        m.set_url_or_file_open_config('delay', delay)
        res = {'a': b'aaa', 'b': b'bb', 'd/c': b'c'}
        entries = [{'loc': BASE + '/' + k, 'lastmod': T, 'length': len(v)} for k, v in res.items()]
        for k, v in res.items():
            w.web.docs[BASE + '/' + k] = v
        rl = xml_doc('resourcelist', entries)
        w.web.docs[BASE + '/resourcelist.xml'] = rl
        web = True
        kw = {}
        if kind == 'discovery':
            del w.web.docs[BASE + '/resourcelist.xml']
            w.web.docs['http://src.example/.well-known/resourcesync'] = xml_doc(
                'description', [{'loc': 'http://src.example/cap.xml', 'capability': 'capabilitylist'}])
            w.web.docs['http://src.example/cap.xml'] = xml_doc(
                'capabilitylist', [{'loc': BASE + '/list.xml', 'capability': 'resourcelist'}])
            w.web.docs[BASE + '/list.xml'] = rl
        elif kind == 'index':
            w.web.docs[BASE + '/resourcelist.xml'] = xml_doc(
                'resourcelist', [{'loc': BASE + '/p1.xml'}, {'loc': BASE + '/p2.xml'}], index=True)
            w.web.docs[BASE + '/p1.xml'] = xml_doc('resourcelist', entries[:1])
            w.web.docs[BASE + '/p2.xml'] = xml_doc('resourcelist', entries[1:])
        elif kind == 'faults':
            seen = {}

            def fault(u, r):
                seen[u] = seen.get(u, 0) + 1
                if u.endswith('/a') and seen[u] == 1:
                    return 'timeout'
                return None
            w.web.fault = fault
        elif kind == 'local':
            for k, v in res.items():
                put('src/' + k, v, T)
            put('src/resourcelist.xml', xml_doc('resourcelist', [
                {'loc': 'src/' + k, 'lastmod': T, 'length': len(v)} for k, v in res.items()]))
            kw = {'mappings': ['src', 'dst']}
            web = False
        if kind == 'incremental':
            o = w.baseline(**kw)
            w.web.docs[BASE + '/a'] = b'new'
            w.web.docs[BASE + '/changelist.xml'] = xml_doc('changelist', [
                {'loc': BASE + '/a', 'lastmod': T + 5, 'change': 'updated', 'datetime': T + 5},
                {'loc': BASE + '/b', 'change': 'deleted', 'datetime': T + 6}])
            del w.web.log[:]
            del vtime.slept[:]
            o = w.incremental(**kw)
        elif kind == 'audit':
            o = w.baseline(audit=True, **kw)
        elif kind == 'explorer':
            from resync.explorer import Explorer
            import builtins
            keys = iter(['1', 'b', '2', 'q'])
            e = Explorer()
            e.set_mappings([BASE + '/resourcelist.xml', 'dst'])
            old = builtins.input
            builtins.input = lambda *a: next(keys)
            try:
                o = w.run(e.explore)
            finally:
                builtins.input = old
        else:
            o = w.baseline(**kw)
        what = 'run %s with token %r and delay %r' % (kind, token, delay)
        if o.error:
            raise Fail('%s ends with %s %s' % (what, o.error, o.message))
        if not web:
            if w.web.log or vtime.slept:
                raise Fail('%s: requests %r waits %r' % (what, w.web.log, vtime.slept))
            return
        if len(w.web.log) < 2:
            raise Fail('%s: only %d requests' % (what, len(w.web.log)))
        for i, r in enumerate(w.web.log):
            self.identity(r, token, '%s, request %s' % (what, r))
            n = i + (1 if kind == 'incremental' else 0)
            want = [] if delay is None else [delay] * n
            if not self.resets and r.sleeps == want + [delay]:
                continue
            if r.sleeps != want:
                raise Fail('%s: before request %d (%s) waited %r in all' % (what, i + 1, r, r.sleeps))
