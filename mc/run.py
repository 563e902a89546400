"""Run one check:  check <ID> [--tier quick|thorough] [--replay FILE] [--jobs N]."""

import argparse
import importlib
import io
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
# somewhere with a half hour offset and summer time: no result may depend on where it is computed
os.environ['TZ'] = 'NST3:30NDT,M3.2.0,M11.1.0'
time.tzset()
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

import warnings
warnings.simplefilter('ignore')

from mc import core, guard, vtime  # noqa: E402
core.REPO, core.VERIF = os.path.realpath(REPO), os.path.realpath(VERIF)

vtime.install()     # before any module of the code under test is imported

MODULES = ['sync', 'docs', 'lists', 'misc', 'crash', 'tools']


def find_check(pid):
    for m in MODULES:
        try:
            mod = importlib.import_module('mc.checks.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'mc.checks.' + m:
                raise
            continue
        for obj in vars(mod).values():
            if isinstance(obj, type) and issubclass(obj, core.Check) and obj.id == pid:
                return obj()
    raise SystemExit("no check %s" % pid)


def make_scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='verif-', dir=base)
    os.chmod(d, 0o755)
    return os.path.realpath(d)


def enter_worker(scratch, n):
    """Confine this process: own directory, unprivileged user, audit guard."""
    d = os.path.join(scratch, 'w%d' % n)
    os.mkdir(d)
    os.mkdir(os.path.join(d, 'tmp'))
    os.mkdir(os.path.join(d, 'x'))
    if os.getuid() == 0:
        for p in (d, os.path.join(d, 'tmp'), os.path.join(d, 'x')):
            os.chown(p, 65534, 65534)
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
    os.environ['TMPDIR'] = os.path.join(d, 'tmp')
    os.environ['HOME'] = os.path.join(d, 'tmp')
    for v in ('http_proxy', 'https_proxy', 'ftp_proxy', 'no_proxy', 'all_proxy'):
        os.environ.pop(v, None)
        os.environ.pop(v.upper(), None)
    tempfile.tempdir = os.path.join(d, 'tmp')
    os.chdir(os.path.join(d, 'x'))
    os.umask(0o022)
    guard.install(d)
    import resource as rs
    rs.setrlimit(rs.RLIMIT_CORE, (0, 0))
    try:
        import faulthandler
        faulthandler.register(signal.SIGUSR1)
    except Exception:
        pass
    return d


def run_case(check, ctx, case, forced=None):
    ctx.case = case
    ctx.forced = forced
    n_fail = len(ctx.failures)
    n_eval = ctx.evaluations
    guard.take_escapes()
    try:
        check.run(ctx, case)
    except core.Fail as e:
        if ctx.evaluations == n_eval:
            ctx.evaluations += 1
            ctx.nontrivial.add(core.digest([case]))
        ctx.failures.append((case, None, str(e)))
    except Exception as e:
        msg = core.library_error(e)
        if msg is None:
            raise
        if ctx.evaluations == n_eval:
            ctx.evaluations += 1
            ctx.nontrivial.add(core.digest([case]))
        ctx.failures.append((case, None, msg))
    else:
        if ctx.evaluations == n_eval:
            ctx.evaluations += 1
            ctx.nontrivial.add(core.digest([case]))
    esc = guard.take_escapes()
    if esc and len(ctx.failures) == n_fail:
        ctx.failures.append((case, None, "effect outside the scratch directory: %s" % (esc[:3],)))


def worker(check, tier, scratch, n, jobs, out, deadline, seed, upto=None, slot=None):
    sys.stdin = io.StringIO('')
    d = enter_worker(scratch, n if slot is None else slot)
    ctx = core.Ctx(check, tier, d)
    ctx.where = []
    res = {'error': None, 'cases': 0, 'complete': True}
    try:
        check.setup(ctx)
        todo = [(i, c) for i, c in enumerate(check.cases(tier)) if i % jobs == n]
        random.Random(seed * 1000 + n).shuffle(todo)    # order only: all are explored
        for i, case in todo[:upto]:
            if time.monotonic() > deadline:
                res['complete'] = False
                break
            k = len(ctx.failures)
            run_case(check, ctx, case)
            ctx.where += [(n, jobs, seed, res['cases'])] * (len(ctx.failures) - k)
            res['cases'] += 1
            new = [f for f in ctx.failures if check.known(f[0], f[2]) is None]
            if len(new) >= 10:
                res['complete'] = False
                break
            if len(ctx.failures) > 5000:
                res['complete'] = False
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    res.update(states=ctx.states, transitions=ctx.transitions, evaluations=ctx.evaluations,
               nontrivial=ctx.nontrivial, counters=ctx.counters, samples=ctx.samples,
               failures=[f + (w,) for f, w in zip(ctx.failures, ctx.where)])
    with os.fdopen(out, 'wb') as f:
        pickle.dump(res, f)


def fork_collect(fns):
    """Run each fn(fd) in a child; return what each pickled to fd (or an error)."""
    kids = []
    for fn in fns:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for (_, rr) in kids:
                os.close(rr)
            code = 0
            try:
                fn(w)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    results = []
    bufs = {r: b'' for _, r in kids}
    import selectors
    sel = selectors.DefaultSelector()
    for _, r in kids:
        sel.register(r, selectors.EVENT_READ)
    while sel.get_map():
        for key, _ in sel.select():
            data = os.read(key.fd, 1 << 20)
            if not data:
                sel.unregister(key.fd)
            else:
                bufs[key.fd] += data
    for pid, r in kids:
        os.close(r)
        _, st = os.waitpid(pid, 0)
        try:
            results.append(pickle.loads(bufs[r]))
        except Exception:
            results.append({'error': 'worker died, status %s' % st, 'failures': []})
    return results


def replay_once(check, tier, scratch, n, case, choices):
    def go(fd):
        sys.stdin = io.StringIO('')
        d = enter_worker(scratch, n)
        ctx = core.Ctx(check, tier, d)
        err = None
        try:
            check.setup(ctx)
            run_case(check, ctx, case, forced=choices)
        except BaseException:
            err = traceback.format_exc()
        with os.fdopen(fd, 'wb') as f:
            pickle.dump({'error': err, 'failures': ctx.failures}, f)
    return fork_collect([go])[0]


def replay_history(check, tier, scratch, slot, where, case):
    """Repeat everything the failing worker did up to and including the failing case."""
    n, jobs, seed, pos = where
    r = fork_collect([lambda fd: worker(check, tier, scratch, n, jobs, fd,
                                        time.monotonic() + 300, seed, pos + 1, slot)])[0]
    r['failures'] = [f[:3] for f in r['failures'] if json.dumps(f[0]) == json.dumps(case)]
    return r


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        data = json.load(f)
    return {k['key']: k for k in data.get('findings', []) if k['property'] == pid}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--limit', type=float, default=0, help='seconds')
    args = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    t0 = time.monotonic()
    check = find_check(args.id)
    scratch = os.environ.pop('VERIF_SCRATCH', None)
    os.environ.pop('LD_PRELOAD', None)
    if scratch is None:
        scratch = make_scratch()
        if check.shim:
            from mc import kill
            try:
                env = dict(os.environ, VERIF_SCRATCH=scratch, LD_PRELOAD=kill.compile_shim(scratch))
                os.execve(sys.executable, [sys.executable, '-B'] + sys.argv, env)
            except BaseException:
                shutil.rmtree(scratch, ignore_errors=True)
                raise
    try:
        if args.replay:
            with open(args.replay) as f:
                rp = json.load(f)
            if rp.get('history'):
                r = replay_history(check, rp['tier'], scratch, 0, rp['history'], rp['case'])
            else:
                r = replay_once(check, rp.get('tier', tier), scratch, 0, rp['case'],
                                rp['choices'])
            if r['error']:
                print(r['error'])
                return 2
            for (c, ch, m) in r['failures']:
                print("REPRODUCED property=%s: %s" % (check.id, m))
            if not r['failures']:
                print("not reproduced")
            return 1 if r['failures'] else 0
        return explore(check, tier, seed, scratch, args, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(check, tier, seed, scratch, args, t0):
    jobs = args.jobs or check.jobs or min(8, os.cpu_count() or 1)
    limit = args.limit or (600 if tier == 'quick' else 840)
    deadline = t0 + limit
    known = load_known(check.id)
    fns = [(lambda fd, n=n: worker(check, tier, scratch, n, jobs, fd, deadline, seed))
           for n in range(jobs)]
    results = fork_collect(fns)
    errors = [r['error'] for r in results if r['error']]
    failures = []
    states, nontrivial = set(), set()
    counters, samples = {}, []
    transitions = evaluations = ncases = 0
    complete = True
    for r in results:
        failures += r.get('failures', [])
        states |= r.get('states', set())
        nontrivial |= r.get('nontrivial', set())
        transitions += r.get('transitions', 0)
        evaluations += r.get('evaluations', 0)
        ncases += r.get('cases', 0)
        complete = complete and r.get('complete', False)
        samples += r.get('samples', [])
        for k, v in r.get('counters', {}).items():
            counters[k] = counters.get(k, 0) + v
    # failures that are listed as known findings
    found, news = {}, []
    for f in failures:
        key = check.known(f[0], f[2])
        if key is not None and key in known:
            found.setdefault(key, []).append(f)
        else:
            news.append(f)
    news.sort(key=lambda f: (len(f[1] or []), sum(1 for c in (f[1] or []) if c),
                             len(json.dumps(f[0], default=str))))
    violations = 0
    status = 0
    n = 100
    for (case, choices, msg, where) in news[:8]:
        # believed only if it happens again, twice, in fresh processes
        again = []
        for _ in range(2):
            n += 1
            again.append(replay_once(check, tier, scratch, n, case, choices))
        history = None
        if not all(a['failures'] for a in again) and not any(a['error'] for a in again):
            # depends on what this process did before: repeat that as well
            history = where
            again = []
            for _ in range(2):
                n += 1
                again.append(replay_history(check, tier, scratch, n, where, case))
        if all(a['failures'] and not a['error'] for a in again):
            violations += 1
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (check.id, violations))
            with open(path, 'w') as f:
                json.dump({'property': check.id, 'tier': tier, 'case': case,
                           'choices': choices, 'message': msg, 'history': history}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (check.id, os.path.relpath(path, VERIF)))
            print("  " + msg[:2000])
            status = 1
            if violations >= 3:
                break
        else:
            errs = [a['error'] for a in again if a['error']]
            errors.append("not reproducible: %s %s %s %s" % (json.dumps(case, default=str)[:500],
                                                            choices, msg[:500], errs[:1]))
    for key, k in sorted(known.items()):
        # a listed finding is part of the report whether or not this tier reaches it
        print("KNOWN-FINDING: property=%s %s" % (check.id, k['what']))
    wall = time.monotonic() - t0
    if not samples:
        samples = [{'note': 'no sample recorded'}]
    cov = {'states': len(states), 'transitions': transitions,
           'traces_validated_against_impl': evaluations,
           'evaluations': evaluations, 'distinct_nontrivial': len(nontrivial),
           'cases': ncases,
           'rule': check.rule, 'samples': samples[:4],
           'exhaustive': bool(complete and not errors),
           'counters': counters,
           'known_findings_seen': {k: len(v) for k, v in found.items()},
           'workers': jobs}
    cov.update(check.extra(tier))
    ev = {'property': check.id, 'tier': tier, 'seed': seed, 'level': check.level,
          'coverage': cov, 'assumptions': list(check.assumptions),
          'wall_s': round(wall, 3), 'violations': violations}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print("%s %s: %d cases, %d executions (%d distinct non-trivial), %d states, %d steps, "
          "%.1fs%s" % (check.id, tier, ncases, evaluations, len(nontrivial), len(states),
                       transitions, wall, '' if complete else ' (NOT COMPLETE)'))
    if status == 0 and errors:
        print("ERROR in check %s:\n%s" % (check.id, errors[0]))
        for e in errors[1:4]:
            print(e[-1500:])
        return 2
    if status == 0 and evaluations == 0:
        print("ERROR: nothing explored")
        return 2
    return status


if __name__ == '__main__':
    sys.exit(main())
