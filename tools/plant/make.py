"""Generate /verif/seeded from the definitions in bugs*.py, and confirm each (maintenance aid).

make.py [ids...]   patch, demo on clean and patched copy, stable tests on patched /repo
"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
BUGS = []


def bug(id, prop, edits, needs, what, demo):
    BUGS.append((id, prop, edits, needs, what, demo))


for f in sorted(glob.glob(os.path.join(HERE, 'bugs*.py'))):
    exec(open(f).read())
want = [a for a in sys.argv[1:] if not a.startswith('-')]
notests = '--notests' in sys.argv
DEMO_SH = '#!/bin/sh\nhere=$(cd "$(dirname "$0")" && pwd)\npy=/opt/venv/bin/python; [ -x $py ] || py=python3\nPYTHONDONTWRITEBYTECODE=1 PATH=/opt/venv/bin:$PATH exec timeout 250 $py "$here/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


assert not sh('git -C /repo status --short').stdout.strip(), 'repo not clean'
for id, prop, edits, needs, what, demo in BUGS:
    if want and id not in want:
        continue
    wt = '/tmp/plant-%s' % id
    shutil.rmtree(wt, True)
    sh('git -C /repo worktree prune; cp -a /repo %s' % wt)
    for file, old, new in edits:
        p = os.path.join(wt, file)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, 'EDIT MATCHES', s.count(old), repr(old[:80]))
            break
        open(p, 'w').write(s.replace(old, new))
    else:
        patch = sh('git -C %s diff' % wt).stdout
        d = os.path.join(VERIF, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        shutil.copy(HERE + '/common.py', d + '/common.py')
        open(d + '/demo.py', 'w').write('from common import *\n' + demo.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('sh %s/demo.sh' % d, cwd='/repo')
        b = sh('sh %s/demo.sh' % d, cwd=wt)
        msg = 'demo clean=%d patched=%d' % (a.returncode, b.returncode)
        good = a.returncode == 0 and b.returncode != 0
        if not good:
            msg += '\n' + (a.stdout + a.stderr)[-1500:] + '\n---\n' + (b.stdout + b.stderr)[-1500:]
        else:
            msg += ' ' + (b.stdout.strip().splitlines() or b.stderr.strip().splitlines() or ['?'])[-1][:150]
        if good and not notests:
            r = sh('git -C /repo apply %s/patch.diff' % d)
            if r.returncode:
                msg += ' APPLY FAILED ' + r.stderr
            else:
                try:
                    t = sh('sh %s/tools/stable.sh' % VERIF)
                    msg += ' | tests ' + t.stdout.strip()[-300:]
                finally:
                    sh('git -C /repo checkout -- .')
        print(id, prop, msg, flush=True)
    shutil.rmtree(wt, True)
