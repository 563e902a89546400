"""catch.py [ids]: apply each planted bug to /repo, run its property's quick check, undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = os.path.join(V, 'seeded')
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
assert not sh('git -C /repo status --short').stdout.strip()
args = [a for a in sys.argv[1:] if not a.startswith('-')]
for id in sorted(os.listdir(S)):
    if args and id not in args: continue
    prop = json.load(open(os.path.join(S, id, 'meta.json')))['property']
    r = sh('git -C /repo apply %s/%s/patch.diff' % (S, id))
    if r.returncode: print(id, 'DOES NOT APPLY'); continue
    try:
        t = time.time(); r = sh('cd %s && ./check %s' % (V, prop))
    finally:
        sh('git -C /repo checkout -- .')
    lines = r.stdout.splitlines()
    v = [i for i, l in enumerate(lines) if l.startswith('VIOLATION')]
    print('%-26s %s rc=%d %5.1fs %s' % (id, prop, r.returncode, time.time() - t,
          ('CAUGHT ' + lines[v[0] + 1][:150]) if v else 'MISSED ' + r.stdout[-200:]), flush=True)
