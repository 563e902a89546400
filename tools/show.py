"""Replay a failing case verbosely: show.py <replay file>."""
import json, sys, os
sys.argv = ['run.py'] + sys.argv[1:]
sys.path.insert(0, '/verif/mc'); sys.path.insert(0, '/verif')
import mc.run as r
from mc import core, world
rp = json.load(open(sys.argv[1]))
check = r.find_check(rp['property'])
scratch = r.make_scratch()
d = r.enter_worker(scratch, 0)
ctx = core.Ctx(check, rp['tier'], d)
orig = world.World.run
def run(self, fn, listen=None):
    print('--- before', world.snapshot('.'))
    o = orig(self, fn, listen)
    print('--- outcome', o.error, o.message)
    for l in o.lines: print('   ', l)
    print('   requests', o.requests)
    print('   effects', o.effects)
    print('--- after', world.snapshot('.'))
    return o
world.World.run = run
check.setup(ctx)
r.run_case(check, ctx, rp['case'], forced=rp['choices'])
print(ctx.failures)
