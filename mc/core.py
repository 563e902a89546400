"""Bounded exhaustive exploration engine.

An execution of a check is identified by a JSON-able pair (case, choices):

* `case`    - one element of the check's finite enumeration `cases(tier)`;
* `choices` - the list of indexes answered to `ctx.choose(...)` while the case ran.

Stateless search (engine 1): `Ctx.explore(fn)` runs `fn` again and again, each time
with a longer forced prefix of choices, until every alternative of every choice
point has been taken (depth first, optionally bounded in the number of non-zero,
i.e. "deviating", answers).  Nothing is sampled.

Explicit-state search (engine 2): `bfs(...)` explores operation histories breadth first,
merging histories that reach the same canonical state.

Every execution that fails is identified by (case, choices), and is run again twice in
fresh processes before it is believed.
"""

import hashlib
import json
import os
import traceback


class Infra(Exception):
    """The harness itself is broken: never reported as a violation."""


def digest(key):
    if not isinstance(key, str):
        key = json.dumps(key, sort_keys=True, default=str)
    return hashlib.blake2b(key.encode('utf-8', 'backslashreplace'), digest_size=8).digest()


class Fail(Exception):
    """Property violated in this execution."""


class Ctx:
    """What a check sees while it runs one case."""

    def __init__(self, check, tier, scratch, forced=None):
        self.check = check
        self.tier = tier
        self.thorough = (tier == 'thorough')
        self.scratch = scratch
        self.forced = forced        # set while replaying: choices to take
        self.case = None
        self.states = set()         # digests of distinct states seen
        self.transitions = 0        # steps of the real code executed
        self.evaluations = 0        # executions
        self.nontrivial = set()     # digests of distinct non trivial executions
        self.counters = {}
        self.samples = []
        self.failures = []          # (case, choices, message)
        self._prefix = []
        self._trace = []
        self._exploring = False

    # --- recording -----------------------------------------------------
    def state(self, key):
        d = digest(key)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trivial(self):
        """Mark the current execution as trivial (it exercised nothing)."""
        self._trivial = True

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, what):
        if len(self.samples) < 3:
            self.samples.append(what)

    def fail(self, msg):
        raise Fail(msg)

    def expect(self, cond, msg, *args):
        if not cond:
            raise Fail(msg % args if args else msg)

    # --- stateless search ------------------------------------------------
    def choose(self, label, n):
        """Pick one of n alternatives (an index); 0 is the default."""
        if not isinstance(n, int):
            n = len(n)
        if n < 1:
            raise Infra("choice without alternatives: %s" % label)
        i = len(self._trace)
        if i < len(self._prefix):
            v = self._prefix[i]
            if v >= n:
                raise Infra("non deterministic replay at choice %d (%s)" % (i, label))
        else:
            v = 0
        self._trace.append((label, n, v))
        return v

    def pick(self, label, options):
        return options[self.choose(label, len(options))]

    def _one(self, fn, prefix):
        self._prefix = prefix
        self._trace = []
        self._trivial = False
        self.evaluations += 1
        try:
            fn()
        except Fail as e:
            self.failures.append((self.case, [t[2] for t in self._trace], str(e)))
        except Exception as e:
            msg = library_error(e)
            if msg is None:
                raise
            self.failures.append((self.case, [t[2] for t in self._trace], msg))
        if not self._trivial:
            self.nontrivial.add(digest([self.case, [t[2] for t in self._trace]]))
        return self._trace

    def explore(self, fn, bound=None, stop_after=20):
        """Run fn for every sequence of choices (at most `bound` deviations)."""
        if self.forced is not None:
            self._one(fn, list(self.forced))
            return
        stack = [[]]
        while stack:
            prefix = stack.pop()
            trace = self._one(fn, prefix)
            if len(self.failures) >= stop_after:
                return
            dev = sum(1 for v in prefix if v)
            for i in range(len(trace) - 1, len(prefix) - 1, -1):
                if bound is not None and dev + 1 > bound:
                    break
                base = [t[2] for t in trace[:i]]
                for alt in range(trace[i][1] - 1, 0, -1):
                    stack.append(base + [alt])


def bfs(ctx, initial, events, build, apply, canon, invariant, depth, note=None):
    """Explicit-state breadth first search over event histories.

    initial   - initial history (list of events, normally [])
    events    - f(model) -> list of JSON-able events enabled in that state
    build     - f(history) -> system rebuilt by replaying the history on fresh objects
    apply     - f(system, event) -> None: execute the event on the real code
    canon     - f(system) -> JSON-able canonical state
    invariant - f(system, history) -> None, raises Fail
    """
    from collections import deque
    seen = set()
    queue = deque([(list(initial), 0)])
    system = build(initial)
    seen.add(digest(canon(system)))
    ctx.state(canon(system))
    while queue:
        hist, d = queue.popleft()
        if d >= depth:
            continue
        base = build(hist)
        for ev in events(base):
            system = build(hist)
            apply(system, ev)
            ctx.step()
            h2 = hist + [ev]
            invariant(system, h2)
            c = digest(canon(system))
            if c not in seen:
                seen.add(c)
                ctx.state(canon(system))
                queue.append((h2, d + 1))
    return len(seen)


REPO = VERIF = None


def library_error(e):
    """Say what e is if it came out of the code under test where the check has to have an answer.

    None for an error of the check itself: one raised outside of the library, or by what the
    library called back.
    """
    if isinstance(e, Infra):
        return None
    at = None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.realpath(f.filename)
        if name.startswith(REPO + os.sep):
            at = f
        elif name.startswith(VERIF + os.sep):
            at = None
    if at is None:
        return None
    return 'unexpected %s in %s (%s): %s' % (type(e).__name__, at.name, os.path.basename(at.filename), e)


class Check:
    """Base class of all checks."""

    id = None
    level = 'model_checking'
    rule = ''
    assumptions = []
    jobs = None
    shim = False        # run with the system call shim preloaded (mc/kill.py)

    def cases(self, tier):
        """Yield JSON-able case descriptors: the finite space explored."""
        yield None

    def setup(self, ctx):
        """Called once in every worker, after privileges were dropped."""

    def run(self, ctx, case):
        """Explore one case; raise Fail / use ctx.explore."""
        raise NotImplementedError

    def known(self, case, msg):
        """Return key of the known finding this failure is an instance of, or None."""
        return None

    def extra(self, tier):
        return {}
