"""usage: run.py PROPERTY SECONDS SEED OUT.json [MAXFAIL]
Runs one bounded run-time contract check; writes what it did."""
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VF_REPO", "/repo"))
sys.setrecursionlimit(20000)


class Stop(BaseException):
    pass


REPO = os.path.join(os.path.abspath(os.environ.get("VF_REPO", "/repo")), "python_dice")
CURRENT = []
# how much CPU time a case may take before it counts as not answering (0: do not wait)
PATIENCE = float(os.environ.get("VF_PATIENCE", "0"))


def out_of_time(_, frame):
    """a case that is still running: in the code under test?"""
    if CURRENT:
        ctx = CURRENT[0]
        stack = frame
        while stack is not None:
            if os.path.abspath(stack.f_code.co_filename).startswith(REPO):
                ctx.stuck = time.process_time() - ctx.cpu
                ctx.where = f"{stack.f_code.co_filename}:{stack.f_lineno} {stack.f_code.co_name}"
                if ctx.stuck > 10 and ctx.stuck < PATIENCE:
                    # wait for this case
                    ctx.last_case = True
                    signal.setitimer(signal.ITIMER_REAL, 5)
                    return
                break
            stack = stack.f_back
    raise Stop()


class Context:
    def __init__(self, seed, seconds, max_fail):
        import random

        self.seed = seed
        self.rng = random.Random(seed * 1000003 + 17)
        self.deadline = time.time() + seconds
        self.max_fail = max_fail
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = 0
        self.samples = []
        self.failures = []
        self.known_hits = {}
        self.last = time.time()
        self.cpu = time.process_time()
        self.last_case = False
        self.gap = 0.0
        self.longest = ""
        self.stuck = 0.0
        self.where = ""

    def more(self):
        return time.time() < self.deadline

    def _count(self, label, nontrivial):
        self.evaluations += 1
        now = time.time()
        if now - self.last > self.gap:
            self.gap, self.longest = now - self.last, label[:200]
        self.last = now
        self.cpu = time.process_time()
        if self.last_case:
            self.stuck = 0.0
            raise Stop()
        if nontrivial:
            key = hash(label)
            if key not in self.seen:
                self.seen.add(key)
                self.nontrivial += 1
                if self.nontrivial in (1, 10, 100, 500, 1000):
                    self.samples.append(label[:300])

    def case(self, label, nontrivial, want, got, what):
        if isinstance(want, tuple) and isinstance(got, tuple):
            good = want == got[: len(want)]
        else:
            good = want == got
        self._count(label, nontrivial)
        if not good:
            self.fail({"case": label, "what": what, "expected": repr(want)[:2000], "got": repr(got)[:2000]})

    def truth(self, label, nontrivial, good, what):
        self._count(label, nontrivial)
        if not good:
            self.fail({"case": label, "what": what})

    def known(self, key, what):
        self.evaluations += 1
        entry = self.known_hits.setdefault(key, {"count": 0, "example": what})
        entry["count"] += 1

    def fail(self, failure):
        self.failures.append(failure)
        if len(self.failures) >= self.max_fail:
            raise Stop()


def main():
    prop, seconds, seed, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    max_fail = int(sys.argv[5]) if len(sys.argv) > 5 else 3
    ctx = Context(seed, seconds, max_fail)
    CURRENT.append(ctx)
    error = None
    start = time.time()
    # a case still running well after the deadline is given up
    signal.signal(signal.SIGALRM, out_of_time)
    signal.setitimer(signal.ITIMER_REAL, seconds + 20)
    try:
        import checks

        import python_dice

        where = os.path.abspath(python_dice.__file__)
        getattr(checks, "check_" + prop)(ctx)
    except Stop:
        where = "stopped"
    except Exception:  # pylint: disable=broad-except
        error = traceback.format_exc()[-3000:]
        where = "error"
    signal.setitimer(signal.ITIMER_REAL, 0)
    with open(out, "w") as handle:
        json.dump(
            {
                "property": prop,
                "evaluations": ctx.evaluations,
                "distinct_nontrivial": ctx.nontrivial,
                "samples": ctx.samples,
                "failures": ctx.failures,
                "known": ctx.known_hits,
                "error": error,
                "package": where,
                "longest_gap": ctx.gap,
                "longest_case": ctx.longest,
                "stuck": [ctx.stuck, ctx.where],
                "seconds": time.time() - start,
            },
            handle,
        )


main()
