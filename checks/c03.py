"""C03: Task placement honours targets, queue limits and scheme without idling engines

Histories of submissions, results, engine arrivals and losses and time are generated and run
against a real TaskScheduler on in-memory streams (vlib/schedsim.py); every message it emits is
judged by a validity predicate.  This check raises only what belongs to C03.
"""
from vlib.runner import Sub, check

PROPERTY = "C03"
RULE = ("cases: configuration (high-water mark, scheme, number of engines) and a history of up to 40 operations: submissions with "
        "targets/after/follow/retries/timeout, results ok/error/unmet, engines arriving and being lost (with results in flight, late, "
        "or announced twice), virtual time passing; emphasis: place. Non-trivial: at least two tasks, at least one dispatched")
ASSUMPTIONS = ["streams deliver messages in order, one at a time, as the event loop does",
               "engine uuids are never reused", "virtual time replaces the wall clock"]
NOTE = ("stateful generated histories against the real scheduler with a validity oracle on every emitted message and at every quiescent "
        "point; trusts the harness' message construction (real Session signing and framing) and its virtual clock")
SHARDS = 4
QUICK_S = 25
THOROUGH_S = 500


def strategy():
    from vlib import schedsim

    return schedsim.strategy("place")


def mixed():
    from vlib import schedsim

    return schedsim.strategy("mixed")


def run(case, ctx):
    from vlib import schedsim

    schedsim.run_case(case, ctx, {PROPERTY})


# shrunk histories that showed defects (now repaired) or that a planted bug needs
CORPUS = [
    {"cfg": {"hwm": 1, "scheme": "leastload", "engines": 0, "seed": 0}, "ops": [("sub", 0, None, None, None, 0, None, 0), ("reg", "both")]},
    {"cfg": {"hwm": 1, "scheme": "leastload", "engines": 0, "seed": 0}, "ops": [("sub", 0, None, None, ([0], False, (True, False), "unknown"), 0, None, 0), ("sub", 0, None, None, ([0], False, (True, True), None), 0, None, 0)]},
    {"cfg": {"hwm": 1, "scheme": "leastload", "engines": 1, "seed": 0}, "ops": [("sub", 0, None, None, None, 1, None, 0), ("unreg", 0, []), ("sub", 0, None, None, None, 0, None, 0), ("reg", "now"), ("adv", 5.5), ("late", 0, "ok")]},
    {"cfg": {"hwm": 0, "scheme": "leastload", "engines": 1, "seed": 0}, "ops": [("sub", 0, None, None, None, 0, None, 0), ("sub", 0, None, ([0], True, (True, False), None), None, 0, None, 0), ("res", 0, "ok", 0), ("res", 0, "ok", 0), ("reg", "now")]},
    {"cfg": {"hwm": 1, "scheme": "leastload", "engines": 1, "seed": 0}, "ops": [("sub", 0, None, None, None, 0, None, 0)] * 5 + [("res", 0, "ok", 0)] * 5},
    {"cfg": {"hwm": 1, "engines": 0, "scheme": "leastload", "seed": 0}, "ops": [("sub", 0, None, None, None, 0, None, 0)] * 5 + [("reg", "now")] * 3 + [("sub", 0, None, None, None, 0, None, 0)] * 2 + [("reg", "now")] * 2 + [("unreg", 0, [])] * 2 + [("res", 0, "ok", 0)] * 2 + [("sub", 0, None, None, None, 0, None, 0), ("sub", 0, None, None, ([0], True, (True, False), None), 0, None, 0), ("sub", 0, None, None, None, 0, None, 0), ("res", 0, "ok", 0), ("burst", [(0, "ok")]), ("unreg", 0, ["ok"]), ("sub", 0, None, None, None, 0, None, 0), ("res", 0, "ok", 0), ("reg", "now"), ("res", 6, "ok", 0), ("sub", 0, [0, 4], None, None, 0, None, 0), ("unreg", 0, []), ("sub", 0, None, ([0], False, (False, True), None), None, 0, None, 0), ("sub", 0, None, None, None, 0, None, 0), ("sub", 0, None, None, None, 0, None, 0), ("unreg", 0, []), ("res", 3, "unmet", 0)]},
]


def choosers():
    from hypothesis import strategies as st

    return st.tuples(st.sampled_from(["twobin", "weighted", "plainrandom", "lru", "leastload"]),
                     st.lists(st.integers(0, 6), min_size=1, max_size=6), st.integers(0, 999))


def run_chooser(case, ctx):
    """The random schemes against the distribution they prescribe; the deterministic ones exactly."""
    import random

    from vlib import schedsim  # noqa: F401 (virtual clock)
    from vlib.fakes import FakeLoop, make_session, quiet_log
    from ipyparallel.controller.task_scheduler import TaskScheduler

    name, loads, sd = case
    sched = TaskScheduler(scheme_name=name, loop=FakeLoop(), session=make_session(), log=quiet_log())
    random.seed(sd)
    n = len(loads)
    N = 3000
    counts = [0] * n
    for _ in range(N if name not in ("lru", "leastload") else 3):
        ls = list(loads)
        i = sched.scheme(ls)
        check(0 <= i < n, "%s%r chose %r", name, loads, i)
        check(ls == loads, "%s modified the loads", name)
        counts[int(i)] += 1
    if name == "lru":
        check(counts[0] == 3, "lru chose %r", counts)
    elif name == "leastload":
        check(counts[loads.index(min(loads))] == 3, "leastload of %r chose %r", loads, counts)
    else:
        if name == "plainrandom":
            p = [1 / n] * n
        elif name == "twobin":
            # the earlier (least recently used) of two uniform picks
            p = [((n - k) ** 2 - (n - k - 1) ** 2) / n ** 2 for k in range(n)]
        else:
            # the less loaded of two picks with probability inverse to the load; ties: the first pick
            w = [1 / (1e-6 + x) for x in loads]
            s = sum(w)
            q = [x / s for x in w]
            p = [0.0] * n
            for a in range(n):
                for b in range(n):
                    p[b if w[b] > w[a] else a] += q[a] * q[b]
        for k in range(n):
            sd_ = (N * p[k] * (1 - p[k])) ** 0.5
            check(abs(counts[k] - N * p[k]) <= 6 * sd_ + 3, "%s%r chose %r of %d; expected about %r", name, loads, counts, N, [round(N * x) for x in p])
    ctx.tag(name)
    ctx.nontrivial(n > 1)


SUBS = [
    Sub("history_place", strategy, run, quick=3600, thorough=120000, weight=3, examples=CORPUS),
    Sub("history_mixed", mixed, run, quick=1500, thorough=60000, weight=1),
    Sub("choosers", choosers, run_chooser, quick=80, thorough=1500, weight=0.6),
]
