"""C01: Every load-balanced task gets exactly one final outcome, and the hub is told

Histories of submissions, results, engine arrivals and losses and time are generated and run
against a real TaskScheduler on in-memory streams (vlib/schedsim.py); every message it emits is
judged by a validity predicate.  This check raises only what belongs to C01.
"""
from vlib.runner import Sub

PROPERTY = "C01"
RULE = ("cases: configuration (high-water mark, scheme, number of engines) and a history of up to 40 operations: submissions with "
        "targets/after/follow/retries/timeout, results ok/error/unmet, engines arriving and being lost (with results in flight, late, "
        "or announced twice), virtual time passing; emphasis: flow. Non-trivial: at least two tasks, at least one dispatched")
ASSUMPTIONS = ["streams deliver messages in order, one at a time, as the event loop does",
               "engine uuids are never reused", "virtual time replaces the wall clock"]
NOTE = ("stateful generated histories against the real scheduler with a validity oracle on every emitted message and at every quiescent "
        "point; trusts the harness' message construction (real Session signing and framing) and its virtual clock")
SHARDS = 4
QUICK_S = 25
THOROUGH_S = 500


def strategy():
    from vlib import schedsim

    return schedsim.strategy("flow")


def mixed():
    from vlib import schedsim

    return schedsim.strategy("mixed")


def run(case, ctx):
    from vlib import schedsim

    schedsim.run_case(case, ctx, {PROPERTY})


# shrunk histories that showed defects (now repaired) or that a planted bug needs
CORPUS = [
    {"cfg": {"hwm": 1, "scheme": "leastload", "engines": 0, "seed": 0}, "ops": [("sub", 0, None, None, None, 0, None, 0), ("reg", "both")]},
    {"cfg": {"hwm": 1, "scheme": "leastload", "engines": 0, "seed": 0}, "ops": [("sub", 0, None, None, ([0], False, (True, False), "unknown"), 0, None, 0), ("sub", 0, None, None, ([0], False, (True, True), None), 0, None, 0)]},
    {"cfg": {"hwm": 1, "scheme": "leastload", "engines": 1, "seed": 0}, "ops": [("sub", 0, None, None, None, 1, None, 0), ("unreg", 0, []), ("sub", 0, None, None, None, 0, None, 0), ("reg", "now"), ("adv", 5.5), ("late", 0, "ok")]},
    {"cfg": {"hwm": 0, "scheme": "leastload", "engines": 1, "seed": 0}, "ops": [("sub", 0, None, None, None, 0, None, 0), ("sub", 0, None, ([0], True, (True, False), None), None, 0, None, 0), ("res", 0, "ok", 0), ("res", 0, "ok", 0), ("reg", "now")]},
    {"cfg": {"hwm": 1, "scheme": "leastload", "engines": 1, "seed": 0}, "ops": [("sub", 0, None, None, None, 0, None, 0)] * 5 + [("res", 0, "ok", 0)] * 5},
    {"cfg": {"hwm": 1, "engines": 0, "scheme": "leastload", "seed": 0}, "ops": [("sub", 0, None, None, None, 0, None, 0)] * 5 + [("reg", "now")] * 3 + [("sub", 0, None, None, None, 0, None, 0)] * 2 + [("reg", "now")] * 2 + [("unreg", 0, [])] * 2 + [("res", 0, "ok", 0)] * 2 + [("sub", 0, None, None, None, 0, None, 0), ("sub", 0, None, None, ([0], True, (True, False), None), 0, None, 0), ("sub", 0, None, None, None, 0, None, 0), ("res", 0, "ok", 0), ("burst", [(0, "ok")]), ("unreg", 0, ["ok"]), ("sub", 0, None, None, None, 0, None, 0), ("res", 0, "ok", 0), ("reg", "now"), ("res", 6, "ok", 0), ("sub", 0, [0, 4], None, None, 0, None, 0), ("unreg", 0, []), ("sub", 0, None, ([0], False, (False, True), None), None, 0, None, 0), ("sub", 0, None, None, None, 0, None, 0), ("sub", 0, None, None, None, 0, None, 0), ("unreg", 0, []), ("res", 3, "unmet", 0)]},
]

SUBS = [
    Sub("history_flow", strategy, run, quick=3600, thorough=120000, weight=3, examples=CORPUS),
    Sub("history_mixed", mixed, run, quick=1500, thorough=60000, weight=1),
]
