#!/usr/bin/env python3
"""Writes known_findings.json: recorded defects (listed by hand) and repaired ones (from the fix: commits in /repo)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(property="C07", id="recursive-closure",
         what="a closure that refers to itself (def mk(): def h(n): ... h(n-1) ...) cannot be sent: RecursionError in CannedCell"),
    dict(property="C07", id="class-super",
         what="an interactively defined class whose methods use super() or __class__ cannot be sent: RecursionError in CannedClass/CannedCell"),
    dict(property="C07", id="class-diamond",
         what="interactively defined classes with diamond inheritance arrive with a different method resolution order (D(B, C), C overrides A.x: D.x is A's)"),
]
# subject of the fix commit -> (property, what failed)
FIXED = {
    "don't register an engine twice in the task scheduler": ("C03", "an engine registering again was listed twice as a destination, shifting the loads of all others"),
    "failing an unsaved task that others' dependencies share": ("C02", "KeyError from graph.remove when a task failed whose id others already had removed"),
    "don't run a queued task a second time": ("C01", "a task in the queue twice was dispatched twice"),
    "preserve the order of the queue when restoring unmet tasks": ("C03", "queued tasks were put back in reversed order"),
    "fail tasks whose location dependencies cannot be met anymore": ("C02", "tasks following tasks on dead or excluded engines waited forever"),
    "fail queued tasks that could only run on an engine that died": ("C01", "queued tasks whose only target left waited until another task finished"),
    "ignore late results of tasks that were already retried elsewhere": ("C04", "a late result of a lost engine finished a task a second time"),
    "recheck queued tasks when another fails during the scan": ("C02", "tasks depending on a task failed during the scan waited"),
    "DictDB queries with several equality conditions": ("C10", "{'a': 1, 'b': 2} compared every key with the last value"),
    "DictDB $gt matched records that are less than the value": ("C10", "$gt was not a greater-than comparison"),
    "DictDB comparisons with missing values": ("C10", "TypeError comparing None"),
    "DictDB remembers culled ids per database, and forgets those added again": ("C11", "culled ids were shared between databases, and re-added ones were reported as culled"),
    "DictDB with a small record_limit never culled": ("C11", "int(cull_fraction * record_limit) == 0 never culled"),
    "SQLite queries with $in, $nin and $ne": ("C10", "$in/$nin/$ne with None or empty lists selected other records than DictDB"),
    "an empty query is an SQL syntax error in SQLiteDB": ("C10", "find_records({}) raised OperationalError"),
    "compare timestamps in SQLiteDB regardless of their time zone": ("C10", "timestamps with different offsets compared as text"),
    "SQLiteDB.find_records with an empty list of keys": ("C10", "keys=[] raised OperationalError"),
    "recognize existing SQLite tables": ("C11", "every reopening of a database created a new, empty table"),
    "partition dicts on Python 3.12": ("C08", "KeyError: slice(...) when mapping over or scattering a dict"),
    "keep the dtype of arrays joined by RoundRobinMap": ("C08", "arrays scattered and gathered round-robin became float64"),
    "serialize arrays of any dtype": ("C06", "structured, datetime64 and other arrays raised or lost their dtype"),
    "serialize dicts with keys that can't be sorted": ("C06", "TypeError for dicts with keys of mixed types"),
    "buffers of objects in sets got mixed up": ("C06", "partials in a set exchanged their large arguments"),
    "deserialize containers larger than the default item_threshold": ("C06", "containers of more than 64 items arrived canned with a larger item_threshold"),
    "serialize arrays nested in functions and classes": ("C07", "TypeError: cannot pickle memoryview for arrays in defaults, closures, class attributes"),
}
try:
    FIXED.update({k: tuple(v) for k, v in json.load(open(os.path.join(V, "tools", "fixed_more.json"))).items()})
except FileNotFoundError:
    pass
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        e = FIXED.get(s[5:])
        if not e:
            print("no entry for", s)
            continue
        fixed.append("fixed: property=%s %s %s" % (e[0], h, e[1]))
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(FINDINGS), "findings", len(fixed), "fixed")
