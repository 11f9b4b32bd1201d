"""C10: the task databases against a reference interpretation of the query language."""
import copy
import os
import shutil
import tempfile

from vlib import dbsim
from vlib.runner import Sub, Violation, check

PROPERTY = "C10"
RULE = ("cases: a history of add/update/drop/drop-matching on records with generated fields (text, times in several UTC offsets, nested "
        "dicts, buffers) and queries with up to three clauses over all operators and a key selection, run on DictDB, SQLite and a reference "
        "model. Non-trivial: at least two records and a query that selects some but not all of them")
ASSUMPTIONS = ["records carry every field of the documented schema and a submission time, as the hub writes them",
               "an empty buffer list and no buffer list are the same",
               "$exists is only asked of the in-memory database (documented as not emulated by SQLite)",
               "missing values satisfy no ordering comparison and no $glob"]
SHARDS = 4
QUICK_S = 20
THOROUGH_S = 300


def strategy():
    from hypothesis import strategies as st
    from vlib.gen import oplist, weighted

    s = dbsim.strategies()
    keys = st.one_of(st.none(), st.lists(st.sampled_from(dbsim.KEYS), max_size=4, unique=True))
    op = weighted(
        (6, st.tuples(st.just("add"), s["mid"], s["rec"])),
        (4, st.tuples(st.just("upd"), s["mid"], s["upd"])),
        (1, st.tuples(st.just("drop"), s["mid"])),
        (1, st.tuples(st.just("dropq"), s["query"])),
        (7, st.tuples(st.just("find"), s["query"], keys)),
        (1, st.tuples(st.just("get"), s["mid"])),
        (1, st.tuples(st.just("hist"))),
    )
    return st.tuples(st.sampled_from(["UTC", "America/New_York", "Asia/Kolkata"]),
                     st.tuples(st.lists(st.tuples(st.just("add"), s["mid"], s["rec"]), min_size=1, max_size=6), oplist(op, 20, 8),
                               st.lists(st.tuples(st.just("find"), s["query"], keys), min_size=1, max_size=5)).map(lambda t: t[0] + t[1] + t[2]))


def attempt(f, *a):
    try:
        return ("ok", f(*a))
    except Exception as e:
        return ("exc", e)


def scramble(obj):
    """modify a returned value as deeply as possible"""
    if isinstance(obj, dict):
        for v in list(obj.values()):
            scramble(v)
        obj["garbage"] = "hello"
        for k in list(obj):
            if k != "garbage":
                obj[k] = "fubar"
    elif isinstance(obj, list):
        for v in obj:
            scramble(v)
        obj.append("fubar")


def run(case, ctx):
    import time

    tz, ops = case
    os.environ["TZ"] = tz
    time.tzset()
    from vlib.fakes import quiet_log
    from ipyparallel.controller.dictdb import DictDB

    tmp = tempfile.mkdtemp()
    lite, timers = dbsim.open_sqlite(os.path.join(tmp, "tasks.db"))
    dbs = {"DictDB": DictDB(log=quiet_log()), "SQLiteDB": lite}
    model = {}
    try:
        for op in ops:
            name = op[0]
            if name == "add":
                mid, spec = op[1:]
                rec = dbsim.mkrec(mid, spec)
                for n, db in dbs.items():
                    st, r = attempt(db.add_record, mid, copy.deepcopy(rec))
                    check((st == "exc") == (mid in model), "%s: adding %r (present: %s) gave %s %r", n, mid, mid in model, st, r)
                if mid not in model:
                    model[mid] = copy.deepcopy(rec)
            elif name == "upd":
                mid, spec = op[1:]
                d = {k: (dbsim.mkdate(v) if k in dbsim.TIMES else copy.deepcopy(v)) for k, v in spec.items()}
                for n, db in dbs.items():
                    st, r = attempt(db.update_record, mid, copy.deepcopy(d))
                    if mid in model:
                        check(st == "ok", "%s: update of %r failed: %r", n, mid, r)
                if mid in model:
                    model[mid].update(copy.deepcopy(d))
            elif name == "drop":
                mid = op[1]
                for n, db in dbs.items():
                    st, r = attempt(db.drop_record, mid)
                    if mid in model:
                        check(st == "ok", "%s: drop of %r failed: %r", n, mid, r)
                model.pop(mid, None)
            elif name == "dropq":
                q = dbsim.mkquery(op[1], exists=False)
                for n, db in dbs.items():
                    st, r = attempt(db.drop_matching_records, copy.deepcopy(q))
                    check(st == "ok", "%s: drop_matching_records(%r) failed: %r", n, q, r)
                for m in [m for m in model if dbsim.matches(model[m], q)]:
                    del model[m]
            elif name == "find":
                spec, keys = op[1:]
                for n, db in dbs.items():
                    q = dbsim.mkquery(spec, exists=(n == "DictDB"))
                    want = {m: rec for m, rec in model.items() if dbsim.matches(rec, q)}
                    st, r = attempt(db.find_records, copy.deepcopy(q), copy.copy(keys))
                    check(st == "ok", "%s: find_records(%r, keys=%r) failed: %r", n, q, keys, r)
                    got = [rec["msg_id"] for rec in r]
                    check(sorted(got) == sorted(want), "%s: %r selects %r, expected %r", n, q, sorted(got), sorted(want))
                    for rec in r:
                        w = dbsim.norm(want[rec["msg_id"]])
                        if keys:
                            w = {k: w[k] for k in set(keys) | {"msg_id"}}
                        g = dbsim.norm(rec)
                        check(g == w, "%s: find_records(%r, keys=%r) returned %r, stored %r", n, q, keys, g, w)
                        scramble(rec)
                    if 0 < len(want) < len(model) and len(model) >= 2:
                        ctx.nontrivial()
                    ctx.tag("clauses%d" % len(q), *[o for c in q.values() if isinstance(c, dict) for o in c])
            elif name == "get":
                check_get(dbs, model, op[1])
            elif name == "hist":
                check_hist(dbs, model)
        for mid in ["m%d" % i for i in range(8)]:
            check_get(dbs, model, mid)
        check_hist(dbs, model)
    finally:
        lite.close()
        shutil.rmtree(tmp, ignore_errors=True)


def check_get(dbs, model, mid):
    for n, db in dbs.items():
        st, r = attempt(db.get_record, mid)
        if mid not in model:
            check(st == "exc" and isinstance(r, KeyError), "%s: get_record(%r) of an unknown id gave %s %r", n, mid, st, r)
            continue
        check(st == "ok", "%s: get_record(%r) failed: %r", n, mid, r)
        g, w = dbsim.norm(r), dbsim.norm(model[mid])
        check(g == w, "%s: get_record(%r) returned %r, stored %r", n, mid, {k: v for k, v in g.items() if w.get(k) != v},
              {k: v for k, v in w.items() if g.get(k) != v})
        scramble(r)


def check_hist(dbs, model):
    for n, db in dbs.items():
        st, h = attempt(db.get_history)
        check(st == "ok", "%s: get_history failed: %r", n, h)
        check(sorted(h) == sorted(model), "%s: history lists %r, stored %r", n, h, sorted(model))
        t = [model[m]["submitted"] for m in h]
        check(t == sorted(t), "%s: history %r is not in order of submission %r", n, h, t)


def big():
    from hypothesis import strategies as st

    return st.tuples(st.integers(900, 2500), st.sampled_from(["$in", "$nin"]), st.booleans())


def run_big(case, ctx):
    """selections of thousands of ids, as when getting or purging many results at once"""
    n, op, drop = case
    from vlib.fakes import quiet_log
    from ipyparallel.controller.dictdb import DictDB

    tmp = tempfile.mkdtemp()
    lite, _ = dbsim.open_sqlite(os.path.join(tmp, "tasks.db"))
    try:
        for name, db in (("DictDB", DictDB(log=quiet_log())), ("SQLiteDB", lite)):
            for i in (0, 5, n - 1, n, n + 3):
                db.add_record("m%d" % i, dbsim.mkrec("m%d" % i, ((i, 0), {})))
            q = {"msg_id": {op: ["m%d" % i for i in range(n)]}}
            inside = ["m0", "m5", "m%d" % (n - 1)]
            outside = ["m%d" % n, "m%d" % (n + 3)]
            want = inside if op == "$in" else outside
            got = [r["msg_id"] for r in db.find_records(q, keys=["msg_id"])]
            check(sorted(got) == sorted(want), "%s: %s with %d ids selects %r, expected %r", name, op, n, got, want)
            if drop:
                db.drop_matching_records(q)
                left = outside if op == "$in" else inside
                check(sorted(db.get_history()) == sorted(left), "%s: after dropping %r remain", name, db.get_history())
        ctx.nontrivial()
        ctx.tag(op)
    finally:
        lite.close()
        shutil.rmtree(tmp, ignore_errors=True)


_R = ((0, 0), {})
CORPUS = [
    ("UTC", [("add", "m0", _R), ("find", [], [])]),
    ("UTC", [("add", "m0", ((0, 0), {"queue": "a", "label": "b"})), ("add", "m1", ((1, 0), {"queue": "b", "label": "b"})), ("find", [("queue", ("val", "a")), ("label", ("val", "b"))], None)]),
    ("UTC", [("add", "m0", _R), ("add", "m1", ((4, 0), {})), ("find", [("submitted", ("ops", [("$gt", (2, 0))]))], None)]),
    ("UTC", [("add", "m0", _R), ("find", [("completed", ("ops", [("$gte", (2, 0))]))], None)]),
    ("UTC", [("add", "m0", _R), ("find", [("msg_id", ("ops", [("$in", [])]))], None), ("find", [], None)]),
    ("UTC", [("add", "m0", _R), ("find", [("engine_uuid", ("ops", [("$ne", "a")]))], None), ("find", [("engine_uuid", ("ops", [("$nin", ["a"])]))], None)]),
    ("America/New_York", [("add", "m0", ((0, 11), {})), ("add", "m1", ((5, -10), {})), ("find", [("submitted", ("ops", [("$gt", (2, "naive"))]))], None)]),
]
SUBS = [
    Sub("histories", strategy, run, quick=2000, thorough=60000, weight=5, examples=CORPUS),
    Sub("many_ids", big, run_big, quick=12, thorough=100, weight=1),
]
