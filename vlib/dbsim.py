"""Records, queries and a reference model for the task databases."""
import copy
import os
import tempfile
from datetime import datetime, timedelta, timezone

TEXT = ["client_uuid", "engine_uuid", "resubmitted", "queue", "execute_input", "stdout", "stderr", "label"]
TIMES = ["submitted", "started", "completed", "received"]
DICTS = ["header", "metadata", "content", "result_header", "result_metadata", "result_content"]
MDICTS = ["execute_result", "error"]  # dicts, or nothing
BUFS = ["buffers", "result_buffers"]
KEYS = ["msg_id"] + TEXT + TIMES + DICTS + MDICTS + BUFS
BASE = datetime(2024, 3, 10, 1, 0, 0, tzinfo=timezone.utc)


def mkdate(spec):
    """None, or (half seconds after BASE, utc offset in half hours, or 'naive')"""
    if spec is None:
        return None
    n, off = spec
    t = BASE + timedelta(seconds=n / 2, microseconds=(n % 3) * 100000)
    if off == "naive":
        return t.astimezone().replace(tzinfo=None)
    return t.astimezone(timezone(timedelta(minutes=30 * off)))


def aware(d):
    return d.astimezone() if isinstance(d, datetime) and d.tzinfo is None else d


def norm(rec):
    """records are compared with: times as instants, no buffers and empty buffers alike"""
    out = {}
    for k, v in rec.items():
        if isinstance(v, datetime):
            v = aware(v).astimezone(timezone.utc)
        if k in BUFS:
            v = [bytes(b) for b in (v or [])]
        out[k] = v
    return out


def matches(rec, query):
    import fnmatch

    for key, cond in query.items():
        v = aware(rec.get(key))
        if not isinstance(cond, dict):
            if v != aware(cond):
                return False
            continue
        for op, arg in cond.items():
            arg = [aware(a) for a in arg] if isinstance(arg, (list, tuple)) else aware(arg)
            if op == "$eq":
                ok = v == arg
            elif op == "$ne":
                ok = v != arg
            elif op == "$in":
                ok = v in arg
            elif op == "$nin":
                ok = v not in arg
            elif op == "$exists":
                ok = (v is not None) == bool(arg)
            elif op == "$glob":
                ok = v is not None and fnmatch.fnmatchcase(v, arg)
            else:
                if v is None or arg is None:
                    ok = False
                else:
                    ok = {"$lt": v < arg, "$gt": v > arg, "$lte": v <= arg, "$gte": v >= arg}[op]
            if not ok:
                return False
    return True


def strategies():
    from hypothesis import strategies as st

    text = st.sampled_from(["a", "b", "ab", "B", "aa", "", "b\u00e9", "a*", "with 'quote'", "\U0001f600"])
    mtext = st.one_of(st.none(), text)
    date = st.tuples(st.integers(0, 12), st.sampled_from([0, 0, 0, 11, -10, 2]))
    mdate = st.one_of(st.none(), date)
    leaf = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), text, st.floats(-10, 10))
    dic = st.dictionaries(st.sampled_from(["k", "msg_id", "status", "z"]), st.one_of(leaf, st.lists(leaf, max_size=2), st.dictionaries(text, leaf, max_size=2)), max_size=3)
    bufs = st.lists(st.binary(max_size=12), max_size=3)
    fields = {}
    for k in TEXT:
        fields[k] = mtext
    for k in TIMES[1:]:
        fields[k] = mdate
    for k in DICTS:
        fields[k] = dic
    for k in MDICTS:
        fields[k] = st.one_of(st.none(), dic)
    for k in BUFS:
        fields[k] = bufs
    partial = st.dictionaries(st.sampled_from(sorted(fields)), st.integers(0, 0), max_size=5).flatmap(
        lambda d: st.fixed_dictionaries({k: fields[k] for k in d}))
    small = st.sampled_from(["a", "b", "ab", None])
    sdate = st.one_of(st.none(), st.tuples(st.integers(0, 5), st.sampled_from([0, 11, -10])))
    dense = st.fixed_dictionaries({"client_uuid": small, "engine_uuid": small, "queue": small, "label": small,
                                   "started": sdate, "completed": sdate})
    rec = st.tuples(date, st.tuples(partial, dense).map(lambda t: dict(t[0], **t[1])))
    upd = partial.filter(lambda d: d)

    # queries
    tkey = st.sampled_from(["client_uuid", "engine_uuid", "queue", "label", "queue", "label", "stdout"])
    dkey = st.sampled_from(["submitted", "started", "completed", "received"])
    qtext = st.one_of(st.sampled_from(["a", "b", "ab"]), text)
    mid = st.sampled_from(["m%d" % i for i in range(8)])
    qdate = st.tuples(st.integers(0, 12), st.sampled_from([0, 0, 11, -10, "naive"]))
    ops = ["$lt", "$gt", "$lte", "$gte", "$eq", "$ne"]

    def cond(val, lval=None):
        op = st.tuples(st.sampled_from(ops), val)
        none = st.tuples(st.sampled_from(["$eq", "$ne"]), st.none())
        lst = st.tuples(st.sampled_from(["$in", "$nin"]), st.lists(lval or val, max_size=4))
        one = st.one_of(op, op, none, lst)
        return st.one_of(val.map(lambda v: ("val", v)), st.just(("val", None)), st.lists(one, min_size=1, max_size=2).map(lambda l: ("ops", l)))

    glob = st.sampled_from(["*", "a*", "?", "*b", "a?", "[ab]*", "*'*"]).map(lambda g: ("ops", [("$glob", g)]))
    ex = st.booleans().map(lambda b: ("ops", [("$exists", b)]))
    clause = st.one_of(st.tuples(tkey, cond(qtext)), st.tuples(dkey, cond(qdate, date)), st.tuples(st.just("msg_id"), cond(mid)),
                       st.tuples(tkey, glob), st.tuples(st.one_of(tkey, dkey), ex))
    query = st.lists(clause, max_size=3)
    return dict(rec=rec, upd=upd, query=query, mid=mid, date=date)


def mkval(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int):
        return mkdate(v)
    if isinstance(v, list):
        return [mkval(x) for x in v]
    return v


def mkquery(spec, exists=True):
    q = {}
    for key, (kind, v) in spec:
        if kind == "val":
            q[key] = mkval(v)
        else:
            d = {}
            for op, arg in v:
                if op == "$exists" and not exists:
                    continue
                d[op] = mkval(arg)
            if d:
                q[key] = d
            elif key in q:
                del q[key]
    return q


def mkrec(mid, spec):
    date, fields = spec
    rec = {k: None for k in KEYS}
    for k in DICTS:
        rec[k] = {}
    for k in BUFS:
        rec[k] = []
    rec["msg_id"] = mid
    rec["submitted"] = mkdate(date)
    for k, v in fields.items():
        rec[k] = mkdate(v) if k in TIMES else copy.deepcopy(v)
    return rec


def open_sqlite(path, **kw):
    import warnings

    from vlib.fakes import quiet_log
    from tornado import ioloop
    from ipyparallel.controller.sqlitedb import SQLiteDB

    orig = ioloop.PeriodicCallback
    timers = []

    class Timer:
        def __init__(self, cb, ms, *a, **k):
            self.cb, self.ms, self.running = cb, ms, False
            timers.append(self)

        def start(self):
            self.running = True

        def stop(self):
            self.running = False

        def is_running(self):
            return self.running

    ioloop.PeriodicCallback = Timer
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            db = SQLiteDB(location=os.path.dirname(path), filename=os.path.basename(path), log=quiet_log(), **kw)
    finally:
        ioloop.PeriodicCallback = orig
    return db, timers
