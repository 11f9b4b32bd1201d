"""C11: culling of the in-memory database and durability of the SQLite database."""
import copy
import os
import shutil
import sqlite3
import tempfile

from vlib import dbsim
from vlib.runner import Sub, Violation, check

PROPERTY = "C11"
RULE = ("cases: (culling) limits and a history of additions, updates and drops with generated buffer sizes and submission times on one or two "
        "DictDBs against a reference culling model; (durability) histories on SQLite files with close/reopen, commit timer, crash copies, "
        "several tables and pre-existing tables of another format. Non-trivial: something was culled, or a record survived a reopening")
ASSUMPTIONS = ["a crash is simulated by copying the database files as they are on disk at that point",
               "the commit timer is invoked by the harness"]
SHARDS = 4
QUICK_S = 20
THOROUGH_S = 300


def cull_strategy():
    from hypothesis import strategies as st
    from vlib.gen import oplist, weighted

    mid = st.integers(0, 30)
    bufs = st.lists(st.integers(0, 60), max_size=3)
    dbi = st.sampled_from([0, 0, 0, 1])
    op = weighted(
        (10, st.tuples(st.just("add"), dbi, mid, st.integers(0, 40), bufs, bufs)),
        (3, st.tuples(st.just("upd"), dbi, mid, st.sampled_from(["buffers", "result_buffers", "none"]), bufs)),
        (1, st.tuples(st.just("drop"), dbi, mid)),
        (1, st.tuples(st.just("dropq"), dbi, st.lists(mid, max_size=4))),
        (1, st.tuples(st.just("read"), dbi, mid)),
    )
    cfg = st.tuples(st.sampled_from([3, 5, 10, 20, 1000, 1]), st.sampled_from([50, 100, 200, 10000]), st.sampled_from([0.1, 0.2, 0.5, 0.0, 0.9, 1.0]))
    return st.tuples(cfg, cfg, oplist(op, 60, 25))


class Model:
    def __init__(self, limit, size, frac):
        self.limit, self.size, self.frac = limit, size, frac
        self.recs = {}
        self.culled = set()
        self.n = 0

    def bytes(self):
        return sum(sum(b) + sum(rb) for _, b, rb in self.recs.values())


def order(db_hist, recs):
    return [recs[m][0] for m in db_hist]


def run_cull(case, ctx):
    from vlib.fakes import quiet_log
    from ipyparallel.controller.dictdb import DictDB

    cfg0, cfg1, ops = case
    dbs, models = [], []
    for lim, size, frac in (cfg0, cfg1):
        db = DictDB(log=quiet_log(), record_limit=lim, size_limit=size, cull_fraction=frac)
        dbs.append(db)
        models.append(Model(lim, size, frac))
    for op in ops:
        name, i = op[0], op[1]
        db, m = dbs[i], models[i]
        before = dict(m.recs)
        if name == "add":
            mid, t, bufs, rbufs = "m%d" % op[2], op[3], op[4], op[5]
            if mid in m.recs:
                continue
            rec = dbsim.mkrec(mid, ((t, 0), {}))
            rec["buffers"] = [b"x" * n for n in bufs]
            rec["result_buffers"] = [b"y" * n for n in rbufs]
            db.add_record(mid, rec)
            m.recs[mid] = (t, bufs, rbufs)
            m.culled.discard(mid)
        elif name == "upd":
            mid, key, bufs = "m%d" % op[2], op[3], op[4]
            d = {"stdout": "s"}
            if key != "none":
                d[key] = [b"z" * n for n in bufs]
            try:
                db.update_record(mid, d)
                updated = True
            except KeyError:
                updated = False
            check(updated == (mid in m.recs), "updating %r (present: %s) %s", mid, mid in m.recs, "worked" if updated else "failed")
            if not updated:
                continue
            t, b, rb = m.recs[mid]
            m.recs[mid] = (t, bufs if key == "buffers" else b, bufs if key == "result_buffers" else rb)
        elif name == "drop":
            mid = "m%d" % op[2]
            if mid not in m.recs:
                continue
            db.drop_record(mid)
            del m.recs[mid]
        elif name == "dropq":
            mids = ["m%d" % k for k in op[2]]
            db.drop_matching_records({"msg_id": {"$in": mids}})
            for k in mids:
                m.recs.pop(k, None)
        elif name == "read":
            pass
        # what was culled
        hist = db.get_history()
        gone = set(m.recs) - set(hist)
        check(set(hist) <= set(m.recs), "records %r appeared", set(hist) - set(m.recs))
        if gone:
            check(name in ("add", "upd"), "%s dropped other records: %r", name, gone)
            ctx.tag("culled")
            ctx.nontrivial()
            newest_gone = max(m.recs[k][0] for k in gone)
            oldest_left = min([m.recs[k][0] for k in hist], default=None)
            check(oldest_left is None or newest_gone <= oldest_left, "culled a record submitted at %r, kept one submitted at %r", newest_gone, oldest_left)
            over_n = len(m.recs) > m.limit
            over_b = m.bytes() > m.size
            check(over_n or over_b, "culled %r although within the limits (%d of %d records, %d of %d bytes)", gone, len(m.recs), m.limit, m.bytes(), m.size)
            # no more than asked for
            n_max = max(int(m.frac * m.limit), len(m.recs) - m.limit) if over_n else 0
            if over_n and not over_b:
                check(len(gone) <= n_max, "culled %d of %d records (limit %d, fraction %r)", len(gone), len(m.recs), m.limit, m.frac)
                check(len(gone) >= int(m.frac * m.limit), "culled %d of %d records (limit %d, fraction %r)", len(gone), len(m.recs), m.limit, m.frac)
            if over_b and not over_n:
                # dropping oldest first until the fraction is free: keeping one more would be too much
                left = sum(sum(m.recs[k][1]) + sum(m.recs[k][2]) for k in hist)
                target = m.size * (1 - m.frac)
                check(left <= target + 1e-6, "%d bytes left after culling, more than %r", left, target)
                last = [k for k in gone if m.recs[k][0] == newest_gone]
                big = max(sum(m.recs[k][1]) + sum(m.recs[k][2]) for k in last)
                if len(last) == len([k for k in m.recs if m.recs[k][0] == newest_gone]) == 1:
                    check(left + big > target, "culled more than needed: %d bytes left, %d in the last one culled, target %r", left, big, target)
            for k in gone:
                del m.recs[k]
                m.culled.add(k)
        if name in ("add", "upd"):
            check(len(hist) <= m.limit, "%d records, limit %d", len(hist), m.limit)
            check(m.bytes() <= m.size, "%d bytes of buffers, limit %d", m.bytes(), m.size)
        # the other database is not affected
        other = 1 - i
        check(sorted(dbs[other].get_history()) == sorted(models[other].recs), "an operation on one database changed another")
        for k in sorted(set(before) | set(m.recs))[:6] + ["m%d" % (op[2] if isinstance(op[2], int) else 0)]:
            for j in (i, other):
                try:
                    rec = dbs[j].get_record(k)
                except KeyError as e:
                    check(k not in models[j].recs, "record %r of database %d cannot be read: %s", k, j, e)
                    said = "cull" in str(e)
                    check(said == (k in models[j].culled), "database %d says %s about %r, which was %s", j, e, k,
                          "culled" if k in models[j].culled else "not culled")
                else:
                    check(k in models[j].recs, "database %d returned %r, which it should not have", j, k)
                    check(rec["msg_id"] == k, "wrong record")
                    _, b, rb = models[j].recs[k]
                    check([len(x) for x in rec["buffers"]] == b and [len(x) for x in rec["result_buffers"]] == rb, "buffers of %r changed", k)


def lite_strategy():
    from hypothesis import strategies as st
    from vlib.gen import oplist, weighted

    s = dbsim.strategies()
    op = weighted(
        (6, st.tuples(st.just("add"), s["mid"], s["rec"])),
        (3, st.tuples(st.just("upd"), s["mid"], s["upd"])),
        (1, st.tuples(st.just("drop"), s["mid"])),
        (2, st.tuples(st.just("reopen"))),
        (1, st.tuples(st.just("tick"))),
        (2, st.tuples(st.just("crash"))),
        (1, st.tuples(st.just("switch"), st.integers(0, 3))),
        (1, st.tuples(st.just("oldtable"), st.integers(0, 3), st.sampled_from(["column", "type", "order"]))),
    )
    return oplist(op, 20, 8)


TABLES = [{"table": "ipython-tasks"}, {"table": "other"}, {"table": "", "session": "abc-def"}, {"table": "", "session": "11111111-2222"}]


def run_lite(case, ctx):
    tmp = tempfile.mkdtemp()
    path = os.path.join(tmp, "tasks.db")
    models = {i: {} for i in range(len(TABLES))}
    committed = {i: {} for i in range(len(TABLES))}
    opened = set()
    spoiled = set()
    cur = 0
    db = timers = None

    def open_(i):
        opened.add(i)
        return dbsim.open_sqlite(path, **TABLES[i])

    def compare(d, want, what):
        h = d.get_history()
        check(sorted(h) == sorted(want), "%s: holds %r, expected %r", what, sorted(h), sorted(want))
        for mid in want:
            g, w = dbsim.norm(d.get_record(mid)), dbsim.norm(want[mid])
            check(g == w, "%s: record %r is %r, expected %r", what, mid, {k: g.get(k) for k in w if g.get(k) != w[k]}, {k: w[k] for k in w if g.get(k) != w[k]})

    try:
        db, timers = open_(cur)
        for op in case:
            name, m = op[0], models[cur]
            if name == "add":
                if op[1] in m:
                    continue
                rec = dbsim.mkrec(op[1], op[2])
                db.add_record(op[1], copy.deepcopy(rec))
                m[op[1]] = rec
            elif name == "upd":
                if op[1] not in m:
                    continue
                d = {k: (dbsim.mkdate(v) if k in dbsim.TIMES else copy.deepcopy(v)) for k, v in op[2].items()}
                db.update_record(op[1], copy.deepcopy(d))
                m[op[1]].update(d)
            elif name == "drop":
                if op[1] in m:
                    db.drop_record(op[1])
                    del m[op[1]]
            elif name == "tick":
                for t in timers:
                    check(t.running, "the commit timer is not running")
                    t.cb()
                if timers:
                    committed[cur] = copy.deepcopy(m)
            elif name in ("reopen", "switch"):
                db.close()
                check(not any(t.running for t in timers), "the commit timer still runs after closing")
                committed[cur] = copy.deepcopy(m)
                if name == "switch":
                    cur = op[1]
                db, timers = open_(cur)
                compare(db, models[cur], "after reopening")
                if models[cur]:
                    ctx.nontrivial()
                    ctx.tag(name)
            elif name == "crash":
                # what another process finds on disk if this one dies now: everything committed
                cp = os.path.join(tmp, "copy")
                shutil.rmtree(cp, ignore_errors=True)
                os.mkdir(cp)
                for f in os.listdir(tmp):
                    if f.startswith("tasks.db"):
                        shutil.copy(os.path.join(tmp, f), cp)
                db2, _ = dbsim.open_sqlite(os.path.join(cp, "tasks.db"), **TABLES[cur])
                try:
                    h = db2.get_history()
                    want = committed[cur]
                    # at least what was committed; uncommitted changes may or may not be there
                    same_as_now = sorted(h) == sorted(models[cur])
                    if not same_as_now:
                        compare(db2, want, "after a crash")
                    for mid in h:
                        g = dbsim.norm(db2.get_record(mid))
                        ok = [x for x in (want.get(mid), models[cur].get(mid)) if x is not None and dbsim.norm(x) == g]
                        check(ok, "after a crash: record %r is neither the committed nor the latest version", mid)
                finally:
                    db2.close()
                if committed[cur]:
                    ctx.nontrivial()
                    ctx.tag("crash")
            elif name == "oldtable":
                i, how = op[1], op[2]
                if i in opened or i in spoiled:
                    continue
                # a table of an older version occupies the name
                spoiled.add(i)
                tname = TABLES[i]["table"] or "_" + TABLES[i]["session"].replace("-", "_")
                db.close()
                committed[cur] = copy.deepcopy(models[cur])
                con = sqlite3.connect(path)
                if how == "column":
                    con.execute("CREATE TABLE '%s' (msg_id text PRIMARY KEY, header dict text)" % tname)
                    con.execute("INSERT INTO '%s' VALUES ('old', '{}')" % tname)
                else:
                    cols = [r[1:3] for r in con.execute("PRAGMA table_info('%s')" % db.table)]
                    if how == "type":
                        cols = [(c, "integer" if c == "started" else t) for c, t in cols]
                    else:
                        cols = cols[:1] + cols[:0:-1]
                    con.execute("CREATE TABLE '%s' (%s)" % (tname, ", ".join("%s %s" % (c, t) for c, t in cols)))
                    con.execute("INSERT INTO '%s' (msg_id, queue) VALUES ('old', 'q')" % tname)
                con.commit()
                con.close()
                db2, _ = open_(i)
                check(db2.table != tname, "a table of another format is used for new records")
                check(db2.get_history() == [], "records of a table of another format show up: %r", db2.get_history())
                rec = dbsim.mkrec("m0", ((1, 0), {"queue": "new"}))
                db2.add_record("m0", copy.deepcopy(rec))
                models[i]["m0"] = rec
                db2.close()
                con = sqlite3.connect(path)
                rows = con.execute("SELECT msg_id FROM '%s'" % tname).fetchall()
                con.close()
                check(rows == [("old",)], "the old table was changed: %r", rows)
                db, timers = open_(cur)
                ctx.tag("oldtable_" + how)
        compare(db, models[cur], "at the end")
        db.close()
        db = None
        for i in opened:
            d, _ = dbsim.open_sqlite(path, **TABLES[i])
            try:
                compare(d, models[i], "table %d, finally" % i)
            finally:
                d.close()
    finally:
        if db is not None:
            try:
                db.close()
            except Exception:
                pass
        shutil.rmtree(tmp, ignore_errors=True)


CORPUS = [
    ((3, 10000, 0.1), (3, 50, 0.1), [("add", 0, i, i, [], []) for i in range(6)]),
    ((3, 10000, 0.5), (3, 50, 0.1), [("add", 0, i, i, [], []) for i in range(6)] + [("add", 1, 0, 3, [], []), ("add", 0, 0, 30, [], []), ("upd", 0, 0, "buffers", [3])]),
]
SUBS = [
    Sub("culling", cull_strategy, run_cull, quick=1600, thorough=50000, weight=2, examples=CORPUS),
    Sub("sqlite_files", lite_strategy, run_lite, quick=800, thorough=20000, weight=2),
]
