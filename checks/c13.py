"""C13: the hub's answers to clients against a model of the traffic it observed.

Real Hub, DictDB and SQLiteDB (in a scratch directory), in-memory streams. Requests, destinations,
results and outputs are built by real Sessions the way the schedulers and engines forward them."""
import os
import shutil
import tempfile
from datetime import datetime

from vlib import hubsim
from vlib.runner import Sub, Violation, check, same

PROPERTY = "C13"
RULE = ("cases: database, histories of direct and load-balanced submissions, destinations (again after retries), results (ok, error, aborted, "
        "failed by the scheduler), outputs before, during and after, purges, resubmissions, and every kind of query, also invalid. "
        "Non-trivial: at least two tasks, one of them finished, and a query, purge or resubmission after that")
ASSUMPTIONS = ["each connection delivers in order, so a destination or result follows its submission; outputs come on another connection, at any time",
               "the captured output is stdout, stderr, error, execute_input and execute_result; display data is not kept",
               "the reply for a finished task that was purged is not specified, other than being one reply"]
SHARDS = 6
QUICK_S = 25
THOROUGH_S = 400

ENGINES = ["e0", "e1", "e2"]
OUT = ["stdout", "stderr", "error", "execute_input", "execute_result"]


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import oplist, weighted

    i = st.integers(0, 15)
    e = st.integers(0, 2)
    text = st.sampled_from(["a\n", "b", "\u00e9\n", "", "x" * 40])
    outp = st.tuples(st.sampled_from(OUT + ["stdout", "stdout", "display_data", "status"]), text)
    ids = st.lists(i, min_size=1, max_size=4)
    bufs = st.lists(st.binary(max_size=6), max_size=3)
    targets = st.one_of(st.none(), st.lists(e, min_size=1, max_size=3, unique=True), e, st.sampled_from(["e0", "nope"]), st.just([0, 77]), st.just([]))
    op = weighted(
        (8, st.tuples(st.just("submit"), st.integers(0, 1), st.sampled_from(["mux", "task"]), e, st.sampled_from(["apply_request", "execute_request"]),
                      st.sampled_from([None, "lab"]), bufs, st.lists(outp, max_size=2))),
        (2, st.tuples(st.just("held"), st.integers(0, 1), st.sampled_from(["mux", "task"]), e, st.sampled_from(["apply_request", "execute_request"]),
                      st.sampled_from([None, "lab"]), bufs, st.lists(outp, min_size=1, max_size=2))),
        (3, st.tuples(st.just("deliver"), i)),
        (5, st.tuples(st.just("dest"), i, e)),
        (9, st.tuples(st.just("done"), i, st.sampled_from(["ok", "ok", "ok", "error", "aborted", "failed"]), bufs)),
        (5, st.tuples(st.just("out"), i, outp)),
        (2, st.tuples(st.just("purge"), st.one_of(st.just("all"), ids, ids), st.lists(st.sampled_from([0, 1, 2, 77]), max_size=2), st.booleans())),
        (3, st.tuples(st.just("resubmit"), ids, st.booleans())),
        (3, st.tuples(st.just("result"), ids, st.booleans(), st.booleans())),
        (2, st.tuples(st.just("queue"), targets, st.booleans())),
        (2, st.tuples(st.just("load"), targets)),
        (1, st.just(("history",))),
        (3, st.tuples(st.just("db"), st.integers(0, 9), st.sampled_from([None, ["msg_id"], ["buffers"], ["result_buffers", "buffers", "queue"], ["stdout", "completed"]]), i)),
        (2, st.tuples(st.just("bad"), st.integers(0, 9))),
        (1, st.just(("late_engine",))),
    )
    return st.tuples(st.sampled_from(["dict", "sqlite"]), oplist(op, 30))


def parse(d):
    from jupyter_client.jsonutil import parse_date

    d = parse_date(d) if isinstance(d, str) else d
    return d.astimezone() if isinstance(d, datetime) and d.tzinfo is None else d


def plain(x):
    """dates as instants"""
    import re

    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, datetime):
        return parse(x)
    if isinstance(x, str) and re.match(r"^\d{4}-\d\d-\d\dT\d\d:\d\d", x):
        return parse(x)
    return x


class Task:
    def __init__(self):
        self.io = {"stdout": "", "stderr": "", "error": None, "execute_input": None, "execute_result": None}
        self.submitted = False
        self.pending = False
        self.engine = None
        self.unassigned = False
        self.result = None
        self.resubmitted = None
        self.purged = False
        self.status = None
        self.client_uuid = None
        self.queue = None
        self.known = False    # the hub has a record
        self.finished_on = None
        self.later = None


class World:
    def __init__(self, kind, ctx):
        from vlib import dbsim

        self.ctx = ctx
        self.tmp = tempfile.mkdtemp(prefix="verif-c13-")
        if kind == "sqlite":
            self.db, _ = dbsim.open_sqlite(os.path.join(self.tmp, "tasks.db"), table="t")
        else:
            from ipyparallel.controller.dictdb import DictDB

            self.db = DictDB(log=hubsim.quiet_log())
        self.box = hubsim.Box(db=self.db)
        self.clients = [hubsim.make_session(hubsim.KEY, "client%d" % i) for i in range(2)]
        self.engine_sessions = {}
        self.sched = hubsim.make_session(hubsim.KEY, "scheduler")
        self.engines = []
        for u in ENGINES:
            self.add_engine(u)
        self.tasks = []

    def add_engine(self, u):
        s = self.engine_sessions[u] = hubsim.make_session(hubsim.KEY, u)
        self.box.request(s, b"r", "registration_request", {"uuid": u})
        self.box.mon([b"heartmonitor", b""], self.sched, "new_heart", {"hearts": [u]})
        self.engines.append(u)

    def close(self):
        if hasattr(self.db, "close"):
            self.db.close()
        shutil.rmtree(self.tmp, ignore_errors=True)

    def ask(self, msg_type, content):
        return self.box.request(self.clients[0], b"c0", msg_type, content)

    def by_id(self, mid):
        for t in self.tasks:
            if t.msg["header"]["msg_id"] == mid:
                return t

    def output(self, t, kind, text):
        u = t.engine or "e0"
        s = self.engine_sessions[u]
        if kind in ("stdout", "stderr"):
            mt, c = "stream", {"name": kind, "text": text}
            t.io[kind] += text
        elif kind == "error":
            mt, c = "error", {"ename": "E", "evalue": text, "traceback": []}
            t.io["error"] = c
        elif kind == "execute_input":
            mt, c = "execute_input", {"code": text, "execution_count": 1}
            t.io["execute_input"] = text
        elif kind == "execute_result":
            mt, c = "execute_result", {"data": {"text/plain": text}, "metadata": {}, "execution_count": 1}
            t.io["execute_result"] = c
        elif kind == "display_data":
            mt, c = "display_data", {"data": {"text/plain": text}, "metadata": {}}
        else:
            mt, c = "status", {"execution_state": "busy"}
        self.box.mon([b"iopub", b"engine.%s" % u.encode()], s, mt, c, parent=t.msg["header"])
        if kind != "status":
            t.known = True


def run(case, ctx):
    kind, ops = case
    w = World(kind, ctx)
    stats = {"after": 0}
    try:
        for op in ops:
            step(w, op, ctx, stats)
            brief(w)
        full(w)
        n = len([t for t in w.tasks if t.submitted])
        if n >= 2 and any(t.result for t in w.tasks) and stats["after"]:
            ctx.nontrivial()
    finally:
        w.close()


def deliver(w, t):
    """a submission the hub learns about"""
    cid = b"c%d" % t.client
    prefix = [b"in", t.engine.encode(), cid] if t.later == "mux" else [b"intask", cid]
    w.box.run(lambda: w.box.monitor.deliver(prefix + t.frames + t.bufs))
    t.submitted = t.pending = t.known = True
    t.unassigned = t.later == "task"
    t.queue = t.later
    t.client_uuid = t.uuid


def mid(t):
    return t.msg["header"]["msg_id"]


def pick(w, idx, f=lambda t: True):
    ts = [t for t in w.tasks if f(t)]
    return ts[idx % len(ts)] if ts else None


def step(w, op, ctx, stats):
    box = w.box
    name = op[0]
    if any(t.result for t in w.tasks) and name in ("result", "queue", "load", "history", "db", "purge", "resubmit"):
        stats["after"] += 1
    if name in ("submit", "held"):
        _, ci, qname, e, mt, label, bufs, early = op
        c = w.clients[ci]
        t = Task()
        n = len(w.tasks)
        content = {"n": n} if mt == "apply_request" else {"code": "n = %d" % n, "silent": False}
        md = {"targets": [], "n": n}
        if label:
            md["label"] = label
        t.msg = c.msg(mt, content=content, metadata=md)
        t.frames = [bytes(b) for b in c.serialize(t.msg)]
        t.bufs = bufs
        t.client = ci
        w.tasks.append(t)
        if early:
            ctx.tag("output_first")
        t.engine = w.engines[e] if qname == "mux" else None
        for k, text in early:
            w.output(t, k, text)
        t.later = qname
        t.label = label
        t.uuid = c.session
        if name == "submit":
            deliver(w, t)
        else:
            ctx.tag("output_long_before")
    elif name == "deliver":
        t = pick(w, op[1], lambda t: not t.submitted and not t.purged and t.later)
        if t:
            deliver(w, t)
    elif name == "dest":
        t = pick(w, op[1], lambda t: t.pending and t.queue == "task")
        if t:
            if t.engine:
                ctx.tag("retried")
            t.engine = w.engines[op[2] % len(w.engines)]
            t.unassigned = False
            box.mon([b"tracktask", b"sched"], w.sched, "task_destination", {"msg_id": mid(t), "engine_id": t.engine})
    elif name == "done":
        t = pick(w, op[1], lambda t: t.pending and t.queue)
        if not t:
            return
        how = op[2]
        if t.queue == "mux" and how == "failed":
            how = "error"
        if t.engine is None:
            how = "failed"
        bufs = op[3] if how == "ok" else []
        reply_type = t.msg["header"]["msg_type"].replace("request", "reply")
        if how == "failed":
            content = {"status": "error", "ename": "Impossible", "evalue": "x", "traceback": [], "engine_info": {}}
            msg = w.sched.msg("apply_reply", content=content, parent=t.msg["header"])
            fr = w.sched.serialize(msg)
            box.run(lambda: box.monitor.deliver([b"outtask", b"c%d" % t.client] + fr))
            on = ""
        else:
            s = w.engine_sessions[t.engine]
            content = {"status": how, "n": len(w.tasks)}
            if how == "error":
                content.update(ename="E", evalue="v", traceback=["t"], engine_info={"engine_uuid": t.engine})
            md = {"engine": t.engine, "status": how, "started": datetime.now().astimezone(), "dependencies_met": True, "label": t.label}
            msg = s.msg(reply_type, content=content, parent=t.msg["header"], metadata=md)
            fr = [bytes(b) for b in s.serialize(msg)]
            cid = b"c%d" % t.client
            prefix = [b"out", cid, t.engine.encode()] if t.queue == "mux" else [b"outtask", cid]
            box.run(lambda: box.monitor.deliver(prefix + fr + bufs))
            on = t.engine
        t.result = dict(content=content, bufs=bufs, header=msg["header"], metadata=msg["metadata"])
        t.pending = t.unassigned = False
        t.status = how
        t.finished_on = on
        ctx.tag(how)
    elif name == "out":
        t = pick(w, op[1], lambda t: not t.purged)
        if t:
            if t.result:
                ctx.tag("output_last")
            w.output(t, *op[2])
    elif name == "purge":
        _, which, eids, bogus = op
        if which == "all":
            ids = "all"
        else:
            ts = {id(x): x for x in (pick(w, i) for i in which) if x}
            ids = [mid(x) for x in ts.values()] + (["nope"] if bogus else [])
        t_, c, _ = w.ask("purge_request", {"msg_ids": ids, "engine_ids": eids})
        same(t_, "purge_reply", "type of the reply to purge_request")
        if ids == "all":
            same(c["status"], "ok", "purge all")
            for t in w.tasks:
                if t.result:
                    t.purged = True
        else:
            ts = [w.by_id(m) for m in ids if w.by_id(m)]
            if any(t.pending for t in ts):
                check(c["status"] == "error", "purging a pending task was not refused")
                ctx.tag("refused_purge")
            else:
                for t in ts:
                    t.purged = True
                if 77 in eids:
                    check(c["status"] == "error", "purging results of an unknown engine was not refused")
                else:
                    same(c["status"], "ok", "purge_request")
                for e in eids:
                    if e == 77:
                        break
                    for t in w.tasks:
                        if t.result and t.finished_on == w.engines[e]:
                            t.purged = True
        ctx.tag("purge")
    elif name == "resubmit":
        ts = {id(x): x for x in (pick(w, i, lambda t: t.submitted and not t.purged) for i in op[1]) if x}
        ts = list(ts.values())
        ids = [mid(t) for t in ts] + (["nope"] if op[2] else [])
        gone = [t for t in w.tasks if t.purged]
        if not ids:
            return
        t_, c, _ = w.ask("resubmit_request", {"msg_ids": ids})
        same(t_, "resubmit_reply", "type of the reply to resubmit_request")
        sent = box.resubmit.take()
        if op[2]:
            check(c["status"] == "error", "resubmission of an unknown task was not refused")
            check(not sent, "some tasks were resubmitted with a refusal")
            return
        same(c["status"], "ok", "resubmit_request")
        same(sorted(c["resubmitted"]), sorted(ids), "resubmitted ids")
        new = c["resubmitted"]
        check(len(set(new.values())) == len(ids) and not any(w.by_id(n) for n in new.values()), "new ids are not new: %r", new)
        same(len(sent), len(ids), "number of tasks resubmitted")
        for fr in sent:
            i = fr.index(b"<IDS|MSG>")
            same(i, 0, "frames before the delimiter")
            _, m = box.parse(fr)
            old = [t for t in ts if new[mid(t)] == m["header"]["msg_id"]]
            check(len(old) == 1, "resubmitted under an id that was not told: %r", m["header"])
            old = old[0]
            same(plain(m["content"]), plain(old.msg["content"]), "resubmitted content")
            same(plain(m["metadata"]), plain(old.msg["metadata"]), "resubmitted metadata")
            same([bytes(b) for b in m["buffers"]], old.bufs, "resubmitted buffers")
            same(m["header"]["msg_type"], old.msg["header"]["msg_type"], "resubmitted type")
            t = Task()
            t.msg = m
            t.frames = fr
            t.bufs = old.bufs
            t.client = 0
            t.label = old.label
            t.pending = t.known = True
            t.date_loose = True
            w.tasks.append(t)
            old.resubmitted = mid(t)
        ctx.tag("resubmit")
        # they are known from now on
        _, c, bufs = w.ask("db_request", {"query": {"msg_id": {"$in": sorted(new.values())}}, "keys": ["msg_id", "content", "completed", "buffers"]})
        same(c["status"], "ok", "db_request for resubmitted tasks")
        same(sorted(r["msg_id"] for r in c["records"]), sorted(new.values()), "records of resubmitted tasks")
        n = 0
        for r, k in zip(c["records"], c["buffer_lens"]):
            t = w.by_id(r["msg_id"])
            same((plain(r["content"]), r["completed"], bufs[n:n + k]), (plain(t.msg["content"]), None, t.bufs), "record of a resubmitted task")
            n += k
        # the scheduler gets them (later, with anything in between)
        for fr in sent:
            t = w.by_id(box.parse(fr)[1]["header"]["msg_id"])
            status(w)
            f = fr[:]
            box.run(lambda: box.monitor.deliver([b"intask", b"hub-resubmit"] + f))
            t.submitted = True
            t.unassigned = True
            t.queue = "task"
            t.client_uuid = t.msg["header"]["session"]
    elif name == "result":
        ts = {id(x): x for x in (pick(w, i, lambda t: not t.purged) for i in op[1]) if x}
        results(w, list(ts.values()), op[2], op[3])
    elif name == "queue":
        queue(w, op[1], op[2])
    elif name == "load":
        load(w, op[1])
    elif name == "history":
        history(w)
    elif name == "db":
        dbquery(w, op[1], op[2], op[3])
    elif name == "bad":
        bad = [
            ("result_request", {}), ("queue_request", {}), ("load_request", {}), ("resubmit_request", {}), ("nonsense_request", {}),
            ("db_request", {"query": {"nokey": 1}}), ("db_request", {"query": {"msg_id": {"$nop": 1}}}), ("resubmit_request", {"msg_ids": ["nope"]}),
            ("result_request", {"msg_ids": ["nope"], "status_only": True}), ("result_request", {"msg_ids": ["nope"]}),
        ][op[1]]
        t_, c, _ = w.ask(*bad)
        if not (bad[0] == "db_request" and c["status"] == "ok" and not w.tasks):
            if bad[0] == "db_request":
                # which keys and operators are known is up to the database
                pass
            else:
                check(c["status"] == "error", "%s %r got %s", bad[0], bad[1], c["status"])
        ctx.tag("bad_request")
    elif name == "late_engine":
        if len(w.engines) < 4:
            w.add_engine("e3")


def status(w):
    ts = [t for t in w.tasks if t.known and not t.purged]
    if not ts:
        return
    _, c, bufs = w.ask("result_request", {"msg_ids": [mid(t) for t in ts], "status_only": True})
    same(c["status"], "ok", "result_request")
    same(sorted(c["completed"]), sorted(mid(t) for t in ts if t.result), "finished tasks")
    same(sorted(c["pending"]), sorted(mid(t) for t in ts if not t.result), "pending tasks")
    same(bufs, [], "buffers")


def brief(w):
    status(w)


def results(w, ts, status_only, bogus):
    ids = [mid(t) for t in ts]
    if not ids and not bogus:
        return
    ts = [t for t in ts if t.known]
    ids = [mid(t) for t in ts]
    t_, c, bufs = w.ask("result_request", {"msg_ids": ids + (["nope"] if bogus else []), "status_only": status_only})
    if bogus:
        check(c["status"] == "error", "result of an unknown task: %r", c)
        return
    if not ids:
        return
    same(c["status"], "ok", "result_request")
    done = [t for t in ts if t.result]
    same(sorted(c["completed"]), sorted(mid(t) for t in done), "finished tasks")
    same(sorted(c["pending"]), sorted(mid(t) for t in ts if not t.result), "pending tasks")
    if status_only:
        return
    want = []
    for t in sorted(done, key=mid):
        r = c[mid(t)]
        same(plain(r["header"]), plain(t.msg["header"]), "header")
        same(plain(r["metadata"]), plain(t.msg["metadata"]), "metadata")
        same(plain(r["result_header"]), plain(t.result["header"]), "result header")
        same(plain(r["result_metadata"]), plain(t.result["metadata"]), "result metadata")
        same(plain(r["result_content"]), plain(t.result["content"]), "result content")
        check(r["received"], "no time of arrival")
        same({k: v or None for k, v in r["io"].items()}, {k: v or None for k, v in t.io.items()}, "captured output")
        want.extend(t.result["bufs"])
    same(bufs, want, "result buffers")


def targets_of(w, targets):
    if targets is None:
        return list(range(len(w.engines)))
    if isinstance(targets, (int, str)):
        targets = [targets]
    out = []
    for x in targets:
        if isinstance(x, str):
            if x not in w.engines:
                return None
            x = w.engines.index(x)
        if x >= len(w.engines):
            return None
        out.append(x)
    return out or None


def expected_queue(w, e):
    u = w.engines[e]
    q = [mid(t) for t in w.tasks if t.queue == "mux" and t.pending and t.engine == u]
    k = [mid(t) for t in w.tasks if t.queue == "task" and t.pending and t.engine == u]
    c = [mid(t) for t in w.tasks if t.result and t.finished_on == u and not (t.queue == "task" and t.status == "aborted")]
    return {"queue": q, "tasks": k, "completed": c}


def queue(w, targets, verbose):
    eids = targets_of(w, targets)
    t_, c, _ = w.ask("queue_request", {"targets": targets, "verbose": verbose})
    if eids is None:
        check(c["status"] == "error", "queue_request for %r: %r", targets, c)
        return
    same(c["status"], "ok", "queue_request for %r" % (targets,))
    same({k for k in c if k not in ("status", "unassigned")}, {str(e) for e in eids}, "engines")
    un = [mid(t) for t in w.tasks if t.unassigned]
    same(sorted(c["unassigned"]) if verbose else c["unassigned"], sorted(un) if verbose else len(un), "unassigned")
    for e in eids:
        want = expected_queue(w, e)
        got = c[str(e)]
        same(set(got), set(want), "keys")
        for k in want:
            same(sorted(got[k]) if verbose else got[k], sorted(want[k]) if verbose else len(want[k]), "%s of engine %d" % (k, e))


def load(w, targets):
    eids = targets_of(w, targets)
    t_, c, _ = w.ask("load_request", {"targets": targets})
    if eids is None:
        check(c["status"] == "error", "load_request for %r: %r", targets, c)
        return
    same(c["status"], "ok", "load_request for %r" % (targets,))
    for e in eids:
        q = expected_queue(w, e)
        same(c[str(e)], len(q["queue"]) + len(q["tasks"]), "load of engine %d" % e)


def history(w):
    t_, c, _ = w.ask("history_request", {})
    same(c["status"], "ok", "history_request")
    known = [t for t in w.tasks if t.known and not t.purged]
    must = {mid(t) for t in known if t.submitted}
    may = {mid(t) for t in w.tasks if t.purged or t.known}
    got = c["history"]
    check(len(set(got)) == len(got), "history has duplicates: %r", got)
    check(must <= set(got) <= may, "history %r, expected %r", got, sorted(must))
    dates = [parse(w.by_id(m).msg["header"]["date"]) for m in got if m in must and w.by_id(m).submitted]
    check(dates == sorted(dates), "history is not in order of submission")


def dbquery(w, which, keys, i):
    from vlib import dbsim

    t = pick(w, i)
    alive = [t for t in w.tasks if t.known and not t.purged]
    sub = t.msg["header"]["date"] if t else None
    q, f = [
        ({}, lambda t: True),
        ({"completed": None}, lambda t: not t.result),
        ({"completed": {"$ne": None}}, lambda t: bool(t.result)),
        ({"msg_id": mid(t) if t else "nope"}, lambda x: t is x),
        ({"msg_id": {"$in": [mid(x) for x in w.tasks[i % 3::2]]}}, lambda x: x in w.tasks[i % 3::2]),
        ({"engine_uuid": "e1"}, lambda t: (t.finished_on if t.result else t.engine) == "e1" and t.submitted),
        ({"queue": "task"}, lambda t: t.queue == "task"),
        ({"client_uuid": "client1"}, lambda t: t.client_uuid == "client1"),
        ({"label": "lab", "queue": "mux"}, lambda t: t.queue == "mux" and t.label == "lab"),
        ({"submitted": {"$gte": sub}} if t and t.submitted else {"queue": "mux"},
         (lambda x: x.submitted and parse(x.msg["header"]["date"]) >= parse(sub)) if t and t.submitted else (lambda t: t.queue == "mux")),
    ][which]
    t_, c, bufs = w.ask("db_request", {"query": q, "keys": keys} if keys is not None else {"query": q})
    same(c["status"], "ok", "db_request %r" % (q,))
    purged = {mid(t) for t in w.tasks if t.purged}
    got = [r["msg_id"] for r in c["records"]]
    check(len(set(got)) == len(got), "records twice")
    want = {mid(t) for t in alive if f(t)}
    check(want <= set(got) <= want | purged, "%r found %r, expected %r", q, got, sorted(want))
    for k, attr in (("buffers", "buffer_lens"), ("result_buffers", "result_buffer_lens")):
        same(c[attr] is not None, keys is not None and k in keys, attr)
    n = 0
    for pos, r in enumerate(c["records"]):
        t = w.by_id(r["msg_id"])
        if keys is not None and "buffers" in keys:
            k = c["buffer_lens"][pos]
            if t.submitted and not t.purged:
                same(bufs[n:n + k], t.bufs, "buffers of %s" % r["msg_id"])
            n += k
        if keys is not None and "result_buffers" in keys:
            k = c["result_buffer_lens"][pos]
            if not t.purged:
                same(bufs[n:n + k], t.result["bufs"] if t.result else [], "result buffers of %s" % r["msg_id"])
            n += k
        if t.purged or not t.submitted:
            continue
        if keys is not None:
            same(set(r), (set(keys) | {"msg_id"}) - {"buffers", "result_buffers"}, "keys of the records")
        exp = dict(header=t.msg["header"], metadata=t.msg["metadata"], content=t.msg["content"], client_uuid=t.client_uuid, queue=t.queue,
                   label=t.label, resubmitted=t.resubmitted, **t.io)
        exp["engine_uuid"] = t.finished_on if t.result and t.queue == "task" else t.engine
        exp["submitted"] = t.msg["header"]["date"]
        if t.result:
            exp.update(result_header=t.result["header"], result_metadata=t.result["metadata"], result_content=t.result["content"],
                       completed=t.result["header"]["date"], started=t.result["metadata"].get("started"))
        else:
            exp.update(completed=None, result_content=None)
        for k in exp:
            if k in r:
                a, b = plain(r[k]), plain(exp[k])
                if k in ("engine_uuid",) and not a and not b:
                    continue
                if a in ({}, None, "") and b in ({}, None, ""):
                    continue
                same(a, b, "%s of a record" % k)
    same(n, len(bufs), "number of buffers")


def full(w):
    everything(w)
    # the next hub on the same database
    w.box = hubsim.Box(db=w.db)
    status(w)
    results(w, [t for t in w.tasks if t.known and not t.purged], False, False)
    history(w)
    dbquery(w, 0, ["buffers", "result_buffers"], 0)


def everything(w):
    status(w)
    results(w, [t for t in w.tasks if t.known and not t.purged], False, False)
    queue(w, None, True)
    load(w, None)
    history(w)
    for k in range(3):
        dbquery(w, 0, [None, ["buffers", "result_buffers"], ["completed"]][k], 0)


SUBS = [Sub("traffic", strategy, run, quick=2600, thorough=60000)]
