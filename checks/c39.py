"""C39: what a client learns from the hub about the tasks of any client, against a model that watches the hub's monitor."""
import contextlib
import concurrent.futures
import os
import shutil
import tempfile

from vlib.runner import HarnessError, Sub, Violation, check, same as _same

PROPERTY = "C39"
RULE = ("cases: histories of submissions by two clients of the same hub (direct and load-balanced; values, arrays, errors, code with output), messages delivered in any "
        "order, engines dying and joining, late output, and of one client asking the hub: results of either's tasks (one, several, of several clients; waiting, polling, "
        "iterating, as futures, with callbacks), status, history, queue status, database queries, purges, resubmissions, and any of these while the database fails; hubs with either database. Non-trivial: a client "
        "got results from the hub that it had no part in, or had to wait for them")
ASSUMPTIONS = ["the hub sees a reply before the client does (they are monitored where they pass)", "display data is not kept by the hub",
               "a task on an engine that dies is failed by the scheduler (C04)"]
SHARDS = 6
QUICK_S = 35
THOROUGH_S = 500


def same(a, b, what, *args):
    _same(a, b, what % args if args else what)


def strategy():
    from hypothesis import strategies as st

    from vlib.gen import weighted

    i = st.integers(0, 60)
    task = st.tuples(st.sampled_from(["ok", "ok", "err", "arr", "arrs", "none", "say", "bad"]), st.integers(0, 40))
    text = st.text("ab\né", min_size=1, max_size=4)
    ids = st.tuples(st.sampled_from(["single", "list", "list", "tuple", "ar"]), st.lists(i, min_size=1, max_size=4))
    late = st.tuples(st.just("late"), i, st.sampled_from(["stdout", "stderr", "error", "execute_result", "display_data"]), text)
    ops = [
        (8, st.tuples(st.just("submit"), st.integers(0, 1), st.sampled_from(["one", "all", "lb", "lb"]), st.sampled_from(["apply", "apply", "execute"]), task, st.integers(0, 63))),
        (8, st.tuples(st.just("step"), st.integers(1, 14))),
        (2, st.just(("run",))),
        (2, late),
        (1, st.tuples(st.just("kill"), i)),
        (1, st.just(("engine",))),
        (9, st.tuples(st.just("get"), ids, st.sampled_from(["zero", "get", "get", "iter", "future", "exception", "callback", "output", "interactive", "r", "dict", "display",
                                                            "when", "getwhen", "send", "item", "block", "short"]),
                      st.booleans(), st.integers(0, 2))),
        (3, st.tuples(st.just("status"), ids, st.booleans())),
        (1, st.tuples(st.just("unknown"), st.sampled_from(["get", "status", "resubmit", "list"]), i)),
        (1, st.just(("history",))),
        (1, st.tuples(st.just("broken"), st.sampled_from(["history", "query", "purge", "resubmit"]), i)),
        (2, st.tuples(st.just("queue"), st.one_of(st.just("all"), i, st.lists(i, max_size=3)), st.booleans())),
        (3, st.tuples(st.just("query"), st.sampled_from(["all", "ids", "done", "pending", "engine", "before", "after", "client"]), i,
                      st.lists(st.sampled_from(["header", "result_header", "buffers", "result_buffers", "submitted", "started", "completed", "received", "result_content",
                                                "engine_uuid", "stdout", "metadata", "content"]), min_size=1, max_size=4, unique=True).map(tuple) | st.none() | st.just("buffers"))),
        (1, st.tuples(st.just("purge"), st.one_of(st.just("all"), ids), st.integers(0, 7))),
        (2, st.tuples(st.just("resubmit"), ids, st.sampled_from(["later", "later", "block", "get"]))),
    ]
    return st.fixed_dictionaries({
        "db": st.sampled_from(["dict", "dict", "dict", "sqlite"]),
        "ids": st.one_of(st.integers(1, 3).map(lambda n: list(range(n))), st.lists(st.integers(0, 20), min_size=1, max_size=3, unique=True)),
        "ops": st.lists(weighted(*ops), min_size=2, max_size=14), "picks": st.lists(st.integers(0, 60), min_size=1, max_size=12)})


def job(kind, x):
    import numpy

    from vlib.clientsim import current_shell

    eid = current_shell().user_ns["engine_id"]
    if kind == "err":
        raise ValueError("%s on %s" % (x, eid))
    if kind == "arr":
        return numpy.arange(x * 40 + 1) + eid
    if kind == "arrs":
        return [numpy.arange(x * 40.0), b"b" * (x * 50), {"e": numpy.full((x, 2), eid)}]
    if kind == "none":
        return None
    if kind == "bad":
        return [numpy.arange(x * 9.0), BadLoad(), numpy.arange(300)]
    if kind == "say":
        print("said %s" % x)
    return (x, eid)


class BadLoad:
    """cannot be unpickled"""

    def __reduce__(self):
        return int, ("not an int",)


class Task:
    def __init__(self, mid, kind, what, client, uuid=None, label=None):
        self.mid = mid
        self.kind = kind              # direct, lb, resub
        self.what = what
        self.client = client
        self.uuid = uuid              # the engine's
        self.label = label
        self.result = None            # what the hub saw
        self.ready = False            # submitted completely
        self.purged = False
        self.resubmitted = None
        self.io = {"stdout": "", "stderr": "", "error": None, "execute_input": None, "execute_result": None}
        self.header = None
        self.bufs = None

    def __repr__(self):
        return "%s %s %r%s" % (self.kind, self.mid[-4:], self.what, " done" if self.result else "")


class World:
    def __init__(self, case, ctx):
        from vlib import dbsim
        from vlib.clientsim import Net

        self.ctx = ctx
        self.tmp = None
        db = None
        if case["db"] == "sqlite":
            self.tmp = tempfile.mkdtemp(prefix="verif-c39-")
            db, _ = dbsim.open_sqlite(os.path.join(self.tmp, "tasks.db"), table="t")
        self.db = db
        self.net = net = Net(case["ids"], picks=case["picks"], hub=True, db=db)
        self.peer = net.add_client()
        self.clients = [net.client, self.peer.client]
        for c in self.clients:
            c.block = False
        self.tasks = {}
        self.early = {}            # what the hub saw before the submission returned
        self.names = {}
        self.engines()
        self.lost = set()
        monitor = net._monitor

        def watch(topic, frames):
            self.see(topic, list(frames))
            monitor(topic, frames)

        net._monitor = watch
        deliver = net.to_client

        def to_client(stream, frames, peer=None):
            deliver(stream, frames, peer)
            if net.errors:
                raise Violation("an exception while a client handled a %s message:\n%s" % (stream, net.errors[0]))

        net.to_client = to_client

    def engines(self):
        self.names.update({e.uuid: i for i, e in self.net.engines.items()})

    def close(self):
        try:
            self.net.close()
        finally:
            if self.db is not None:
                self.db.close()
            if self.tmp:
                shutil.rmtree(self.tmp, ignore_errors=True)

    def see(self, topic, frames):
        """what the hub is about to get"""
        frames = [bytes(f) for f in frames]
        if b"<IDS|MSG>" not in frames:
            return
        i = frames.index(b"<IDS|MSG>")
        u = self.net.client.session.unpack
        header, parent, meta, content = [u(frames[i + k]) for k in (2, 3, 4, 5)]
        bufs = frames[i + 6:]
        mid = header["msg_id"]
        if topic in (b"in", b"intask"):
            t = self.tasks.setdefault(mid, Task(mid, None, None, None))
            t.header, t.metadata, t.content, t.bufs = header, meta, content, bufs
            if topic == b"in":
                t.uuid = frames[0].decode()
        elif topic == b"tracktask":
            self.tasks[content["msg_id"]].uuid = content["engine_id"]
        elif topic in (b"out", b"outtask"):
            t = self.tasks[parent["msg_id"]]
            if t.result is None:
                t.result = {"header": header, "metadata": meta, "content": content, "bufs": bufs, "by": "engine"}
                if meta.get("engine"):
                    t.uuid = meta["engine"]
        elif topic == b"iopub":
            t = self.tasks.get(parent.get("msg_id"))
            if t is None:
                return
            typ = header["msg_type"]
            if typ == "stream":
                t.io[content["name"]] += content["text"]
            elif typ == "execute_input":
                t.io[typ] = content["code"]
            elif typ in ("error", "execute_result"):
                t.io[typ] = content

    def known(self):
        """in the order of submission"""
        return [t for t in self.tasks.values() if t.what is not None and not t.purged]

    # -- what is expected ---------------------------------------------------------
    def want(self, t):
        r = t.result
        if r["by"] == "hub":
            return ("err", "EngineError", None)
        c = r["content"]
        eid = self.names.get(t.uuid)
        if r["metadata"].get("scheduler"):
            return ("err", "EngineError", None)
        if t.what[0] == "code":
            return ("err", "ValueError", str(t.what[2])) if t.what[1] == "err" else ("code", c["execution_count"])
        k, x = t.what
        if k == "err":
            return ("err", "ValueError", "%s on %s" % (x, eid))
        if k == "bad":
            return ("err", "ValueError", "invalid literal for int() with base 10: 'not an int'")
        import numpy

        return ("ok", {"none": lambda: None, "arr": lambda: numpy.arange(x * 40 + 1) + eid,
                       "arrs": lambda: [numpy.arange(x * 40.0), b"b" * (x * 50), {"e": numpy.full((x, 2), eid)}]}.get(k, lambda: (x, eid))())

    def failed(self, t):
        return self.want(t)[0] == "err"

    def judge(self, t, got, what, hub=True):
        from checks.c09 import norm
        from ipyparallel import error

        want = self.want(t)
        what = "%s of task %r" % (what, t)
        if want[0] == "err":
            check(isinstance(got, error.RemoteError), "%s: got %r, expected %r", what, got, want)
            same(got.ename, want[1], "%s: exception name", what)
            if want[2] is not None:
                same(got.evalue, want[2], "%s: exception value", what)
            if want[1] == "ValueError" and t.what[0] != "bad":
                same(got.engine_info.get("engine_uuid"), t.uuid, "%s: engine of the error", what)
                same(got.engine_info.get("engine_id"), self.names[t.uuid], "%s: engine id of the error", what)
        elif want[0] == "code":
            same(type(got).__name__, "ExecuteReply", "%s: type", what)
            same(got.execution_count, want[1], "%s: execution count", what)
            if t.io["execute_result"] and hub:
                same((got.execute_result or {}).get("data"), t.io["execute_result"]["data"], "%s: the value shown", what)
        else:
            same(norm(got), norm(want[1]), "%s", what)

    def judge_meta(self, t, md, c, what):
        from ipyparallel import error, util

        r = t.result
        what = "%s of task %r" % (what, t)
        same(md["msg_id"], t.mid, "msg_id in %s", what)
        bad = t.what[0] == "bad"
        same(md["status"], "error" if self.failed(t) and not bad else md["status"] if bad else "ok", "status in %s", what)
        same(md["engine_uuid"], t.uuid, "engine_uuid in %s", what)
        live = {e.uuid for e in self.net.engines.values()}
        if t.uuid in live:
            same(md["engine_id"], self.names[t.uuid], "engine_id in %s", what)
        else:
            check(md["engine_id"] in (None, self.names[t.uuid]), "engine_id in %s: %r", what, md["engine_id"])

        def stamp(x):
            return util._parse_date(x) if isinstance(x, str) else x
        same(stamp(md["submitted"]), stamp(t.header["date"]), "submitted in %s", what)
        if r["by"] == "engine":
            same(stamp(md["completed"]), stamp(r["header"]["date"]), "completed in %s", what)
            if r["metadata"].get("started"):
                same(stamp(md["started"]), stamp(r["metadata"]["started"]), "started in %s", what)
            check(md["received"] is not None, "received is missing in %s", what)
            if not r["metadata"].get("scheduler"):
                same(md["label"], t.label, "label in %s", what)
        for k in ("stdout", "stderr", "execute_input"):
            same(md[k], t.io[k], "%s in %s", k, what)
        same(md["execute_result"], t.io["execute_result"], "execute_result in %s", what)
        e = t.io["error"]
        if e is None:
            check(md["error"] is None, "error in %s: %r", what, md["error"])
        else:
            check(isinstance(md["error"], error.RemoteError), "error in %s is %r", what, md["error"])
            same((md["error"].ename, md["error"].evalue), (e["ename"], e["evalue"]), "error in %s", what)


def run(case, ctx):
    import warnings

    warnings.simplefilter("ignore")
    w = World(case, ctx)
    try:
        for op in case["ops"]:
            OPS[op[0]](w, *op[1:])
        # in the end, everything can be had from the hub
        w.net.run()
        for k, t in enumerate(list(w.known())[-6:]):
            get(w, ("single", [w.known().index(t)]), "get", k % 2, 1 - k // 2 % 2, by=1)
    finally:
        w.close()


# -- operations ------------------------------------------------------------------------
def submit(w, ci, where, how, task, mask):
    net, c = w.net, w.clients[ci]
    live = c.ids
    if not live:
        return
    kind, x = task
    label = "label-%i" % mask if mask % 3 == 0 else None
    if where == "lb":
        v = c.load_balanced_view()
        how = "apply"
    else:
        v = c[live[mask % len(live)]] if where == "one" else c[live[:mask % 4 + 1]]
    v.block = False
    n = len(c.history)
    v.label = label
    if how == "apply":
        ar = v.apply_async(job, kind, x)
        what = (kind, x)
    else:
        code = {"err": "print('x'); raise ValueError(%i)" % x, "say": "print('say %i'); %i" % (x, x), "none": "y = 1"}.get(kind, "%i + 1" % x)
        ar = v.execute(code, block=False)
        what = ("code", kind, x)
    net.run_callbacks()
    new = c.history[n:]
    if where == "lb":
        check(len(new) == 1, "messages of a load-balanced task: %r", new)
    for m in new:
        t = w.tasks.get(m)
        if t is None:
            raise HarnessError("the hub did not see %s" % m)
        t.kind, t.what, t.client, t.label = "lb" if where == "lb" else "direct", what, ci, label
        t.ar = ar


def step(w, n):
    for _ in range(n):
        if not w.net.step():
            break


def late(w, i, typ, text):
    ts = [t for t in w.known() if t.uuid in {e.uuid for e in w.net.engines.values()} and t.result]
    if not ts:
        return
    t = ts[i % len(ts)]
    e = w.net.engines[w.names[t.uuid]]
    content = {"stdout": lambda: {"name": "stdout", "text": text}, "stderr": lambda: {"name": "stderr", "text": text},
               "error": lambda: {"ename": "Late", "evalue": text, "traceback": [text]},
               "execute_result": lambda: {"execution_count": 9, "data": {"text/plain": text}, "metadata": {}},
               "display_data": lambda: {"data": {"text/plain": text}, "metadata": {}}}[typ]()
    w.net.iopub(e, {"header": t.header}, "stream" if typ in ("stdout", "stderr") else typ, content)
    w.ctx.tag("late_output")


def told(w):
    w.net.run(only=lambda k: k[0] == "notif" or k[0] == "peer" and k[2] == "notification")


def kill(w, i):
    from ipyparallel import error

    from vlib.fakes import make_session

    net = w.net
    live = sorted(net.engines)
    if len(live) < 2:
        return
    eid = live[i % len(live)]
    e = net.engines[eid]
    net.kill(eid)
    told(w)
    net.box.advance(30)
    s = make_session(net.key, "scheduler")
    for t in list(w.tasks.values()):
        if t.result or t.uuid != e.uuid and net.placed.get(t.mid) != eid:
            continue
        if t.kind == "direct":
            t.result = {"by": "hub", "content": {}, "metadata": {"engine": e.uuid}, "header": {}}
        elif net.placed.get(t.mid) == eid:
            try:
                raise error.EngineError("Engine %r died while running task %r" % (e.uuid, t.mid))
            except error.EngineError:
                content = error.wrap_exception()
            msg = s.msg("apply_reply", content=content, parent=t.header, metadata={"status": "error", "engine": e.uuid, "scheduler": True})
            fr = [bytes(b) for b in s.serialize(msg)]
            ident = net.ident if t.client == 0 else w.peer.ident
            if t.kind == "lb":
                net.put(("reply", "task", "scheduler") if t.client == 0 else ("peer", 0, "task", "scheduler"), fr)
            net._monitor(b"outtask", [ident, e.uuid.encode()] + fr)
    w.ctx.tag("died")


def engine(w):
    if len(w.net.engines) < 4:
        w.net.add_engine()
        w.engines()
        told(w)


def choose(w, spec):
    """(argument, tasks)"""
    ts = w.known()
    if not ts:
        return None
    how, idx = spec
    if how == "ar":
        t = ts[idx[0] % len(ts)]
        ar = getattr(t, "ar", None)
        if ar is None or any(w.tasks[m].purged for m in ar.msg_ids):
            return None
        return ar, [w.tasks[m] for m in ar.msg_ids]
    sel = []
    for i in idx:
        if ts[i % len(ts)] not in sel:
            sel.append(ts[i % len(ts)])
    if how == "single":
        return sel[0].mid, sel[:1]
    return [t.mid for t in sel] if how == "list" else tuple(t.mid for t in sel), sel


def hubonly(k):
    """messages between a client and the hub"""
    return k[0] in ("hubq", "hubr") or k[0] == "peer" and k[2] == "query"


def get(w, spec, how, owner, by_, by=None):
    from ipyparallel import error
    from ipyparallel.client.asyncresult import AsyncHubResult

    net, ctx = w.net, w.ctx
    ci = 1 if by is None and by_ else by if by is not None else 0
    c = w.clients[ci]
    a = choose(w, spec)
    if a is None:
        return
    arg, ts = a
    if spec[0] == "ar" and ts[0].client != ci:
        # (a result belongs to its client)
        arg = [t.mid for t in ts]
    what = "get_result(%r, owner=%r).%s of client %i" % (ts, owner, how, ci)
    single = isinstance(arg, str) or spec[0] == "ar" and not isinstance(arg, list) and arg._single_result
    if how == "block":
        ar = net.call(lambda: c.get_result(arg, block=True, owner=bool(owner)), what)
        check(ar.ready(), "%s is not ready", what) if not isinstance(ar, AsyncHubResult) else check(net.call(ar.ready, what), "%s is not ready", what)
    else:
        ar = c.get_result(arg, block=False, owner=bool(owner))
    same(list(ar.msg_ids), [t.mid for t in ts], "msg_ids of %s", what)
    finish(w, ar, ts, c, ci, how, single, what, owner)


def outcome(fn):
    try:
        return "ok", fn()
    except TimeoutError as e:
        return "timeout", e
    except Exception as e:
        return "raised", e


def finish(w, ar, ts, c, ci, how, single, what, owner):
    from ipyparallel import error
    from ipyparallel.client.asyncresult import AsyncHubResult

    net, ctx = w.net, w.ctx
    hub = isinstance(ar, AsyncHubResult)
    ctx.tag("from-hub" if hub else "local")
    def done():
        """with nothing delivered but the hub's answers"""
        return all(t.result and (t.mid not in c.outstanding) for t in ts)

    def call(fn):
        return net.call(lambda: outcome(fn), what)

    def judge_all(got, what):
        if single:
            got = [got]
        same(len(got), len(ts), "number of results of %s", what)
        for t, g in zip(ts, got):
            w.judge(t, g, what, hub)

    def judge_raised(e, what):
        """the errors of the tasks are raised"""
        bad = [t for t in ts if w.failed(t)]
        check(bad, "%s raised %r", what, e)
        if single:
            w.judge(ts[0], e, what, hub)
        else:
            check(isinstance(e, error.CompositeError), "%s raised %r", what, e)
            same([x[0] for x in e.elist], [w.want(t)[1] for t in bad], "errors raised by %s", what)

    def either(got, what):
        if got[0] == "ok":
            check(not any(w.failed(t) for t in ts), "%s did not raise the errors: %r", what, got[1])
            judge_all(got[1], what)
        elif got[0] == "raised":
            judge_raised(got[1], what)
        else:
            raise Violation("%s timed out" % what)

    before = done()
    if hub and not before:
        ctx.tag("waited")
        ctx.nontrivial()
    if hub and how in ("zero", "short"):
        r = net.call(lambda: ar.wait(0 if how == "zero" else 0.01), what, only=hubonly)
        same(r, before, "%s: what wait() returned, with the hub knowing the results of %i of %i", what, sum(1 for t in ts if t.result), len(ts))
        same(net.call(ar.ready, what, only=hubonly), before, "%s: ready()", what)
        same(net.call(lambda: ar.progress, what, only=hubonly), sum(1 for t in ts if t.result and t.mid not in c.outstanding), "%s: progress", what)
        if not before:
            same(net.call(lambda: outcome(lambda: ar.get(0)), what, only=hubonly)[0], "timeout", "%s: get(0) before it is done", what)
            same(net.call(lambda: outcome(lambda: ar.successful()), what, only=hubonly)[0], "raised", "%s: successful() before it is done", what)
    elif how == "iter" and not single:
        got = []

        def it():
            for x in ar:
                got.append(x)
            return got
        r = call(it)
        if r[0] == "ok":
            either(r, what)
        else:
            bad = [j for j, t in enumerate(ts) if w.failed(t)]
            check(bad and len(got) <= bad[0], "%s yielded %r, then %s %r", what, got, *r)
            for t, g in zip(ts, got):
                w.judge(t, g, what, hub)
    elif how == "future":
        either(call(lambda: ar.result()), what)
    elif how == "exception":
        r = call(lambda: ar.exception())
        same(r[0], "ok", "%s", what)
        if r[1] is None:
            check(not any(w.failed(t) for t in ts), "%s: no exception", what)
        else:
            judge_raised(r[1], what)
    elif how == "callback":
        called = []
        ar.add_done_callback(called.append)
        call(lambda: ar.wait())
        net.run_callbacks()
        same(len(called), 1, "%s: calls of the callback", what)
    elif how == "output":
        same(call(lambda: ar.wait_for_output()), ("ok", True), "%s", what)
        r = call(lambda: ar.stdout)
        same(r, ("ok", ts[0].io["stdout"] if single else [t.io["stdout"] for t in ts]), "%s: stdout", what) if hub else None
    elif how == "interactive":
        import io, contextlib

        with contextlib.redirect_stderr(io.StringIO()):
            same(call(lambda: ar.wait_interactive(interval=0.001))[0], "ok", "%s", what)
        check(before or all(t.result for t in ts), "%s returned before all was done", what)
    elif how == "r":
        either(call(lambda: ar.r), what)
    elif how == "dict":
        r = call(lambda: ar.get_dict())
        if all(t.result for t in ts) and not any(w.failed(t) for t in ts):
            eids = [w.names[t.uuid] for t in ts]
            live = {e.uuid for e in net.engines.values()}
            if len(set(eids)) < len(eids):
                check(r[0] == "raised" and isinstance(r[1], ValueError), "%s: %r", what, r)
            elif all(t.uuid in live for t in ts):
                check(r[0] == "ok", "%s: %r", what, r)
                same(list(r[1]), eids, "%s: engines", what)
                for t in ts:
                    w.judge(t, r[1][w.names[t.uuid]], what, hub)
        else:
            same(r[0], "raised", "%s", what)
    elif how == "display":
        import io, contextlib

        out, err = io.StringIO(), io.StringIO()
        call(lambda: ar.wait())
        if hub:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                r = call(lambda: ar.display_outputs())
            same(r[0], "ok", "%s: %r", what, r[1])
            for t in ts:
                for k, o in (("stdout", out), ("stderr", err)):
                    check(t.io[k].strip() in o.getvalue(), "%s: %s %r is not shown in %r", what, k, t.io[k], o.getvalue())
    elif how == "when":
        for rw in (concurrent.futures.FIRST_COMPLETED, concurrent.futures.FIRST_EXCEPTION, concurrent.futures.ALL_COMPLETED)[len(ts) % 3:][:1]:
            r = call(lambda: ar.wait(return_when=rw))
            check(r[0] == "ok" and isinstance(r[1], tuple) and len(r[1]) == 2, "%s(%s): %r", what, rw, r)
            if rw == concurrent.futures.ALL_COMPLETED:
                check(not r[1][1], "%s(%s): pending: %r", what, rw, r[1][1])
    elif how == "getwhen":
        r = call(lambda: ar.get(return_when=concurrent.futures.FIRST_EXCEPTION))
        if r[0] == "ok":
            either(r, what)
        else:
            check(r[0] == "raised" and isinstance(r[1], error.RemoteError), "%s: %r", what, r)
    elif how == "send":
        if hub:
            r = call(lambda: ar.wait_for_send(5))
            check(r[0] == "ok", "%s: %r", what, r)
            check(ar.sent, "%s: not sent", what)
    elif how == "item":
        call(lambda: ar.wait())
        if not single:
            for j, t in enumerate(ts):
                r = call(lambda: ar[j])
                if r[0] == "ok":
                    w.judge(t, r[1], what, hub)
                else:
                    check(any(w.failed(t) for t in ts), "%s: [%i]: %r", what, j, r)
            same(len(ar), len(ts), "%s: len", what)

    # in the end
    r = call(lambda: ar.get(return_exceptions=True))
    check(r[0] == "ok", "%s: get(return_exceptions=True) %s %r", what, *r)
    check(all(t.result for t in ts), "%s came back before the tasks were done", what)
    judge_all(r[1], "%s: get(return_exceptions=True)" % what)
    either(call(lambda: ar.get()), what + ": get()")
    same(call(ar.successful), ("ok", not any(w.failed(t) for t in ts)), "%s: successful()", what)
    same(call(lambda: ar.progress), ("ok", len(ts)), "%s: progress", what)
    if hub:
        mds = ar.metadata if not single else [ar.metadata]
        same(len(mds), len(ts), "%s: metadata", what)
        for t, md in zip(ts, mds):
            if t.mid in w.stale(ci):
                continue
            w.judge_meta(t, md, c, what + ": metadata")
            ctx.nontrivial(t.client != ci)
        if all(t.result["by"] == "engine" and not t.result["metadata"].get("scheduler") for t in ts) and not any(t.mid in w.stale(ci) for t in ts):
            from ipyparallel import util
            r = call(lambda: (ar.serial_time, ar.wall_time, ar.elapsed))
            check(r[0] == "ok" and all(isinstance(x, float) for x in r[1]), "%s: times %r", what, r)
            d = util._parse_date
            want = sum((d(str(t.result["header"]["date"])) - d(str(t.result["metadata"]["started"]))).total_seconds() for t in ts)
            check(abs(r[1][0] - want) < 1e-6, "%s: serial_time %r, expected %r", what, r[1][0], want)
        # later output is not followed
        if not owner:
            w.stale(ci).update(t.mid for t in ts)


def _stale(self, ci):
    """kept results: what happens later is not seen"""
    if not hasattr(self, "_st"):
        self._st = [set(), set()]
    return self._st[ci]


World.stale = _stale


def status(w, spec, only):
    net = w.net
    c = w.clients[1]
    a = choose(w, spec)
    if a is None or not isinstance(a[0], (str, list, tuple)):
        return
    arg, ts = a
    what = "result_status(%r, status_only=%r)" % (ts, only)
    from ipyparallel import error

    r = net.call(lambda: outcome(lambda: c.result_status(arg, status_only=only)), what,
                 only=hubonly)
    fin = [t for t in ts if t.result]
    if r[0] != "ok":
        check(not only and any(w.failed(t) for t in fin) and isinstance(r[1], (error.RemoteError, error.CompositeError)), "%s: %r", what, r)
    else:
        got = r[1]
        same(sorted(got["completed"]), sorted(t.mid for t in fin), "%s: completed", what)
        same(sorted(got["pending"]), sorted(t.mid for t in ts if not t.result), "%s: pending", what)
        if not only:
            for t in fin:
                check(t.mid in got, "%s: no result of %r", what, t)
                w.judge(t, got[t.mid], what)
    if not only:
        for t in fin:
            check(t.mid in c.results, "%s: the result of %r is not kept", what, t)
            w.judge(t, c.results[t.mid], what)
            if t.mid not in w.stale(1):
                w.judge_meta(t, c.metadata[t.mid], c, what + ": metadata")
        w.stale(1).update(t.mid for t in fin)
        w.ctx.nontrivial(any(t.client == 0 for t in fin))


def unknown(w, how, i):
    from ipyparallel import error

    c = w.clients[1]
    gone = [t for t in w.tasks.values() if t.purged and t.mid not in c.results and t.mid not in c._futures]
    mid = gone[i % len(gone)].mid if gone else "nope"
    ids = [mid] if how != "list" else [mid] + [t.mid for t in w.known() if t.mid not in c.results][:1]
    what = "%s of an unknown task" % how
    fn = {"get": lambda: c.get_result(ids).get(), "list": lambda: c.get_result(ids).get(), "status": lambda: c.result_status(ids),
          "resubmit": lambda: c.resubmit(ids)}[how]
    r = w.net.call(lambda: outcome(fn), what)
    if how == "status" and gone and r[0] == "ok":
        # that it was completed may be remembered
        same((r[1]["pending"], r[1]["completed"]), ([], ids), "status of a purged task")
        return
    check(r[0] == "raised" and isinstance(r[1], error.RemoteError) and r[1].ename == "KeyError", "%s: %r", what, r)


def broken(w, how, i):
    """a request that fails in the Hub's database: the caller is told, and nothing else happens"""
    from unittest import mock

    from ipyparallel import error

    c, db = w.clients[1], w.net.box.hub.db

    def fail(*a, **kw):
        raise OSError("database %d is gone" % i)

    known = [t.mid for t in w.known()]
    fn = {"history": c.hub_history, "query": lambda: c.db_query({"msg_id": {"$ne": "x"}}, keys=["msg_id"]),
          "purge": lambda: c.purge_hub_results("all"), "resubmit": lambda: c.resubmit(known[i % len(known)] if known else "nope")}[how]
    what = "%s, with a failing database" % how
    futures = set(c._futures)
    with contextlib.ExitStack() as stack:
        for m in ("get_history", "find_records", "drop_matching_records"):
            stack.enter_context(mock.patch.object(db, m, fail))
        r = w.net.call(lambda: outcome(fn), what, only=hubonly)
    check(r[0] == "raised" and isinstance(r[1], error.RemoteError) and r[1].ename == "OSError" and "database %d" % i in str(r[1]), "%s: %r", what, r)
    same(set(c._futures), futures, "%s: tasks that are waited for", what)
    w.ctx.tag("broken")


def history(w):
    from ipyparallel import util

    got = w.net.call(lambda: w.clients[1].hub_history(), "hub_history()", only=hubonly)
    same(sorted(got), sorted(t.mid for t in w.known()), "hub_history()")
    dates = [util._parse_date(str(w.tasks[m].header["date"])) for m in got]
    same(dates, sorted(dates), "order of hub_history()")
    w.ctx.tag("history")


def queue(w, targets, verbose):
    c = w.clients[1]
    live = sorted(w.net.engines)
    if targets == "all":
        sel, arg = live, "all"
    elif isinstance(targets, int):
        sel = [live[targets % len(live)]]
        arg = sel[0]
    else:
        sel = sorted({live[i % len(live)] for i in targets})
        arg = sel
    if arg == []:
        return
    got = w.net.call(lambda: c.queue_status(arg, verbose=verbose), "queue_status(%r, %r)" % (arg, verbose), only=hubonly)
    if isinstance(arg, int):
        got = {arg: got}
    else:
        un = got.pop("unassigned", None)
        want = [t.mid for t in w.tasks.values() if t.kind in ("lb", "resub") and not t.result and not t.uuid]
        if verbose:
            same(sorted(un), sorted(want), "unassigned tasks in queue_status(%r)", arg)
        else:
            same(un, len(want), "number of unassigned tasks in queue_status(%r)", arg)
    same(sorted(got), sel, "engines in queue_status(%r)", arg)
    for eid, q in got.items():
        uuid = w.net.engines[eid].uuid
        mine = [t for t in w.tasks.values() if t.uuid == uuid]
        want = {"queue": [t.mid for t in mine if t.kind == "direct" and not t.result], "tasks": [t.mid for t in mine if t.kind != "direct" and not t.result],
                "completed": [t.mid for t in mine if t.result]}
        for k, v in want.items():
            if verbose:
                same(sorted(q[k]), sorted(v), "%s of engine %s in queue_status", k, eid)
            else:
                same(q[k], len(v), "%s of engine %s in queue_status", k, eid)
    w.ctx.tag("queue")


def query(w, which, i, keys):
    from datetime import datetime

    from ipyparallel import util

    c = w.clients[1]
    ts = w.known()
    pick = [t for j, t in enumerate(ts) if (i >> j % 6) & 1]

    def sub(t):
        return util._parse_date(str(t.header["date"]))
    mid = sorted(ts, key=sub)[i % len(ts)] if ts else None
    if which in ("before", "after") and mid is None:
        return
    uuid = sorted(w.names)[i % len(w.names)]
    q, sel = {
        "all": lambda: ({"msg_id": {"$ne": ""}}, ts),
        "ids": lambda: ({"msg_id": {"$in": [t.mid for t in pick]}}, pick),
        "done": lambda: ({"completed": {"$ne": None}}, [t for t in ts if t.result]),
        "pending": lambda: ({"completed": None}, [t for t in ts if not t.result]),
        "engine": lambda: ({"engine_uuid": uuid, "completed": {"$ne": None}}, [t for t in ts if t.uuid == uuid and t.result]),
        "before": lambda: ({"submitted": {"$lt": sub(mid)}}, [t for t in ts if sub(t) < sub(mid)]),
        "after": lambda: ({"submitted": {"$gte": sub(mid)}}, [t for t in ts if sub(t) >= sub(mid)]),
        "client": lambda: ({"client_uuid": w.clients[i % 2].session.session}, [t for t in ts if t.header["session"] == w.clients[i % 2].session.session]),
    }[which]()
    keys_ = list(keys) if isinstance(keys, tuple) else keys
    what = "db_query(%r, %r)" % (q, keys_)
    r = w.net.call(lambda: outcome(lambda: c.db_query(q, keys_)), what, only=hubonly)
    check(r[0] == "ok", "%s: %r", what, r)
    same(sorted(x["msg_id"] for x in r[1]), sorted(t.mid for t in sel), "ids found by %s", what)
    klist = [keys_] if isinstance(keys_, str) else keys_

    def stamp(x):
        return util._parse_date(str(x)) if x is not None else None
    for x in r[1]:
        t = w.tasks[x["msg_id"]]
        if klist is not None:
            same(sorted(x), sorted(set(klist) | {"msg_id"}), "keys of a record from %s", what)
        else:
            check("buffers" not in x and "result_buffers" not in x, "%s returned buffers", what)
        if "buffers" in x:
            same([bytes(b) for b in x["buffers"]], t.bufs, "buffers of %r from %s", t, what)
        if "result_buffers" in x:
            same([bytes(b) for b in x["result_buffers"]], (t.result or {}).get("bufs", []), "result_buffers of %r from %s", t, what)
        if "header" in x:
            same(x["header"]["msg_id"], t.mid, "msg_id in the header from %s", what)
            check(isinstance(x["header"]["date"], datetime) and x["header"]["date"] == sub(t), "date in the header from %s: %r", what, x["header"]["date"])
        if "submitted" in x:
            same(x["submitted"], sub(t), "submitted of %r from %s", t, what)
        if "completed" in x:
            check((x["completed"] is None) == (not t.result), "completed of %r from %s: %r", t, what, x["completed"])
            if t.result and t.result["by"] == "engine":
                same(x["completed"], stamp(t.result["header"]["date"]), "completed of %r from %s", t, what)
        if "started" in x and t.result and t.result["metadata"].get("started"):
            same(x["started"], stamp(t.result["metadata"]["started"]), "started of %r from %s", t, what)
        if "received" in x and t.result and t.result["by"] == "engine":
            check(isinstance(x["received"], datetime), "received of %r from %s: %r", t, what, x["received"])
        if "stdout" in x:
            same(x["stdout"], t.io["stdout"], "stdout of %r from %s", t, what)
        if "engine_uuid" in x and t.result:
            same(x["engine_uuid"], t.uuid, "engine_uuid of %r from %s", t, what)
        if "result_content" in x and t.result and t.result["by"] == "engine":
            same(x["result_content"]["status"], t.result["content"]["status"], "result_content of %r from %s", t, what)
        if "metadata" in x:
            same(x["metadata"].get("label"), t.label, "label in the metadata of %r from %s", t, what)
    w.ctx.nontrivial(len(r[1]) > 1)
    w.ctx.tag("query")


def purge(w, spec, mask):
    from ipyparallel import error

    c = w.clients[1]
    live = sorted(w.net.engines)
    targets = [e for j, e in enumerate(live) if mask >> j & 1 and j < 2]
    if spec == "all":
        arg, ts = "all", [t for t in w.known() if t.result]
        targets = []
    else:
        a = choose(w, spec)
        if a is None:
            return
        arg, ts = a
        if mask > 5 and targets:
            arg, ts = [], []
    what = "purge_hub_results(%r, %r)" % (arg if arg == "all" else ts, targets)
    r = w.net.call(lambda: outcome(lambda: c.purge_hub_results(arg, targets)), what, only=hubonly)
    if spec != "all" and any(not t.result for t in ts):
        check(r[0] == "raised" and isinstance(r[1], error.RemoteError), "%s of pending tasks: %r", what, r)
        return
    same(r[0], "ok", "%s: %r", what, r[1])
    uu = {w.net.engines[e].uuid for e in targets}
    for t in w.known():
        if t in ts or t.uuid in uu and t.result:
            t.purged = True
    w.ctx.tag("purged")


def resubmit(w, spec, how):
    net = w.net
    c = w.clients[1]
    a = choose(w, spec)
    if a is None:
        return
    arg, ts = a
    if spec[0] == "ar":
        arg = [t.mid for t in ts]
    what = "resubmit(%r, %s)" % (ts, how)
    have = set(w.tasks)
    if any(t.kind == "direct" and t.what[0] == "code" for t in ts):
        # (execute requests are not for the scheduler)
        return
    w.expect = ts
    r = net.call(lambda: outcome(lambda: c.resubmit(arg, block=how == "block")), what,
                 only=None if how == "block" else hubonly)
    check(r[0] == "ok", "%s: %r", what, r)
    ar = r[1]
    new = [w.tasks[m] for m in w.tasks if m not in have]
    same(sorted(ar.msg_ids), sorted(t.mid for t in new), "%s: ids of the new tasks", what)
    same(len(ar.msg_ids), len(ts), "%s: number of new tasks", what)
    for m, t in zip(ar.msg_ids, ts):
        n = w.tasks[m]
        n.kind, n.what, n.client, n.label = "resub", t.what, t.client, t.label
        same(n.header["session"], t.header["session"], "%s: session of the new task", what)
        t.resubmitted = m
    w.ctx.tag("resubmitted")
    if how == "get":
        finish(w, ar, [w.tasks[m] for m in ar.msg_ids], c, 1, "get", False, what, False)


OPS = {"submit": submit, "step": step, "run": lambda w: w.net.run(), "late": late, "kill": kill, "engine": engine, "get": get, "status": status,
       "unknown": unknown, "broken": broken, "history": history, "queue": queue, "query": query, "purge": purge, "resubmit": resubmit}

SUBS = [Sub("hub", strategy, run, quick=2500, thorough=60000)]
